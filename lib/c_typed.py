"""C08: typed allocators against spec/Typed.tla."""
import json, os
import vf, tours
from vf import Violation, Machinery


def graph(ctx, ts, objs, raws):
    r = ctx.model("TypedMC", f"SPECIFICATION MCSpec\nCONSTANT TS = {{{ts}}}\nCONSTANT Objs = {objs}\nCONSTANT Raws = {raws}\nVIEW View\nINVARIANT Owned\nACTION_CONSTRAINT Emit\n")
    g = tours.Graph()
    key = lambda v: json.dumps([v[0], sorted(v[1]), sorted(v[2])])
    for e in r.printed("E|"):
        g.add(key(e["s"]), e["o"], key(e["t"]))
    init = json.dumps([[1, 1], [], []])
    if init not in g.out:
        raise Machinery("initial state missing")
    return g, init


def check(ctx):
    sets = [("1, 8", 2, 1), ("2, 7", 1, 1), ("3, 6", 1, 1), ("4, 5", 1, 1)]
    if ctx.thorough:
        sets = [("1, 8", 2, 2), ("2, 7", 2, 2), ("3, 6", 3, 1), ("4, 5", 2, 2), ("1, 2, 3", 2, 1), ("6, 7, 8", 2, 1)]
    scripts = []
    for ts, o, w in sets:
        g, init = graph(ctx, ts, o, w)
        n = 0
        for t in tours.tours(g, init, ctx.rng, 300):
            scripts.append([f"{p['op']} {p['s']} {p['T']} {p['x']} {p['f'] or '-'} {p['d']} {p['b']}" for p, _ in t])
            n += 1
        ctx.note(f"types {ts}: {len(g.out)} states, {g.n} edges, {n} tours")
    # drop the failure flag where the harness derives it from the planned block
    builds = {"gcc-O2": dict(cxx="g++", flags=("-O2", "-DNDEBUG")), "clang-O0": dict(cxx="clang++", flags=("-O0",))}
    if ctx.thorough:
        builds["gcc-asan"] = dict(cxx="g++", flags=("-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"))
    ctx.build_all([dict(src=os.path.join(vf.HARN, "typed.cpp"), out=ctx.path(n), **kw) for n, kw in builds.items()])
    sp = ctx.path("scripts.txt")
    with open(sp, "w") as f:
        for s in scripts:
            f.write("S\n" + "\n".join(s) + "\n")
    lines, origin, seen = [], [], set()
    for n in builds:
        o = ctx.path(n + ".out")
        ctx.run([ctx.path(n), sp, o], timeout=600)
        got = open(o).read().splitlines()
        if len(got) != len(scripts):
            raise Machinery("harness lost scripts")
        ctx.add("executions", len(got))
        for i, ln in enumerate(got):
            if ln not in seen:
                seen.add(ln)
                lines.append(ln)
                origin.append((n, i))
    ctx.note(f"{len(lines)} distinct traces")
    p = ctx.path("traces.ndjson")
    with open(p, "w") as f:
        f.write("\n".join(lines) + "\n")
    r = ctx.tlc("TypedTrace", "SPECIFICATION TraceSpec\n", env={"TRACES": p}, deadlock=True, timeout=800)
    if not r.complete:
        if not any("Deadlock reached" in e for e in r.errors):
            raise Machinery("trace validation failed to run:\n" + r.tail())
        t, l = int(r.last_state("tid")) - 1, int(r.last_state("l")) - 1
        ev = json.loads(lines[t])["ev"]
        raise Violation(f"recorded execution is not a behaviour of Typed (build {origin[t][0]}): event {l + 1}",
                        {"rejected": ev[l], "before": ev[max(0, l - 5):l], "script": scripts[origin[t][1]][:l + 1]})
    ctx.add("states", r.distinct)
    ctx.add("transitions", r.generated)
    ctx.add("traces_validated_against_impl", len(lines))
    ctx.sample({"trace_prefix": json.loads(lines[0])["ev"][:4]})
    ctx.assumptions += ["element types: 8 sizes/alignments from 1 to 256 bytes; ten constructor argument shapes"]


CHECKS = {"C08": check}
