"""C12: in-place holders against spec/Holder.tla."""
import json, os, subprocess
from concurrent.futures import ThreadPoolExecutor
import vf, tours
from vf import Violation, Machinery


def reservations(ctx):
    """Holders declared with all sorts of sizes and alignments: which of
    them does the compiler take?"""
    ev = []

    def ask(q):
        cxx, sz, al, S, A = q
        src = ctx.path(f"r{cxx}-{sz}-{al}-{S}-{A}.cpp")
        with open(src, "w") as f:
            f.write(f"#include <cstddef>\n#include <utility>\n#include <utils/fast_pimpl.h>\nstruct alignas({al}) X {{ unsigned char c[{sz}]; }};\nstatic_assert(sizeof(X) == {sz} && alignof(X) == {al});\n"
                    f"int main() {{ utils::fast_pimpl<X, {S}, {A}> h; return h->c[0]; }}\n")
        r = subprocess.run([cxx, "-std=c++17", "-w", "-fsyntax-only", "-I", vf.INC, src], capture_output=True, text=True)
        return {"op": "reserve", "d": sz, "s": al, "x": S, "th": A, "out": int(r.returncode == 0)}
    qs = []
    for sz, al in ((24, 8), (1, 1), (64, 64), (3, 1), (16, 4)):
        for S, A in sorted({(sz, al), (sz - 1, al), (sz // 2, al), (sz, al // 2), (1, 1), (al, al), (sz + 1, al // 4), (2 * sz, al // 2)}):
            if S > 0 and A > 0:
                qs += [(cxx, sz, al, S, A) for cxx in (("g++", "clang++") if ctx.thorough else ("g++",))]
    with ThreadPoolExecutor(vf.CPUS) as ex:
        ev = list(ex.map(ask, qs))
    ctx.add("queries", len(ev))
    return ev


def check(ctx):
    slots = 3 if ctx.thorough else 2
    S = ", ".join(map(str, range(1, slots + 1)))
    r = ctx.model("HolderMC", f"SPECIFICATION MCSpec\nCONSTANT Slots = {{{S}}}\nVIEW View\nACTION_CONSTRAINT Emit\n", timeout=900)
    g = tours.Graph()
    for e in r.printed("E|"):
        g.add(json.dumps(e["s"]), e["o"], json.dumps(e["t"]))
    init = json.dumps([-1] * slots)
    if init not in g.out:
        raise Machinery("initial state missing")
    ts = []
    for t in tours.tours(g, init, ctx.rng, 200):
        ts.append([f"{o['op']} {o['d']} {o['s']} {o['x']} {o['th']}" for o, _ in t])
    ctx.note(f"{len(g.out)} states, {g.n} edges, {len(ts)} tours")
    scripts = [(n, t) for n, t in enumerate(ts)]
    for v in range(1, 6):      # every contained type sees a good part of them
        scripts += [(n + v, t) for n, t in enumerate(ts) if ctx.thorough or n % 2 == v % 2]
    builds = {"gcc-O0": dict(cxx="g++", flags=("-O0",)), "gcc-O2": dict(cxx="g++", flags=("-O2", "-DNDEBUG")), "clang-O1": dict(cxx="clang++", flags=("-O1",))}
    ctx.build_all([dict(src=os.path.join(vf.HARN, "holder.cpp"), out=ctx.path(n), **kw) for n, kw in builds.items()])
    sp = ctx.path("scripts.txt")
    with open(sp, "w") as f:
        for k, s in scripts:
            f.write(f"S {k}\n" + "\n".join(s) + "\n")
    lines, origin, seen = [], [], set()
    for n in builds:
        o = ctx.path(n + ".out")
        ctx.run([ctx.path(n), sp, o], timeout=600)
        got = open(o).read().splitlines()
        if len(got) != len(scripts) + 1:
            raise Machinery("harness lost scripts")
        ctx.add("executions", len(got))
        for i, ln in enumerate(got):
            if ln not in seen:
                seen.add(ln)
                lines.append(ln)
                origin.append((n, i - 1))
    lines.append(json.dumps({"ev": reservations(ctx)}))
    origin.append(("g++ and clang++", 0))
    p = ctx.path("traces.ndjson")
    with open(p, "w") as f:
        f.write("\n".join(lines) + "\n")
    r = ctx.tlc("HolderTrace", f"SPECIFICATION TraceSpec\nCONSTANT Slots = {{1, 2, 3}}\n", env={"TRACES": p}, deadlock=True, timeout=800)
    if not r.complete:
        if not any("Deadlock reached" in e for e in r.errors):
            raise Machinery("trace validation failed to run:\n" + r.tail())
        t, l = int(r.last_state("tid")) - 1, int(r.last_state("l")) - 1
        ev = json.loads(lines[t])["ev"]
        raise Violation(f"recorded execution is not a behaviour of Holder (build {origin[t][0]}): event {l + 1}",
                        {"rejected": ev[l], "before": ev[max(0, l - 4):l]})
    ctx.add("states", r.distinct)
    ctx.add("transitions", r.generated)
    ctx.add("traces_validated_against_impl", len(lines))
    ctx.sample({"trace_prefix": json.loads(lines[-1])["ev"][-3:]})


CHECKS = {"C12": check}
