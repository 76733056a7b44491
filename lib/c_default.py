"""C07: process-wide resources against spec/Default.tla."""
import json, os, subprocess
import vf, tours
from vf import Violation, Machinery

THREADS = "{1, 2, 3, 4, 5, 6, 7, 8}"


def accepted(ctx, lines, name):
    """TLC validates the traces; returns the indices it rejects."""
    p = ctx.path(f"{name}.ndjson")
    with open(p, "w") as f:
        f.write("\n".join(lines) + "\n")
    text = f"SPECIFICATION TraceSpec\nCONSTANT Threads = {THREADS}\nCONSTANT Slots = {{1, 2, 3, 4}}\nACTION_CONSTRAINT Emit\n"
    r = ctx.tlc("DefaultTrace", text, env={"TRACES": p}, timeout=800)
    if not r.complete:
        raise Machinery("trace validation failed to run:\n" + r.tail())
    ctx.add("states", r.distinct)
    ctx.add("transitions", r.generated)
    ok = {int(x) for x in r.raw("D|")}
    bad = [i for i in range(len(lines)) if i + 1 not in ok]
    ctx.add("traces_validated_against_impl", len(lines) - len(bad))
    return bad


def how_far(ctx, line):
    p = ctx.path("one.ndjson")
    with open(p, "w") as f:
        f.write(line + "\n")
    r = ctx.tlc("DefaultTrace", f"SPECIFICATION TraceSpec\nCONSTANT Threads = {THREADS}\nCONSTANT Slots = {{1, 2, 3, 4}}\nACTION_CONSTRAINT EmitL\n", env={"TRACES": p})
    return max([int(x) for x in r.raw("L|")] + [1])


def complain(ctx, line, what, more):
    n = how_far(ctx, line)
    ev = json.loads(line)["ev"]
    raise Violation(what, dict(more, history=ev, explained_events=n - 1, first_unexplained=ev[n - 1] if n <= len(ev) else None))


def check(ctx):
    # 1. the model: every interleaving of 3 threads
    r = ctx.model("DefaultConc", "SPECIFICATION CSpec\nCONSTANT Threads = {1, 2, 3}\nCONSTANT Slots = {1}\nCONSTANT Calls = 2\n"
                  "INVARIANT OnceOut\nINVARIANT Conserved\nINVARIANT GetsKnown\n", deadlock=False)
    # 2. sequential graph
    r = ctx.model("DefaultMC", "SPECIFICATION MCSpec\nCONSTANT Threads = {1}\nCONSTANT Slots = {1, 2, 3, 4}\nCONSTANT NRes = 4\nCONSTANT Units = {1, 2}\nVIEW View\nINVARIANT Bound\nACTION_CONSTRAINT Emit\n")
    g = tours.Graph()
    for e in r.printed("E|"):
        g.add(json.dumps(e["s"]), e["o"], json.dumps(e["t"]))
    init = json.dumps([1, [0, 0, 0, 0]])
    if init not in g.out:
        raise Machinery("initial state missing")
    scripts = []
    for t in tours.tours(g, init, ctx.rng, 200):
        scripts.append([f"{o['op']} {o['tu']} {o['s']} {o['x']}" for o, _ in t])
    ctx.note(f"{len(g.out)} states, {g.n} edges, {len(scripts)} tours")
    H = vf.HARN
    builds = [("g++", "-O1"), ("clang++", "-O2")] if ctx.thorough else [("g++", "-O1")]
    jobs = []
    for cxx, o in builds:
        jobs.append(dict(src=os.path.join(H, "default_main.cpp"), out=ctx.path(f"main_{cxx}"), cxx=cxx, flags=(o,), extra_src=[ctx.path(f"u1_{cxx}.o"), ctx.path(f"u2_{cxx}.o")]))
        jobs.append(dict(src=os.path.join(H, "default_conc.cpp"), out=ctx.path(f"stress_{cxx}"), cxx=cxx, flags=("-O2",)))
    units = [dict(src=os.path.join(H, "default_unit.cpp"), out=ctx.path(f"u{n}_{cxx}.o"), cxx=cxx, flags=(o, "-c"), defs=(f"UNIT={n}",)) for cxx, o in builds for n in (1, 2)]
    ctx.build_all(units)
    ctx.build_all(jobs)
    seen, lines, src = set(), [], []

    def take(path, origin):
        n = 0
        for ln in open(path).read().splitlines():
            if ln not in seen:
                seen.add(ln)
                lines.append(ln)
                src.append(origin)
                n += 1
        return n

    sp = ctx.path("scripts.txt")
    with open(sp, "w") as f:
        for s in scripts:
            f.write("S\n" + "\n".join(s) + "\n")
    for cxx, _ in builds:
        for mode in ("0", "1"):
            o = ctx.path(f"seq_{cxx}_{mode}.out")
            ctx.run([ctx.path(f"main_{cxx}"), sp, o, mode])
            n = take(o, f"sequential, two translation units, {cxx}" + (", one thread per call" if mode == "1" else ""))
            ctx.add("executions", len(scripts))
    for cxx, _ in builds:
        for n, rounds in (((2, 100000), (3, 60000), (4, 30000), (8, 4000)) if ctx.thorough else ((2, 20000), (3, 10000), (4, 4000))):
            o = ctx.path(f"stress_{cxx}_{n}.out")
            ctx.run([ctx.path(f"stress_{cxx}"), "stress", str(n), str(rounds), str(ctx.seed), o], timeout=300)
            new = open(o).read().splitlines()
            cap = 6000 if ctx.thorough else 1200
            ctx.cov[f"stress_distinct_{n}_threads_{cxx}"] = len(new)
            # prefer histories whose calls overlapped the most: all are kept
            # up to the cap, the rest is sampled
            if len(new) > cap:
                new = ctx.rng.sample(new, cap)
                with open(o, "w") as f:
                    f.write("\n".join(new) + "\n")
            ctx.add("executions", rounds)
            take(o, f"{n} free-running threads, {cxx}")
    # 3. every interleaving of the library's own atomic steps
    try:
        ctx.build(src=os.path.join(H, "default_conc.cpp"), out=ctx.path("sched"), flags=("-O1",), defs=("VF_SCHED",))
        o = ctx.path("sched.out")
        r = ctx.run([ctx.path("sched"), "sched", str(5000 if ctx.thorough else 130), str(ctx.seed), o], timeout=600)
        ctx.add("executions", int(r.stdout.split()[0]))
        ctx.cov["scheduled_distinct_histories"] = take(o, "controlled schedule")
        ctx.cov["scheduled_interleavings"] = int(r.stdout.split()[0])
    except Violation:
        ctx.note("the scheduling stand-in for std::atomic does not fit this implementation; free-running threads only")
        ctx.cov["scheduled_interleavings"] = 0
    ctx.note(f"{len(lines)} distinct histories")
    bad = accepted(ctx, lines, "traces")
    if bad:
        complain(ctx, lines[bad[0]], "recorded history is not a behaviour of Default", {"origin": src[bad[0]]})
    ctx.sample({"history": json.loads(lines[-1])["ev"][:6]})
    ctx.sample({"script": scripts[0][:10]})
    ctx.assumptions += ["free-running threads sample schedules; controlled schedules enumerate them at the granularity of the library's std::atomic operations"]


CHECKS = {"C07": check}
