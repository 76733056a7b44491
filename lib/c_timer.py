"""C10, C11: timers against spec/Timer.tla."""
import json, os
import vf, tours
from vf import Violation, Machinery

KINDS = "1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12"


def scripts_of(ctx, kinds, slots, ticks):
    S = ", ".join(map(str, range(1, slots + 1)))
    r = ctx.model("TimerMC", f'SPECIFICATION MCSpec\nCONSTANT Slots = {{{S}}}\nCONSTANT Rules = {{"call", "time"}}\nCONSTANT Kinds = {{{kinds}}}\nCONSTANT MaxTick = {ticks}\nVIEW View\nINVARIANT OneOwner\nINVARIANT Started\nACTION_CONSTRAINT Emit\n')
    g = tours.Graph()
    for e in r.printed("E|"):
        g.add(json.dumps(e["s"]), e["o"], json.dumps(e["t"]))
    init = json.dumps([[[0, 0, 0]] * slots, 0])
    if init not in g.out:
        raise Machinery("initial state missing")
    res = []
    for t in tours.tours(g, init, ctx.rng, 250):
        res.append([o for o, _ in t])
    ctx.note(f"{slots} timers: {len(g.out)} states, {g.n} edges, {len(res)} tours")
    return res


STEPS = (0, 1, 17, 999, 1000, 1001, 999999, 1000000, 999999999, 1000000000, 1000000001, 59999999999, 3600 * 10**9, 86400 * 10**9 * 30)


def concrete(rng, ops):
    """Replace abstract ticks by clock readings of very different size."""
    now, out = 0, []
    out.append("tick 0 0 0 0 %d" % (now := rng.choice((0, 1, 123456789, 10**9, 5 * 10**15 + 1))))
    for o in ops:
        if o["op"] == "tick":
            now += rng.choice(STEPS) + rng.choice((0, rng.randrange(10**9), rng.randrange(10**13)))
        out.append(f"{o['op']} {o['d']} {o['s']} {o['x']} {o['y']} {now}")
    return out


def random_ops(rng, slots, n):
    """Longer histories over more timers; a live-set is all that is tracked."""
    on, ops = set(), []
    free = list(range(1, 9))
    own = {}
    A = lambda op, d=0, s=0, x=0, y=0: ops.append({"op": op, "d": d, "s": s, "x": x, "y": y})
    for _ in range(n):
        k = rng.random()
        off = [i for i in range(1, slots + 1) if i not in on]
        if k < .25 and off and free:
            i = rng.choice(off)
            c = free.pop(rng.randrange(len(free)))
            A("new", i, 0, rng.randint(1, 12), c)
            on.add(i)
            own[i] = c
        elif k < .4 and off and on:
            d, s = rng.choice(off), rng.choice(sorted(on))
            A("movenew", d, s)
            on.add(d)
            own[d], own[s] = own.get(s, 0), 0
        elif k < .6 and len(on) > 1:
            d, s = rng.sample(sorted(on), 2)
            A("assign", d, s)
            if own.get(d):
                free.append(own[d])
            own[d], own[s] = own.get(s, 0), 0
        elif k < .7 and on:
            A("reset", rng.choice(sorted(on)))
        elif k < .8 and on:
            A("read", rng.choice(sorted(on)))
        elif k < .9:
            A("tick")
        elif on:
            i = rng.choice(sorted(on))
            A("del", i)
            on.discard(i)
            if own.get(i):
                free.append(own[i])
            own[i] = 0
    for i in sorted(on):
        A("del", i)
    return ops


def check(rule):
    def run(ctx):
        rng = ctx.rng
        plan = scripts_of(ctx, KINDS, 2, 3)
        plan += scripts_of(ctx, "1, 3" if not ctx.thorough else "1, 3, 6", 3, 1 if not ctx.thorough else 2)
        plan += [random_ops(rng, rng.choice((3, 5)), 120) for _ in range(2000 if ctx.thorough else 200)]
        builds = {"gcc-O0": dict(cxx="g++", flags=("-O0",)), "gcc-O2": dict(cxx="g++", flags=("-O2", "-DNDEBUG")), "clang-O2": dict(cxx="clang++", flags=("-O2",))}
        ctx.build_all([dict(src=os.path.join(vf.HARN, "timer.cpp"), out=ctx.path(n), fallback="ONLY_PUBLIC", **kw) for n, kw in builds.items()])
        sp = ctx.path("scripts.txt")
        scripts = [(n % 3, concrete(rng, p)) for n, p in enumerate(plan)]
        with open(sp, "w") as f:
            for k, s in scripts:
                f.write(f"S {k}\n" + "\n".join(s) + "\n")
        lines, origin, seen = [], [], set()
        for n in builds:
            o = ctx.path(n + ".out")
            ctx.run([ctx.path(n), sp, o, "5"], timeout=600)
            got = open(o).read().splitlines()
            if len(got) != len(scripts):
                raise Machinery("harness lost scripts")
            ctx.add("executions", len(got))
            for i, ln in enumerate(got):
                if ln not in seen:
                    seen.add(ln)
                    lines.append(ln)
                    origin.append((n, i))
        p = ctx.path("traces.ndjson")
        with open(p, "w") as f:
            f.write("\n".join(lines) + "\n")
        r = ctx.tlc("TimerTrace", f'SPECIFICATION TraceSpec\nCONSTANT Slots = {{1, 2, 3, 4, 5}}\nCONSTANT Rules = {{"{rule}"}}\n', env={"TRACES": p}, deadlock=True, timeout=800)
        if not r.complete:
            if not any("Deadlock reached" in e for e in r.errors):
                raise Machinery("trace validation failed to run:\n" + r.tail())
            t, l = int(r.last_state("tid")) - 1, int(r.last_state("l")) - 1
            ev = json.loads(lines[t])["ev"]
            raise Violation(f"recorded execution is not a behaviour of Timer under rule '{rule}' (build {origin[t][0]}): event {l + 1}",
                            {"timer_type": scripts[origin[t][1]][0], "rejected": ev[l], "before": ev[max(0, l - 6):l]})
        ctx.add("states", r.distinct)
        ctx.add("transitions", r.generated)
        ctx.add("traces_validated_against_impl", len(lines))
        ctx.sample({"trace_prefix": json.loads(lines[0])["ev"][:4]})
        ctx.assumptions += ["steady_clock::now is replaced in the harness", "callables are trivially copyable, as the timer's storage requires", "a timer is not moved into itself"]
    return run


CHECKS = {"C10": check("call"), "C11": check("time")}
