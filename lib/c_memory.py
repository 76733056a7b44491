"""C01..C06: chains of memory resources against spec/Memory.tla."""
import json, os
from collections import Counter
import vf, tours
from vf import Violation, Machinery

LOG2 = {1 << k: k for k in range(0, 23)}


def pool(M, B, base, ln, ctor=0):
    return {"k": "pool", "B": B, "lb": LOG2[B], "M": M, "base": base, "len": ln, "ctor": ctor}


def mono(base, ln, ctor=0):
    return {"k": "mono", "B": 1, "lb": 0, "M": 0, "base": base, "len": ln, "ctor": ctor}


def cfg(i, lv, term, sizes, als, entry=(1,), sh=0):
    """With sh everything is in units of 2^sh bytes: the same behaviours with
    lengths, sizes and blocks past every narrower integer.  A negative sh
    gives the (single) pool a buffer with 2^32 blocks more than it is told of
    here; it must hold at least its M blocks already."""
    return {"sh": sh, "id": i, "lv": lv, "term": term, "sizes": list(sizes), "als": list(als), "entry": list(entry)}


# sizes no buffer can hold: 2^64-k, 2^63+k, 2^32+k (see real_size in memory.cpp)
HUGE = (-1, -7, -8, -64, -1000, -1499990, -1500000, -1500008, -2000008, -2000001)


# ------------------------------------------------------------------ model
def explore(ctx, cfgs, hmax, bad=True):
    """Exhaustive state graphs of Memory over cfgs, one Graph per cfg."""
    p = ctx.path("cfgs.json")
    with open(p, "w") as f:
        json.dump(cfgs, f)
    text = f"""SPECIFICATION MCSpec
CONSTANT HMax = {hmax}
CONSTANT Rules = {{"safe", "tile", "place", "abort", "route", "mono"}}
INVARIANT InvDisjoint
INVARIANT InvInside
INVARIANT InvTiling
VIEW View
ACTION_CONSTRAINT Emit
"""
    r = ctx.model("MemoryMC", text, env={"CFGS": p})
    graphs = {c["id"]: tours.Graph() for c in cfgs}
    for e in r.printed("E|"):
        graphs[e["s"][0]].add(json.dumps(canon(e["s"])), e["o"], json.dumps(canon(e["t"])))
    inits = {}
    for c in cfgs:
        s = [c["id"], [], [[0 for _ in c["lv"]] for _ in range(len(c["lv"]) + 1)], [l["base"] for l in c["lv"]]]
        inits[c["id"]] = json.dumps(canon(s))
        if inits[c["id"]] not in graphs[c["id"]].out:
            raise Machinery("initial state not found in the printed graph")
    for g in graphs.values():
        prune(g)
    return graphs, inits


def canon(v):
    return [v[0], sorted(v[1]), v[2], v[3]]


def prune(g):
    """Where the model leaves a choice (alignment beyond the guarantee) plan
    with the upstream outcome; the trace decides what really happened."""
    for s, es in g.out.items():
        by = {}
        for k, op in es.items():
            if op["op"] == "alloc":
                by.setdefault((op["r"], op["sz"], op["al"]), []).append(k)
        for ks in by.values():
            lvs = [es[k]["out"]["lv"] for k in ks]
            non0 = sorted({x for x in lvs if x})
            if len(non0) > 1:
                for k in ks:
                    if es[k]["out"]["lv"] == non0[0]:
                        del es[k]


TERMINAL = ("bad", "destroybusy")


class Script:
    def __init__(self, c):
        self.c, self.ops = c, []
        self.h = 0
        self.live = []   # [handle, lv, a, via, dead]

    def do(self, op):
        o, r = op["op"], op["r"]
        if o == "alloc":
            self.h += 1
            self.ops.append(f"A {r} {op['sz']} {op['al']} {op['fail']}")
            if op["out"]["lv"]:
                self.live.append([self.h, op["out"]["lv"], op["out"]["a"], r, False])
        elif o == "free":
            for x in self.live:
                if x[1] == op["out"]["lv"] and op["out"]["a"] in (-1, x[2]) and x[3] == r and not x[4]:
                    self.ops.append(f"F {x[0]}")
                    if any(self.c["lv"][i - 1]["k"] == "mono" for i in range(x[3], min(x[1], len(self.c["lv"])) + 1)):
                        x[4] = True
                    else:
                        self.live.remove(x)
                    return
            raise Machinery("tour frees an unknown region")
        elif o == "freenull":
            self.ops.append(f"N {r}")
        elif o in ("release", "rebuild"):
            self.ops.append(("R" if o == "release" else "D") + f" {r}")
            if o == "release" or self.c["lv"][r - 1]["k"] == "mono":
                self.live = [x for x in self.live if x[1] != r]
        elif o == "destroybusy":
            self.ops.append(f"d {r}")
        elif o == "bad":
            self.ops.append(f"B {r} {op['out']['a']}")

    def text(self):
        t = {k: self.c[k] for k in ("id", "term")}
        t["lv"] = [{k: l[k] for k in ("k", "B", "lb", "M", "base", "len")} for l in self.c["lv"]]
        out = [f"S {self.c['term']} {json.dumps(t)}"]
        for l in self.c["lv"]:
            out.append(f"L {0 if l['k'] == 'pool' else 1} {l['B']} {l['M']} {l['base']} {l['len']} {l['ctor']} {self.c.get('sh', 0)}")
        return out + self.ops


def tour_scripts(ctx, graphs, inits, cfgs, maxlen=150, ctors=True):
    res = []
    for c in cfgs:
        g = graphs[c["id"]]
        for n, t in enumerate(tours.tours(g, inits[c["id"]], ctx.rng, maxlen, skip=lambda op: op["op"] in TERMINAL)):
            cc = vary_ctor(c, n) if ctors else c
            s = Script(cc)
            for op, _ in t:
                s.do(op)
            res.append(s)
    return res


def vary_ctor(c, n):
    cc = dict(c)
    cc["lv"] = [dict(l, ctor=(n + i) % 4 if l["base"] >= 0 else (n + i) % 2) for i, l in enumerate(c["lv"])]
    return cc


def misuse_scripts(ctx, graphs, inits, cfgs):
    res = []
    for c in cfgs:
        g = graphs[c["id"]]
        todo = {s: [op for op in es.values() if op["op"] in TERMINAL] for s, es in g.out.items()}
        paths = paths_valid(g, inits[c["id"]])
        for n, (s, path) in enumerate(paths.items()):
            for op in todo.get(s, ()):
                sc = Script(vary_ctor(c, n))
                for o, _ in path:
                    sc.do(o)
                sc.do(op)
                res.append(sc)
    return res


def paths_valid(g, start):
    from collections import deque
    res = {start: []}
    q = deque([start])
    while q:
        u = q.popleft()
        for (k, t), op in g.out[u].items():
            if op["op"] in TERMINAL or t in res:
                continue
            res[t] = res[u] + [(op, t)]
            q.append(t)
    return res


# ------------------------------------------------------------------ random
def random_script(rng, c, n, live_max=12, fail=0.0, misuse=False):
    """A long random history; handles address allocations so nothing needs
    to be predicted.  Frees favour none, neighbours and bulk phases."""
    s = Script(c)
    handles = []
    K = len(c["lv"])
    phase = 0
    for _ in range(n):
        if rng.random() < 0.05:
            phase = rng.randrange(3)
        x = rng.random()
        grow = (0.6, 0.8, 0.35)[phase]
        if x < grow and len(handles) < live_max:
            s.h += 1
            r = rng.choice(c["entry"])
            s.ops.append(f"A {r} {rng.choice(c['sizes'])} {rng.choice(c['als'])} {1 if rng.random() < fail else 0}")
            handles.append(s.h)
        elif x < 0.93 and handles:
            h = handles.pop(rng.randrange(len(handles)))
            s.ops.append(f"F {h}")
        elif x < 0.96:
            s.ops.append(f"N {rng.randint(1, K)}")
        elif x < 0.98 or not handles:
            # the harness forgets the handles a release takes back; frees of
            # forgotten handles are skipped there
            s.ops.append(f"R {rng.randint(1, K)}")
    return s


# ------------------------------------------------------------------ execution
BUILDS = {
    "debug": dict(cxx="g++", flags=("-O0",)),
    "release": dict(cxx="g++", flags=("-O2", "-DNDEBUG")),
    "clang": dict(cxx="clang++", flags=("-O2", "-DNDEBUG")),
}


def build(ctx, names):
    ctx.build_all([dict(src=os.path.join(vf.HARN, "memory.cpp"), out=ctx.path("mem_" + n), **BUILDS[n]) for n in names])
    return {n: ctx.path("mem_" + n) for n in names}


def execute(ctx, exe, scripts, tag, par=4):
    """Run scripts (in parallel slices); returns (script, trace line) pairs.
    A slice stops early after three hangs."""
    import subprocess
    from concurrent.futures import ThreadPoolExecutor
    par = max(1, min(par, len(scripts)))
    step = (len(scripts) + par - 1) // par
    parts = [scripts[i:i + step] for i in range(0, len(scripts), step)]

    def one(i):
        a, b = ctx.path(f"{tag}-{i}.in"), ctx.path(f"{tag}-{i}.out")
        with open(a, "w") as f:
            for s in parts[i]:
                f.write("\n".join(s.text()) + "\n")
        ctx.run([exe, a, b], timeout=800)
        got = open(b).read().splitlines()
        if len(got) != len(parts[i]) and '"out":"hang"' not in got[-1]:
            raise Machinery("harness lost scripts")
        return [(s, x) for s, x in zip(parts[i], got)]

    with ThreadPoolExecutor(par) as ex:
        res = [x for p in ex.map(one, range(len(parts))) for x in p]
    return res


def validate(ctx, rule, lines, name="MemoryTrace"):
    """TLC decides whether every recorded trace is a behaviour of the spec
    under `rule`.  Returns None, or (index, event number) of a rejection."""
    p = ctx.path(f"traces-{len(os.listdir(ctx.work))}.ndjson")
    with open(p, "w") as f:
        f.write("\n".join(lines) + "\n")
    text = f'SPECIFICATION TraceSpec\nCONSTANT Rules = {{"{rule}"}}\n'
    r = ctx.tlc(name, text, env={"TRACES": p}, deadlock=True, timeout=850)
    if r.complete:
        ctx.add("states", r.distinct)
        ctx.add("transitions", r.generated)
        return None
    if not any("Deadlock reached" in e for e in r.errors):
        raise Machinery("trace validation failed to run:\n" + r.tail())
    return int(r.last_state("tid")) - 1, int(r.last_state("l")) - 1


def conform(ctx, rule, scripts, builds):
    """Execute scripts with every build and have TLC judge the traces."""
    exes = build(ctx, builds)
    seen, lines, origin = set(), [], []
    for b, exe in exes.items():
        out = execute(ctx, exe, scripts, b, par=vf.CPUS)
        for s, ln in out:
            if ln not in seen:
                seen.add(ln)
                lines.append(ln)
                origin.append((b, s))
        ctx.add("executions", len(out))
    ctx.note(f"{len(scripts)} scripts x {len(exes)} builds, {len(lines)} distinct traces")
    bad = validate(ctx, rule, lines)
    if bad:
        t, l = bad
        b, s = origin[t]
        again = [ln for _, ln in execute(ctx, exes[b], [s], "again", par=1)]
        conf = validate(ctx, rule, again)
        if conf is None:
            raise Machinery("a rejected trace was accepted when repeated")
        tr = json.loads(again[0])
        evs = tr["ev"]
        l = conf[1]
        raise Violation(f"recorded execution is not a behaviour of Memory under rule '{rule}' "
                        f"(build {b}): event {l + 1} of {len(evs)}",
                        {"build": b, "script": s.text(), "rejected_event": evs[l] if l < len(evs) else None,
                         "previous_event": evs[l - 1] if l > 0 else None, "cfg": tr["cfg"]})
    ctx.add("traces_validated_against_impl", len(lines))
    n = Counter()
    for ln in lines:
        for e in json.loads(ln)["ev"]:
            n[e["op"] + ("" if e["out"] == "ok" else "/" + e["out"])] += 1
    ctx.cov["events"] = dict(n)
    ctx.cov["builds"] = list(exes)
    if lines:
        ctx.sample({"script": scripts[0].text()[:12], "trace_prefix": json.loads(lines[0])["ev"][:3]})


# ------------------------------------------------------------------ configurations
BASE = 4096


def pool_cfgs(ctx):
    S6 = [0, 1, 8, 9, 16, 17, 24, 32, 33, 40, 48, 49] + list(HUGE[:3])
    cs = [
        cfg(1, [pool(6, 8, BASE, 48)], "sys", S6, [0, 3, 4]),
        cfg(2, [pool(5, 8, BASE + 8, 64)], "none", [1, 8, 9, 16, 24, 25, 40, -8, -1499990], [0, 3, 4, 5, 6]),
        cfg(3, [pool(6, 8, BASE + 1021, 48 + 7)], "none", [8, 15, 16, 40, 41, -2000008], [2, 3, 4]),
        cfg(4, [pool(8, 8, BASE + 3, 33)], "null", [1, 8, 16, 17, 24, 25], [3, 4]),
        cfg(5, [pool(5, 1, BASE + 5, 5)], "none", [1, 2, 3, 5, 6], [0, 1, 2]),
        cfg(6, [pool(3, 16, BASE + 16, 64)], "sys", [1, 16, 17, 32, 33, 48], [0, 4, 5, 12]),
        cfg(7, [pool(2, 8, BASE, 64)], "none", [1, 8, 9, 16, 17], [3, 22]),
        cfg(8, [pool(5, 8, -1, 0)], "sys", [0, 1, 8, -1], [3]),
        cfg(9, [pool(5, 8, BASE + 1, 14)], "sys", [0, 1, 8], [3]),
        cfg(10, [pool(5, 8, BASE, 7)], "none", [0, 1, 8], [0]),
        cfg(11, [pool(4, 8, 0, 32)], "none", [8, 16, 32, -64], [3, 4, 12, 22, 40]),
    ]
    cs += [
        cfg(16, [pool(4, 64, BASE + 32, 260)], "none", [1, 64, 65, 128], [0, 6, 7]),
        cfg(17, [pool(4, 32, BASE + 16, 128)], "sys", [1, 32, 33, 96], [0, 5, 7]),
        cfg(18, [pool(5, 4096, 2 * BASE, 3 * BASE)], "none", [1, 4097, 12288], [0, 12]),
    ]
    cs += [
        cfg(19, [pool(1, 8, BASE, 16)], "sys", [0, 1, 7, 8, 9, -8], [0, 3, 4, 5]),
        cfg(20, [pool(1, 64, BASE + 32, 200)], "none", [1, 33, 64, 65], [0, 5, 6, 7]),
    ]
    cs += [
        cfg(21, [pool(4, 8, 8, 32)], "null", [0, 1, 8, 9, 16, 24, 32], [0, 3, 4], sh=28),
        cfg(22, [pool(3, 1, 5, 3)], "none", [0, 1, 2, 3, 4], [0, 1, 2], sh=33),
        cfg(23, [pool(3, 8, 13, 40)], "sys", [0, 1, 8, 17, 24], [3, 4], sh=28),
        cfg(31, [pool(3, 8, BASE + 4, 30)], "none", [0, 1, 8, 17, 24, 25], [3, 4], sh=-1),
    ]
    if ctx.thorough:
        cs += [
            cfg(12, [pool(7, 8, BASE + 8, 64)], "sys", [0, 1, 8, 9, 16, 17, 24, 32, 40, 48, 56, 57] + list(HUGE), [0, 3, 4, 5]),
            cfg(13, [pool(8, 8, BASE + 4, 68)], "none", [1, 8, 16, 24, 32, 64, 65] + list(HUGE[4:8]), [3, 4, 5]),
            cfg(14, [pool(8, 1, BASE + 3, 8)], "none", [1, 2, 3, 4, 8, 9], [0, 1, 2, 3]),
            cfg(15, [pool(5, 4096, 2 * BASE, 5 * BASE)], "sys", [1, 4096, 4097, 8192, 20480, 20481], [0, 12, 13, 14]),
        ]
    return cs


def big_cfgs():
    S = [1, 7, 8, 9, 15, 16, 17, 31, 40, 64, 100, 128, 200, 255, 256, 300, 511, 512, 800]
    A = [0, 3, 3, 4, 5, 7]
    return [
        cfg(101, [pool(256, 8, BASE, 2048)], "sys", S + [2048, 2000, -8], A),
        cfg(102, [pool(257, 8, BASE + 8, 2056)], "none", S + [2056, 2048, -1000], A),
        cfg(103, [pool(300, 8, BASE + 5, 2400)], "sys", S + [2384, 2392, 2393], A),
        cfg(104, [pool(255, 8, BASE, 4096)], "null", S + [2040, 2041], A),
        cfg(105, [pool(300, 1, BASE + 7, 299)], "none", [1, 2, 3, 5, 9, 17, 50, 100, 299], [0, 1, 2, 4]),
        cfg(106, [pool(64, 16, BASE + 48, 1024)], "sys", S, [0, 4, 5, 6, 8]),
        cfg(107, [pool(1000, 32, BASE, 32000)], "none", [1, 32, 33, 500, 1000, 5000, 8192, 8193, 16000, 31968, 32000], [5, 6, 9, 12]),
        cfg(108, [pool(65537, 8, BASE, 65536 * 7)], "none", [8, 64, 2048, 2049, 30000, 100000, 262144, 262145, 458752], [3, 12]),
        cfg(109, [pool(65535, 8, BASE + 8, 8 * 60000)], "sys", [8, 64, 2048, 2049, 30000, 100000, 262144, 262145, 480000], [3, 12]),
        cfg(110, [pool(4, 64, BASE + 32, 400)], "sys", [1, 63, 64, 65, 128, 129, 192, 256], [0, 6, 7, 8]),
        cfg(112, [pool(257, 1, 7, 257)], "none", [1, 2, 3, 5, 17, 64, 200, 256, 257], [0, 1, 2, 3], sh=28),
        cfg(113, [pool(300, 1, 3, 290)], "null", [1, 2, 3, 5, 17, 64, 200, 256, 290], [0, 1, 2, 3], sh=33),
        cfg(114, [pool(12, 2, 3, 25)], "sys", [1, 2, 3, 5, 8, 22, 24], [0, 1, 2, 3], sh=33),
        cfg(111, [pool(12, 8, BASE + 8, 96)], "none", [1, 8, 9, 16, 24, 32, 40, 88, 96], [3, 4, 5]),
    ]


def full_script(rng, c, n, order, end):
    """n live regions at once, given back in some order with larger requests
    in between; at the end the pool is idle, released or destroyed busy."""
    s = Script(c)
    B, lb = c["lv"][0]["B"], c["lv"][0]["lb"]
    alive = []

    def alloc(sz, al=None):
        s.h += 1
        s.ops.append(f"A 1 {sz} {lb if al is None else al} 1")
        alive.append(s.h)
    if end == "busy at once":
        for _ in range(n):
            alloc(rng.randint(1, B))
        s.ops.append("d 1")
        return s
    for _ in range(n):
        alloc(rng.randint(1, B))
    hs = list(alive)
    if order == "odd":
        hs = hs[1::2] + hs[::2]
    elif order == "down":
        hs = hs[::-1]
    elif order == "blocks":     # every fourth stays for long
        hs = [h for i, h in enumerate(hs) if i % 4] + hs[::4]
    elif order == "random":
        rng.shuffle(hs)
    for i, h in enumerate(hs):
        s.ops.append(f"F {h}")
        if i % 16 == 15:
            alloc(2 * B)
            alloc(B, lb + rng.randint(0, 3))
            if i % 64 == 63:
                s.ops.append(f"F {s.h}")
    if end == "release":
        s.ops.append("R 1")
    elif end == "busy":
        s.ops.append("d 1")
    else:
        for h in range(n + 1, s.h + 1):
            s.ops.append(f"F {h}")
        alloc(n * B)
        s.ops.append(f"F {s.h}")
    return s


def full_scripts(ctx):
    """As many live regions as blocks, past every width of a counter."""
    cs = [cfg(120, [pool(256, 8, BASE, 2048)], "none", [], []), cfg(121, [pool(257, 8, BASE + 8, 2056)], "sys", [], []),
          cfg(122, [pool(64, 16, BASE + 48, 1024)], "none", [], []), cfg(123, [pool(300, 1, BASE + 7, 299)], "none", [], []),
          cfg(124, [pool(65537, 8, BASE, 65536 * 7)], "none", [], [])]
    out = []
    for c, n in ((0, 256), (1, 257), (2, 64), (3, 299), (4, 300)):
        orders = ("odd", "down", "blocks", "random", "up") if ctx.thorough or n < 100 else ("odd", "random")
        for k, o in enumerate(orders):
            out.append(full_script(ctx.rng, cs[c], n, o, ("idle", "release", "busy")[(k + c) % 3]))
    for c, n in ((0, 256), (0, 255), (1, 256), (1, 257), (3, 256), (4, 256)):
        out.append(full_script(ctx.rng, cs[c], n, "", "busy at once"))
    if ctx.thorough:
        out.append(full_script(ctx.rng, cs[4], 1030, "random", "release"))
    return out


def pool_scripts(ctx, misuse=False):
    cfgs = pool_cfgs(ctx)
    graphs, inits = explore(ctx, cfgs, 7 if not ctx.thorough else 9)
    sc = tour_scripts(ctx, graphs, inits, cfgs)
    ctx.note(f"graphs: {sum(len(g.out) for g in graphs.values())} states, {sum(g.n for g in graphs.values())} edges, {len(sc)} tours")
    if misuse:
        m = misuse_scripts(ctx, graphs, inits, cfgs)
        cap = 20000 if ctx.thorough else 4000
        if len(m) > cap:
            m = ctx.rng.sample(m, cap)
        sc += m
    sc += full_scripts(ctx)
    big = big_cfgs()
    reps = 40 if ctx.thorough else 4
    for n in range(reps):
        for c in big:
            sc.append(random_script(ctx.rng, vary_ctor(c, n), 120, fail=0.2))
    return sc


def design(ctx):
    """The pool as implemented refines Memory's pool, and its calls end."""
    for n, org in ((1, 4), (4, 8), (4, 6)) if not ctx.thorough else ((1, 4), (2, 3), (4, 6), (5, 8), (6, 8), (6, 5), (6, 12)):
        ctx.model("PoolImpl", f"""SPECIFICATION Spec
CONSTANT N = {n}
CONSTANT Org0 = {org}
CONSTANT MaxAl = 2
INVARIANT Always
PROPERTY Ends
PROPERTY Released
PROPERTY Implements
PROPERTY ImplementsExactly
""")


def check_pool(rule, misuse=False):
    def run(ctx):
        if not misuse:
            design(ctx)
        sc = pool_scripts(ctx, misuse)
        conform(ctx, rule, sc, ("debug", "release", "clang") if ctx.thorough else ("debug", "release"))
        ctx.assumptions += ["sysops is replaced by a recording stand-in",
                            "valid histories only (misuse is C04)"] if not misuse else ["sysops is replaced by a recording stand-in"]
    return run


def chain_cfgs(ctx):
    S, A = [0, 1, 8, 9, 16, 24, 33, -8], [0, 3, 4]
    B2, B3 = BASE + 4096, BASE + 8192
    cs = [
        cfg(1, [pool(2, 8, BASE, 16), pool(3, 8, B2, 24)], "sys", S, A, (1, 2)),
        cfg(2, [pool(2, 8, BASE, 16), pool(3, 16, B2, 48)], "null", [1, 8, 16, 17, 33, 48, -1], [0, 3, 4, 5], (1, 2)),
        cfg(3, [pool(3, 16, BASE, 32), pool(2, 8, B2 + 8, 16)], "none", [1, 8, 16, 17, -64], [0, 3, 4], (1, 2)),
        cfg(4, [pool(2, 8, BASE, 16), mono(B2 + 5, 18)], "sys", [1, 8, 9], [0, 3], (1, 2)),
        cfg(5, [mono(BASE + 3, 10), pool(3, 8, B2, 24)], "sys", [0, 1, 8, 25], [0, 3], (1, 2)),
        cfg(6, [mono(BASE, 7), mono(B2 + 1, 10)], "sys", [0, 1, 5, 8, -1], [0, 2], (1, 2)),
        cfg(7, [pool(2, 8, BASE, 8), pool(2, 8, B2, 8), pool(2, 8, B3, 16)], "sys", [1, 8, 9, 16, 17], [0, 3], (1, 2, 3)),
        cfg(8, [pool(5, 8, -1, 0), pool(2, 8, B2, 16)], "sys", [0, 1, 8, 17], [0, 4], (1,)),
        cfg(9, [mono(-1, 0), pool(2, 8, B2, 16)], "null", [0, 1, 8, 17], [0, 4], (1,)),
        cfg(10, [pool(4, 32, BASE, 64), pool(5, 8, B2 + 8, 40)], "sys", [1, 32, 33, 40, 65], [0, 3, 5, 40], (1, 2)),
        cfg(11, [pool(2, 8, BASE + 1, 14)], "sys", [0, 1, 8], [3], (1,)),
        cfg(12, [mono(BASE, 8)], "none", [0, 1, 8, 9], [0, 3], (1,)),
        # buffers that touch: the upstream right behind, and right before
        cfg(14, [pool(2, 8, BASE, 16), pool(3, 8, BASE + 16, 24)], "sys", [0, 1, 8, 9, 24], A, (1, 2)),
        cfg(15, [pool(3, 8, BASE + 16, 24), pool(2, 8, BASE, 16)], "none", [0, 1, 8, 9, 24], A, (1, 2)),
        cfg(16, [pool(2, 8, BASE, 16), mono(BASE + 16, 24)], "sys", [1, 8, 9], [0, 3], (1, 2)),
        cfg(17, [mono(BASE, 16), pool(2, 8, BASE + 16, 16)], "sys", [1, 8, 9], [0, 3], (1, 2)),
        cfg(18, [pool(3, 16, BASE + 24, 48), pool(2, 8, BASE + 8, 16), mono(BASE + 72, 8)], "sys", [1, 8, 16, 17], [0, 3], (1, 2)),
        # and with a pool that could hold more blocks than its buffer does
        cfg(19, [pool(4, 8, BASE, 16), pool(3, 8, BASE + 16, 24)], "sys", [1, 8, 9, 24], [0, 3], (1, 2)),
        cfg(20, [pool(12, 8, BASE, 20), pool(4, 8, BASE + 20, 28)], "none", [1, 8, 9, 24], [0, 3], (1, 2)),
        cfg(21, [pool(4, 8, BASE + 64, 16), pool(5, 8, BASE, 64)], "none", [8, 16, 40], [0, 3], (1, 2)),
        cfg(24, [pool(1, 8, BASE, 40), pool(1, 64, BASE + 64, 64)], "sys", [1, 8, 9, 64, 65], [0, 3, 7], (1, 2)),
        cfg(22, [pool(4, 32, BASE, 64)], "none", [1, 33, 64, 65], [0, 5], (1,)),
        cfg(23, [mono(BASE, 64)], "none", [1, 33, 64, 65], [0, 5], (1,)),
        cfg(25, [pool(2, 8, 8, 16), pool(3, 8, 24, 24)], "sys", [0, 1, 8, 9, 24], [0, 3], (1, 2), sh=28),
        cfg(26, [mono(3, 13), pool(2, 8, 16, 16)], "null", [0, 1, 8, 9], [0, 3], (1, 2), sh=33),
        cfg(27, [pool(2, 8, 8, 16), mono(25, 20)], "none", [1, 8, 9], [0, 3], (1, 2), sh=28),
        cfg(13, [pool(2, 8, BASE, 16), mono(-1, 0), pool(2, 8, B3, 16)], "none", [8, 9, 16], [0, 3], (1, 2, 3)),
    ]
    return cs


def big_chains():
    S, A = [1, 7, 8, 9, 16, 17, 31, 40, 64, 100, 128, 200, 255, 512, -8, -1500000], [0, 3, 3, 4, 5, 7]
    B2, B3 = BASE + (64 << 10), BASE + (128 << 10)
    return [
        cfg(101, [pool(12, 8, BASE, 96), pool(64, 16, B2, 512)], "sys", S, A, (1, 1, 2)),
        cfg(102, [pool(8, 8, BASE + 8, 64), mono(B2 + 3, 300), pool(64, 16, B3 + 16, 900)], "sys", S, A, (1, 2, 3)),
        cfg(103, [mono(BASE + 1, 200), pool(257, 8, B2, 1000)], "null", S, A, (1, 2)),
        cfg(104, [pool(5, 1, BASE, 5), pool(12, 8, B2 + 8, 96), pool(4, 64, B3, 256)], "sys", S, A, (1, 2, 3)),
        cfg(105, [pool(5, 4096, BASE, 2 * BASE), pool(12, 8, B2 + (16 << 10), 96)], "sys", [1, 4096, 5000, 9000, 20000, 60], [0, 3, 12, 13], (1, 2)),
        cfg(106, [pool(256, 8, BASE, 128)], "sys", S, A + [12, 62], (1,)),
        cfg(108, [pool(64, 16, BASE + 8, 512), pool(12, 8, BASE + 520, 96), mono(BASE + 616, 100)], "sys", S, A, (1, 2, 3)),
        cfg(109, [pool(256, 8, BASE + 8, 256), pool(64, 16, BASE + 264, 400)], "sys", S, A, (1, 2)),
        cfg(107, [pool(3, 16, BASE, 48), pool(3, 8, B2 + 8, 24)], "none", S, A, (1, 2)),
    ]


def check_route(ctx):
    cfgs = chain_cfgs(ctx)
    graphs, inits = explore(ctx, cfgs, 3)
    sc = tour_scripts(ctx, graphs, inits, cfgs)
    ctx.note(f"graphs: {sum(len(g.out) for g in graphs.values())} states, {sum(g.n for g in graphs.values())} edges, {len(sc)} tours")
    for n in range(120 if ctx.thorough else 12):
        for c in big_chains():
            sc.append(random_script(ctx.rng, vary_ctor(c, n), 120, live_max=20, fail=0.3))
    conform(ctx, "route", sc, ("debug", "release", "clang") if ctx.thorough else ("debug", "release"))
    ctx.assumptions += ["sysops is replaced by a recording stand-in that can refuse any call"]


def mono_cfgs(ctx):
    H = list(HUGE)
    cs, n = [], 0
    for base in ((BASE, BASE + 1, BASE + 8, BASE + 4095) if not ctx.thorough else [BASE + k for k in (0, 1, 2, 3, 4, 7, 8, 15, 4095)]):
        for ln, term in ((9, "none"), (16, "null"), (24, "sys"), (33, "null")):
            n += 1
            cs.append(cfg(n, [mono(base, ln)], term, [0, 1, 3, 8, 9, 16, 17, 23, 24, 32, 33, 34] + H, [0, 1, 3, 4, 12, 22, 40, 62]))
    cs += [cfg(n + 1, [mono(-1, 0)], "sys", [0, 1, 8] + H, [0, 3]),
           cfg(n + 2, [mono(-1, 0)], "none", [0, 1, 8] + H, [0, 3]),
           cfg(n + 3, [mono(BASE, 0)], "sys", [0, 1, 8] + H, [0, 3]),
           cfg(n + 4, [mono(0, 20)], "sys", [0, 1, 8, 20] + H, [0, 3, 22, 40]),
           cfg(n + 6, [mono(3, 33)], "none", [0, 1, 3, 8, 9, 16, 17, 33], [0, 1, 3, 4], sh=28),
           cfg(n + 7, [mono(1, 20)], "sys", [0, 1, 3, 8, 16, 20], [0, 2, 3], sh=33),
           cfg(n + 5, [mono(BASE + 5, 64)], "sys", [1, 8, 32], [0, 4, 6])]
    return cs


def check_mono(ctx):
    cfgs = mono_cfgs(ctx)
    graphs, inits = explore(ctx, cfgs, 2 if not ctx.thorough else 3)
    sc = tour_scripts(ctx, graphs, inits, cfgs, maxlen=100)
    ctx.note(f"graphs: {sum(len(g.out) for g in graphs.values())} states, {sum(g.n for g in graphs.values())} edges, {len(sc)} tours")
    big = [cfg(101 + i, [mono(BASE + b, ln)], t, [0, 1, 2, 3, 5, 7, 8, 16, 31, 64, 100, 500] + list(HUGE), [0, 0, 1, 2, 3, 3, 4, 6, 9, 12])
           for i, (b, ln, t) in enumerate(((0, 4096, "sys"), (1, 1000, "none"), (13, 257, "null"), (4095, 5000, "sys"), (8, 64, "sys"), (128, 100000, "null")))]
    big += [cfg(111 + i, [mono(b, ln)], t, [0, 1, 2, 3, 5, 7, 8, 16, 31, 64, 100], [0, 0, 1, 2, 3, 4], sh=sh)
            for i, (b, ln, t, sh) in enumerate(((1, 500, "none", 28), (5, 300, "null", 33), (2, 200, "sys", 28)))]
    for n in range(100 if ctx.thorough else 10):
        for c in big:
            sc.append(random_script(ctx.rng, vary_ctor(c, n), 150, live_max=60, fail=0.3))
    conform(ctx, "mono", sc, ("debug", "release", "clang") if ctx.thorough else ("debug", "release"))
    ctx.assumptions += ["sysops is replaced by a recording stand-in"]


CHECKS = {
    "C05": check_route,
    "C06": check_mono,
    "C01": check_pool("safe"),
    "C02": check_pool("tile"),
    "C03": check_pool("place"),
    "C04": check_pool("abort", misuse=True),
}
