"""C09: byte operations against spec/Bytes.tla."""
import json, os
import vf
from vf import Violation, Machinery

FN = ["move", "copy", "zero", "szero", "szeronull"]


def edges(ctx, size, depth):
    r = ctx.model("BytesMC", f"SPECIFICATION MCSpec\nCONSTANT Size = {size}\nCONSTANT Depth = {depth}\nVIEW View\nINVARIANT Sane\nACTION_CONSTRAINT Emit\n", timeout=900)
    return list(r.printed("E|"))


def check(ctx):
    deep = edges(ctx, 6 if not ctx.thorough else 7, 2)
    flat = edges(ctx, 9, 1)
    ctx.note(f"{len(deep)} + {len(flat)} transitions")
    sp = ctx.path("rt.txt")
    cases = deep + flat
    big = []
    rng = ctx.rng
    with open(sp, "w") as f:
        for i in range(0, len(cases), 500):
            f.write("T\n")
            for c in cases[i:i + 500]:
                o = c["o"]
                f.write(f"load {len(c['s'])} {' '.join(map(str, c['s']))}\n{o['f']} {o['d']} {o['s']} {o['n']}\n")
        # longer memories: chains of random operations
        for _ in range(400 if ctx.thorough else 60):
            size = rng.choice([16, 17, 31, 64, 100, 129, 256, 256, 600])
            f.write(f"T\nload {size} {' '.join(str(rng.randrange(256)) for _ in range(size))}\n")
            for _ in range(40):
                k = rng.choice(["move"] * 5 + ["copy", "copy", "zero", "szero"])
                n = rng.randint(0, size)
                if k == "copy":
                    n = rng.randint(0, size // 2)
                    a = rng.randint(0, size - 2 * n)
                    b = rng.randint(a + n, size - n)
                    d, s = (a, b) if rng.random() < .5 else (b, a)
                else:
                    d, s = rng.randint(0, size - n), rng.randint(0, size - n)
                f.write(f"{k} {d} {s} {n}\n")
        # cells of 2^16+3 bytes: some of the transitions once more
        for c in rng.sample(deep, 400 if ctx.thorough else 60):
            o = c["o"]
            f.write(f"T\nunit 65539\nload {len(c['s'])} {' '.join(map(str, c['s']))}\n{o['f']} {o['d']} {o['s']} {o['n']}\n")
    # cells past 2^31 and 2^32 bytes
    with open(ctx.path("huge.txt"), "w") as f:
        f.write("T\nunit 4294967307\nload 2 1 2\nzero 1 0 1\nload 2 1 2\ncopy 0 1 1\nload 2 3 4\nmove 1 0 1\nszero 0 0 1\n")
        f.write("T\nunit 2147483659\nload 3 1 2 3\nmove 1 0 2\nmove 0 1 2\nszero 0 0 1\nszero 1 0 2\n")
        if ctx.thorough:
            for _ in range(25):
                k, n, d, s = rng.choice(["move", "zero", "szero"]), rng.randint(1, 3), rng.randint(0, 2), rng.randint(0, 2)
                n = min(n, 3 - max(d, s))
                f.write(f"load 3 {rng.randint(1, 255)} {rng.randint(1, 255)} {rng.randint(1, 255)}\n{k} {d} {s} {n}\n")
    ct = flat + [c for c in (deep if ctx.thorough else rng.sample(deep, min(1500, len(deep)))) if c["o"]["f"] != "szeronull" or True]
    if len(ct) > 12000:
        ct = flat + rng.sample(deep, 10000)
    with open(ctx.path("ct_cases.inc"), "w") as f:
        for c in ct:
            o = c["o"]
            m = c["s"] + [200 + k for k in range(9 - len(c["s"]))]
            f.write("{%d,%d,%d,%d,{%s}},\n" % (FN.index(o["f"]), o["d"], o["s"], o["n"], ",".join(map(str, m))))
    with open(ctx.path("ct_big.inc"), "w") as f:
        nbig = 0
        for n in (10, 15, 16, 17, 31, 32, 33, 47, 48, 63, 64, 65, 90):
            for dist in sorted({1, 2, 3, 7, 8, 9, n // 2, n - 1, n, 5 - n % 3}):
                for d, s in ((0, dist), (dist, 0), (3, 3 + dist), (3 + dist, 3)):
                    if max(d, s) + n > 96:
                        continue
                    for fn in (0, 1) if dist >= n else (0,):
                        f.write("{%d,%d,%d,%d,{%s}},\n" % (fn, d, s, n, ",".join(str((37 * k + nbig) % 251) for k in range(96))))
                        nbig += 1
            for d in (0, 1, 96 - n):
                for fn in (2, 3):
                    f.write("{%d,%d,0,%d,{%s}},\n" % (fn, d, n, ",".join(str(1 + (37 * k + nbig) % 251) for k in range(96))))
                    nbig += 1
    inc = ("-I", ctx.work)
    builds = {"gcc-O0": dict(cxx="g++", flags=("-O0", *inc, "-fconstexpr-ops-limit=2000000000", "-fconstexpr-loop-limit=2000000")),
              "gcc-O2": dict(cxx="g++", flags=("-O2", "-DNDEBUG", *inc, "-fconstexpr-ops-limit=2000000000", "-fconstexpr-loop-limit=2000000")),
              "clang-O2": dict(cxx="clang++", flags=("-O2", "-DNDEBUG", *inc, "-fconstexpr-steps=2000000000"))}
    jobs = [dict(src=os.path.join(vf.HARN, "bytes.cpp"), out=ctx.path(n), **kw) for n, kw in builds.items()]
    dying = {}
    for cxx in ("g++", "clang++"):
        for o in ("-O1", "-O2", "-O3", "-Os") if ctx.thorough else ("-O1", "-O2", "-O3"):
            for extra in ((), ("-flto",)) if ctx.thorough and cxx == "g++" else ((),):
                n = f"dying{cxx}{o}{''.join(extra)}"
                dying[n] = None
                jobs.append(dict(src=os.path.join(vf.HARN, "bytes_dying.cpp"), out=ctx.path(n), cxx=cxx, flags=(o, *extra)))
    ctx.build_all(jobs)
    lines, origin, seen = [], [], set()

    def take(text, n):
        for ln in text.splitlines():
            if ln not in seen:
                seen.add(ln)
                lines.append(ln)
                origin.append(n)
    for n in builds:
        o = ctx.path(n + ".out")
        ctx.run([ctx.path(n), sp, o], timeout=600)
        take(open(o).read(), n)
    for n in builds if ctx.thorough else ("gcc-O2",):
        o = ctx.path(n + "-huge.out")
        ctx.run([ctx.path(n), ctx.path("huge.txt"), o], timeout=300)
        take(open(o).read(), n)
    controls = 0
    for n in dying:
        t = ctx.run([ctx.path(n)], timeout=300).stdout
        evs = json.loads(t)["ev"]
        controls += sum(1 for e in evs if not e["s"] and e["d"])
        ctx.add("dying_buffers", sum(1 for e in evs if e["s"]))
        take(t, n)
    if not controls:
        raise Machinery("the search for residues finds nothing even in buffers that were not wiped")
    ctx.cov["unwiped_controls_found"] = controls
    ctx.cov["compile_time_cases"] = 2 * (len(ct) + nbig) * len(builds)
    p = ctx.path("traces.ndjson")
    with open(p, "w") as f:
        f.write("\n".join(lines) + "\n")
    r = ctx.tlc("BytesTrace", "SPECIFICATION TraceSpec\n", env={"TRACES": p}, deadlock=True, timeout=800)
    if not r.complete:
        if not any("Deadlock reached" in e for e in r.errors):
            raise Machinery("trace validation failed to run:\n" + r.tail())
        t, l = int(r.last_state("tid")) - 1, int(r.last_state("l")) - 1
        ev = json.loads(lines[t])["ev"]
        last = t == len(lines) - 1
        raise Violation(f"recorded operation is not a behaviour of Bytes (build {origin[t]}): event {l + 1}",
                        {"before": ev[l - 1] if l else None, "rejected": ev[l]})
    ctx.add("states", r.distinct)
    ctx.add("transitions", r.generated)
    ctx.add("traces_validated_against_impl", len(lines))
    ctx.sample({"trace_prefix": json.loads(lines[0])["ev"][:4]})
    ctx.assumptions += ["memcpy is only used on disjoint ranges", "wiping is observed on thread stacks after return"]


CHECKS = {"C09": check}
