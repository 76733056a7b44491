"""C30: conditional aborts against spec/Abort.tla."""
import json, os, re
from concurrent.futures import ThreadPoolExecutor
import vf
from vf import Machinery, Violation

FILES = ["dir/file one.cpp", "a.h", "/x/deep/er/thing.hpp", "100%d%s.cpp", "back\\\\slash.cpp"]


def cstr(s):
    return '"' + "".join(c if 32 <= ord(c) < 127 and c not in '"\\?' else f"\\{ord(c):03o}" for c in s) + '"'


def piece(rng):
    k = rng.choice(["lit", "lit", "int", "str", "pct", "uns", "chr", "flt", "wid"])
    if k == "lit":
        return dict(k=k, s="".join(rng.choice("ab C:\n\t\"'\\x9") for _ in range(rng.choice([1, 3, 40, 5000 if rng.random() < .1 else 7]))))
    v = {"int": lambda: str(rng.choice([0, -1, 2**31 - 1, -2**31, 77])), "uns": lambda: str(rng.choice([0, 2**64 - 1, 12])),
         "str": lambda: rng.choice(["", "%s%n", "word", "long " * 900]), "pct": lambda: "%", "chr": lambda: rng.choice("a%Z"),
         "flt": lambda: rng.choice(["0.50", "-12.25", "1000000.00"]), "wid": lambda: rng.choice(["   42", "   -7"])}[k]()
    return dict(k=k, s=v)


def stmt(rng):
    f = rng.choice(["call", "bare", "macro", "debug"])
    return dict(form=f, cond=rng.random() < .3, msg=[] if f == "bare" else [piece(rng) for _ in range(rng.randint(0, 6))])


def code(i, s, variant):
    fmt, args = "", []
    for p in s["msg"]:
        t = p["s"]
        if p["k"] == "lit":
            fmt += t
        elif p["k"] == "pct":
            fmt += "%%"
        elif p["k"] in ("int", "wid"):
            fmt += "%d" if p["k"] == "int" else "%*d"
            if p["k"] == "wid":
                args.append("5")
            args.append(f"arg({i}, int({int(t)}LL))")
        elif p["k"] == "uns":
            fmt += "%llu"
            args.append(f"arg({i}, {t}ULL)")
        elif p["k"] == "str":
            fmt += "%s"
            args.append(f"arg({i}, static_cast<const char *>({cstr(t)}))")
        elif p["k"] == "chr":
            fmt += "%c"
            args.append(f"arg({i}, int({cstr(t)}[0]))")
        elif p["k"] == "flt":
            fmt += "%.2f"
            args.append(f"arg({i}, {t})")
    c = [["false", "0", "static_cast<const char *>(nullptr)", "No()", "0.0"], ["true", "256", "static_cast<const char *>(\"\")", "Yes()", "0.25"]][s["cond"]][variant % 5]
    name = {"call": "utils::abort_if", "bare": "utils::abort_if", "macro": "UTILS_ABORT_IF", "debug": "UTILS_DEBUG_ABORT_IF"}[s["form"]]
    a = [f"cnd({i}, {c})"]
    if s["form"] == "bare":
        if variant % 2:
            a.append("nullptr")
    elif fmt or args or variant % 3 or s["form"] == "call":
        a.append(cstr(fmt))
    return f"{name}({', '.join(a + args)});"


def check(ctx):
    fn = ctx.path("more.ndjson")
    with open(fn, "w") as f:
        for _ in range(600 if ctx.thorough else 60):
            f.write(json.dumps([stmt(ctx.rng) for _ in range(ctx.rng.randint(1, 12))]) + "\n")
    r = ctx.model("Abort", f"SPECIFICATION Spec\nCONSTANTS N = {3 if ctx.thorough else 2}\nINVARIANTS Exactly First Once Silent Emit\nPROPERTY Terminates\n", env={"MORE": fn})
    seen, ends = set(), []
    for e in sorted(r.printed("E|"), key=json.dumps):
        k = json.dumps([e["prog"], e["release"]])
        if k not in seen:
            seen.add(k)
            ends.append(e)
    by = {}
    for e in ends:
        by.setdefault(json.dumps(e["prog"]), {})[e["release"]] = e
    progs = sorted(by)
    if not ctx.thorough and len(progs) > 600:
        progs = progs[:0] + ctx.rng.sample(progs, 600)
    lines, meta = [], []
    for k, pk in enumerate(progs):
        prog, kind, file = json.loads(pk), k % 4, FILES[k // 4 % len(FILES)]
        head = {0: f"static void spot_{k}() {{", 1: f"template <typename T> static void spot_{k}() {{",
                2: f"struct Obj_{k} {{ int z = 0; void spot_{k}() const {{", 3: f"static void spot_{k}() {{ auto l = [](int) {{"}[kind]
        lines.append(head)
        nums = []
        for i, s in enumerate(prog):
            n = 100000 + (k * 16 + i) * 7
            nums.append(n)
            lines.append(f'#line {n} "{file}"')
            # within an if without braces: a statement, whatever it expands to
            lines.append(code(i, s, k + i) if (k + i) % 4 else f"if (gS) {code(i, s, k + i)} else gS = nullptr;")
        lines.append({0: "}", 1: "}", 2: "} };", 3: "}; l(1); }"}[kind])
        run = {0: f"spot_{k}", 1: f"spot_{k}<int>", 2: f"[] {{ Obj_{k}{{}}.spot_{k}(); }}", 3: f"spot_{k}"}[kind]
        meta.append((run, nums, file.replace("\\\\", "\\")))
    builds = [(cxx, nd, opt) for cxx in ("g++", "clang++") for nd in (False, True) for opt in (["-O0", "-O2"] if ctx.thorough else ["-O0"] if cxx == "g++" else ["-O2"])]

    def job(b):
        cxx, nd, opt = b
        tag = f"{cxx[0]}{int(nd)}{opt[1:]}"
        src = ctx.path(f"abort_{tag}.cpp")
        with open(src, "w") as f:
            f.write('#include "abort.h"\n' + "\n".join(lines) + "\nstatic const Case cases[] = {" + ",".join(f"{{{k},{m[0]}}}" for k, m in enumerate(meta)) + "};\nint main() { return run_cases(cases, sizeof cases / sizeof *cases); }\n")
        exe = ctx.build(src=src, out=src[:-4], cxx=cxx, flags=(opt,), defs=("NDEBUG",) if nd else (), stub=True)
        rows = ctx.run_code(exe, "abort " + tag).splitlines()
        if len(rows) != len(progs):
            raise Machinery("cases lost")
        for ln in rows:
            v = ln.split()
            k, sig, code_, extra = map(int, v[:4])
            conds, args = [int(x) for x in v[4:20]], [int(x) for x in v[20:36]]
            err, out = (bytes.fromhex(x[1:]).decode("latin1") for x in v[36:38])
            e = by[progs[k]][nd]
            n = len(e["prog"])
            bad = None
            ended = "aborted" if sig == 6 and code_ == -1 and extra == 0 else "ended" if sig == 0 and code_ == 0 and extra == 0 else f"otherwise (signal {sig}, exit code {code_}, marks {extra})"
            if ended != e["status"]:
                bad = f"the program should have {e['status']} and {ended}"
            elif conds[:n] != e["conds"] or any(conds[n:]):
                bad = f"conditions evaluated {conds[:n]} times, not {e['conds']}"
            elif out:
                bad = "something was written to standard output"
            elif e["status"] == "ended":
                if err:
                    bad = "something was written to standard error without an abort"
                elif nd and any(args[i] for i in range(n) if e["prog"][i]["form"] == "debug"):
                    bad = "a disabled debug abort evaluated its arguments"
            else:
                at = e["at"] - 1
                if nd and any(args[i] for i in range(at) if e["prog"][i]["form"] == "debug"):
                    bad = "a disabled debug abort evaluated its arguments"
                elif args[at] != e["args"][at]:
                    bad = f"arguments evaluated {args[at]} times, there are {e['args'][at]}"
                elif not e["where"]:
                    if err != e["err"]:
                        bad = "the message is not the formatted message"
                else:
                    place = err[:len(err) - len(e["err"])]
                    if not err.endswith(e["err"]):
                        bad = "the message does not end with the formatted message"
                    elif meta[k][2] not in place:
                        bad = "the message does not name the file"
                    elif not re.search(rf"\b{meta[k][1][at]}\b", place):
                        bad = "the message does not name the line"
                    elif f"spot_{k}" not in place:
                        bad = "the message does not name the function"
                    elif len(place) > 2000 or err.count(e["err"]) > 1 and len(e["err"]) > 12:
                        bad = "the message holds more than the location and the formatted message"
            if bad:
                return tag, len(rows), dict(why=bad, build=f"{cxx} {opt}{' -DNDEBUG' if nd else ''}", program=[code(i, s, k + i)[:400] for i, s in enumerate(e["prog"])],
                                            specified={x: e[x] for x in ("status", "at", "conds", "args", "where")} | {"err": e["err"][:600]}, found=dict(end=ended, conds=conds[:n], args=args[:n], err=err[:1500], out=out[:300]),
                                            file=meta[k][2], lines=meta[k][1])
        return tag, len(rows), None

    with ThreadPoolExecutor(4) as ex:
        res = list(ex.map(job, builds))
    for tag, n, bad in res:
        ctx.add("traces_validated_against_impl", n)
        if bad:
            raise Violation("the specification and the code disagree: " + bad["why"], bad)
    ctx.note(f"{len(progs)} programs in {len(builds)} builds")
    ctx.sample({"program": json.loads(progs[5]), "ends": by[progs[5]]})


CHECKS = {"C30": check}
