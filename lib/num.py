"""Functions of numbers: answers computed by TLC against the real functions,
evaluated in constant expressions and at run time."""
import os
from concurrent.futures import ThreadPoolExecutor
import vf
from vf import Violation, Machinery


def word(limbs):
    return sum(x << (16 * i) for i, x in enumerate(limbs))


def run(ctx, tag, prelude, groups, compilers=("g++", "clang++"), opts=("-O1",)):
    """groups: dicts
         name   for reports
         code   body of a function taking (const In<K> &x), returning Res<R>
         rows   list of (inputs, outputs)
         ct     also evaluate in constant expressions (at most that many rows)
         decl   optional declarations
         only   optional compiler
    """
    os.makedirs(ctx.path(tag), exist_ok=True)
    groups = [g for g in groups if g["rows"]]
    jobs = []
    for cxx in compilers:
        mine = [i for i, g in enumerate(groups) if g.get("only", cxx) == cxx]
        mine.sort(key=lambda i: -len(groups[i]["rows"]))
        n = max(1, min(vf.CPUS // len(compilers), len(mine)))
        for c in range(n):
            if mine[c::n]:
                jobs.append((cxx, c, mine[c::n]))

    def one(job):
        cxx, c, part = job
        src = ctx.path(tag, f"{cxx[0]}{c}.cpp")
        with open(src, "w") as f:
            f.write('#include "num.h"\n' + prelude + "\n")
            main = []
            for i in part:
                g = groups[i]
                rows = g["rows"]
                K, R = len(rows[0][0]), len(rows[0][1])
                f.write(g.get("decl", "") + "\n")
                f.write(f"// {g['name']}\nconstexpr In<{K}> in{i}[] = {{" + ",".join("{{" + ",".join(f"{v & (2**64 - 1)}ull" for v in a) + "}}" for a, _ in rows) + "};\n")
                f.write(f"const Res<{R}> want{i}[] = {{" + ",".join("{{" + ",".join(f"{v & (2**64 - 1)}ull" for v in b) + "}}" for _, b in rows) + "};\n")
                ct = min(g.get("ct", 0), len(rows))
                f.write(f"static {'constexpr ' if ct else ''}Res<{R}> f{i}(const In<{K}> &x) {{ {g['code']} }}\n")
                main.append(f"rt_check({i}, f{i}, in{i}, want{i});")
                if ct:
                    step = (len(rows) + ct - 1) // ct
                    if step > 1:
                        sub = rows[ctx.seed % step::step]
                        f.write(f"constexpr In<{K}> cin{i}[] = {{" + ",".join("{{" + ",".join(f"{v & (2**64 - 1)}ull" for v in a) + "}}" for a, _ in sub) + "};\n")
                        f.write(f"const Res<{R}> cwant{i}[] = {{" + ",".join("{{" + ",".join(f"{v & (2**64 - 1)}ull" for v in b) + "}}" for _, b in sub) + "};\n")
                        g["sub"] = sub
                    p = "c" if step > 1 else ""
                    f.write(f"constexpr auto ct{i} = ct_table([](const auto &x) {{ return f{i}(x); }}, {p}in{i});\n")
                    main.append(f"ct_check({i}, ct{i}, {p}want{i});")
            f.write("int main() {\n" + "\n".join(main) + "\n}\n")
        exe = src[:-4]
        flags = ("-fconstexpr-ops-limit=4000000000", "-fconstexpr-loop-limit=100000000") if cxx == "g++" else ("-fconstexpr-steps=2000000000",)
        ctx.build(src=src, out=exe, cxx=cxx, flags=(*opts, *flags), stub=True)
        out = ctx.run_code(exe, tag).splitlines()
        os.remove(exe)
        return cxx, part, out

    with ThreadPoolExecutor(vf.CPUS) as ex:
        res = list(ex.map(one, jobs))
    for cxx, part, out in res:
        if sum(ln.startswith("G ") for ln in out) != len(part):
            raise Machinery("groups lost")
        for ln in out:
            w = ln.split()
            if w[0] in "GC":
                ctx.add("traces_validated_against_impl", int(w[2]))
            elif w[0] == "D":
                g = groups[int(w[1])]
                rows = g.get("sub", g["rows"]) if w[2] == "compile" else g["rows"]
                a, b = rows[int(w[3])]
                raise Violation(f"{g['name']}: the specification and the code disagree ({w[2]} time, {cxx})",
                                {"input": a, "specified": b, "found": [int(v) for v in w[4:]], "code": g["code"].strip()})
            else:
                raise Machinery("unexpected output: " + ln)
