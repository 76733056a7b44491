"""C20: padding against spec/Layout.tla."""
import json
import vf, ct
from vf import Machinery

SC = {1: ["char", "bool", "unsigned char", "std::byte", "E1"], 2: ["short", "char16_t", "E2"], 4: ["int", "float", "unsigned", "wchar_t", "E4"],
      8: ["double", "long", "void *", "int S0::*", "E8", "void (*)()"], 16: ["long double"], (16, 8): ["void (S0::*)()", "int (S0::*)(char) const"]}
PRE = """
#include <utils/padding_checker.h>
enum E1 : char {}; enum class E2 : short {}; enum E4 {}; enum class E8 : long long {}; struct S0 { int i; void f(); };
struct Copies { char c; Copies(const Copies &); }; struct Moves { int i; Moves(Moves &&); }; struct Dies { int i; ~Dies(); }; struct Virt { virtual void f(); };
struct Assigns { int i; Assigns &operator=(const Assigns &); };
"""


def scalar(s, a=None):
    return dict(k="scalar", s=s, a=a or s, m=[])


def random_type(ctx, depth):
    r = ctx.rng.random()
    if depth == 0 or r < 0.45:
        return scalar(*ctx.rng.choice([(1,), (1,), (2,), (2,), (4,), (4,), (8,), (16,), (16, 8)]))
    if r < 0.6:
        return dict(k="array", s=ctx.rng.choice([1, 2, 3, 5]), a=1, m=[random_type(ctx, depth - 1)])
    return struct(ctx, depth)


def struct(ctx, depth):
    n = ctx.rng.choice([0, 1, 2, 2, 3, 3, 4, 5, 7])
    return dict(k="struct", s=0, a=ctx.rng.choice([1, 1, 1, 1, 1, 4, 16]), m=[random_type(ctx, depth - 1) if ctx.rng.random() < .96 else scalar(*ctx.rng.choice([(1, 2), (1, 8), (4, 8), (2, 16), (8, 16)])) for _ in range(n)])


def check(ctx):
    fn = ctx.path("types.ndjson")
    with open(fn, "w") as f:
        for i in range(2500 if ctx.thorough else 250):
            t = struct(ctx, ctx.rng.choice([1, 2, 2, 3, 4]))
            f.write(json.dumps(t) + "\n")
        for n in (20, 40, 90):     # many members
            for x in range(3):
                m = [scalar(4) for _ in range(n)]
                if x:
                    m[ctx.rng.randrange(n)] = scalar(x)
                f.write(json.dumps(dict(k="struct", s=0, a=1, m=m)) + "\n")
    r = ctx.model("LayoutMC", "SPECIFICATION Spec\nINVARIANT Sane\nACTION_CONSTRAINT Emit\n", env={"TYPES": fn})
    cases = []

    def cpp(t, decls, ids):
        if t["k"] == "scalar":
            if t["a"] > t["s"]:     # members asking for more alignment
                return f"alignas({t['a']}) " + ctx.rng.choice(SC[t["s"]][:3])
            return ctx.rng.choice(SC[t["s"] if t["a"] == t["s"] else (t["s"], t["a"])])
        if t["k"] == "array":
            return f"std::array<{cpp(t['m'][0], decls, ids)}, {t['s']}>"
        m = [cpp(x, decls, ids) for x in t["m"]]
        ids.append(0)
        name = f"T{len(cases)}_{len(ids)}"
        al = "" if t["a"] == 1 else f"alignas({max(t['a'], t['al'])}) "
        body, defaults = [], ctx.rng.random() < .2    # members with initializers
        for i, x in enumerate(m):
            body.append(f"{x} m{i}{'{}' if defaults else ''};" if not x.startswith(("void (", "int S0", "int (S0")) else {"void (*)()": f"void (*m{i})();", "void (S0::*)()": f"void (S0::*m{i})();", "int (S0::*)(char) const": f"int (S0::*m{i})(char) const;", "int S0::*": f"int S0::*m{i};"}[x])
        decls.append(f"struct {al}{name} {{ {' '.join(body)} }};")
        return name

    def align(t):
        if t["k"] == "scalar":
            return t["a"]
        if t["k"] == "array":
            v = align(t["m"][0])
            return v if t["s"] else 1
        t["al"] = max([t["a"], 1] + [align(x) for x in t["m"]])
        return t["al"]

    for e in sorted(r.printed("E|"), key=json.dumps):
        t = e["t"]
        align(t)
        decls, ids = [], []
        T = cpp(t, decls, ids)
        cases.append(dict(decl=" ".join(decls), code=f"long(sizeof({T})), long(alignof({T})), long(utils::has_padding_v<{T}>), long(utils::has_padding<{T}>::value), long(utils::has_padding_v<const {T}>)" if T[-1] not in ")*t" else
                          f"long(sizeof({T})), long(alignof({T})), long(utils::has_padding_v<{T}>), long(utils::has_padding<{T}>::value), 0l",
                          want=[e["s"], e["a"], int(e["p"]), int(e["p"]), int(e["p"])], what=f"{' '.join(decls)} {T}"))
    for T in ("Copies", "Moves", "Dies", "Virt", "std::string", "std::vector<int>", "std::unique_ptr<int>", "Assigns"):
        cases.append(dict(code=f"long(utils::has_padding_v<{T}>), long(utils::has_padding<{T}>::value)", want=[1, 1], what=T))
    # a member that is not trivially copyable
    cases.append(dict(decl="struct Ntc { int i; Dies d; };", code="long(utils::has_padding_v<Ntc>)", want=[1], what="aggregate not trivially copyable"))
    ct.run_cases(ctx, "padding", PRE, cases, split=not ctx.thorough)
    ctx.note(f"{len(cases)} types")
    ctx.sample({"type": cases[100]["what"], "padded": cases[100]["want"][2]})


CHECKS = {"C20": check}
