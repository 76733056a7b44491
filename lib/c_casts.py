"""C26, C29: fill test, casts, shifts and sequences against spec/Fill.tla,
spec/Words.tla and spec/Seq.tla."""
import json, os
import vf, ct, num
from num import word
from c_words import ask, UNSIGNED, SIGNED
from vf import Violation, Machinery


def c26(ctx):
    r = ctx.model("Fill", f"SPECIFICATION Spec\nCONSTANT Long = {80 if ctx.thorough else 26}\nINVARIANTS Parts Scales\nACTION_CONSTRAINT Emit\n")
    rows = sorted(((e["b"], e["v"], int(e["r"])) for e in r.printed("E|")))
    fn = ctx.path("blocks")
    with open(fn, "w") as f:
        for b, v, _ in rows:
            f.write(f"{len(b)} {v} {' '.join(map(str, b))}\n")
        # the same with 36 864 bytes, and with 2^31+4096 bytes, for each byte
        short = [r for r in rows if 0 < len(r[0]) <= 3]
        mid = [r for r in short if r[0][0] == r[1]]
        last = [r for r in mid if len(set(r[0][:-1])) == 1]
        huge = ctx.rng.sample([r for r in last if len(r[0]) == 2], 6) + [r for r in last if len(r[0]) == 1][:2] + ctx.rng.sample([r for r in last if len(r[0]) == 3], 3)
        for base, some in ((1000000, short), (2000000, huge if not ctx.thorough else last)):
            for b, v, w in some:
                f.write(f"{base + len(b)} {v} {' '.join(map(str, b))}\n")
                rows.append((b + ["times", base], v, w))
        for n in (0, 1, 5, 100):
            f.write(f"{-n - 1} 0\n")
            rows.append((["null"] * 1, n, 0))
    builds = [("g++", "-O0"), ("g++", "-O2"), ("clang++", "-O2"), ("clang++", "-O1")]
    ctx.build_all([dict(src=os.path.join(vf.HARN, "fill.cpp"), out=ctx.path(f"fill{i}"), cxx=c, flags=(o,)) for i, (c, o) in enumerate(builds)])
    for i, (c, o) in enumerate(builds):
        import subprocess
        p = subprocess.run([ctx.path(f"fill{i}"), fn], capture_output=True, text=True, timeout=600)
        if p.returncode < 0:
            at = int(p.stderr.split()[-1]) - 1
            raise Violation(f"fill test: memory outside the block is read, or the program ends (signal {-p.returncode})", {"block": rows[at][0], "value": rows[at][1], "build": f"{c} {o}"})
        got = p.stdout.split()
        if p.returncode or len(got) != len(rows):
            raise Machinery(f"fill harness: {p.returncode} {p.stderr[-300:]}")
        for (b, v, w), g in zip(rows, got):
            if g != str(w):
                raise Violation("fill test: the specification and the code disagree", {"block": b, "value": v, "specified": w, "found": g, "build": f"{c} {o}"})
        ctx.add("traces_validated_against_impl", len(rows) * 20)
    ctx.note(f"{len(rows)} blocks")
    ctx.sample({"block": rows[100][0], "value": rows[100][1], "filled": rows[100][2]})


def c29(ctx):
    q = [(w, "shift") for w in (8, 16, 32, 64)]
    ans = ask(ctx, q, 2000 if ctx.thorough else 120)
    ct_n = 40000 if ctx.thorough else 1500
    groups = []
    sx = lambda v, w: v - 2 ** w if v >> (w - 1) else v
    for w in (8, 16, 32, 64):
        rows = [(word(r[0]), n, word(x[0]), word(x[1]), word(x[2]), x[3]) for r in ans[(w, "shift")] for n, x in enumerate(r[1])]
        for T in UNSIGNED[w]:
            groups.append(dict(name=f"shifts of {T}", rows=[((b, n), (l, lr, l, lr)) for b, n, l, lr, ar, e in rows], ct=ct_n,
                               code=f"auto v = static_cast<{T}>(x.a[0]); const auto c = v; static_assert(std::is_same_v<std::decay_t<decltype(utils::shift_left(v, 1))>, {T}> && std::is_same_v<std::decay_t<decltype(utils::shift_right(c, 1))>, {T}>);"
                                    f"return {{{{U64(utils::shift_left(v, x.a[1])), U64(utils::shift_right(c, x.a[1])), U64(utils::shift_left(static_cast<{T}>(c), x.a[1])), U64(utils::shift_right(static_cast<const {T} &&>(c), x.a[1]))}}}};"))
        for T in SIGNED[w]:
            code = f"auto v = static_cast<{T}>(x.a[0]); const auto c = v; static_assert(std::is_same_v<std::decay_t<decltype(utils::shift_left(v, 1))>, {T}> && std::is_same_v<std::decay_t<decltype(utils::shift_right(c, 1))>, {T}>);"
            groups.append(dict(name=f"right shifts of {T}", rows=[((b, n), (sx(ar, w), sx(ar, w))) for b, n, l, lr, ar, e in rows], ct=ct_n, code=code + "return {{U64(utils::shift_right(c, x.a[1])), U64(utils::shift_right(std::move(v), x.a[1]))}};"))
            both = lambda k: [((b, n), (sx(l, w), sx(l, w))) for b, n, l, lr, ar, e in rows if k(b, e)]
            ret = code + "return {{U64(utils::shift_left(c, x.a[1])), U64(utils::shift_left(std::move(v), x.a[1]))}};"
            groups.append(dict(name=f"left shifts of {T}", rows=both(lambda b, e: not b >> (w - 1) and (e or w < 32)), ct=ct_n, code=ret))
            groups.append(dict(name=f"left shifts of negative {T}", rows=both(lambda b, e: b >> (w - 1) and (e or w < 32)), code=ret))
        # casts
        ws = sorted({b for b, *_ in rows})
        kinds = {8: ["unsigned char", "signed char", "std::byte", "C1", "char"], 16: ["unsigned short", "short", "std::array<unsigned char, 2>", "C2", "char16_t"], 32: ["unsigned", "int", "float", "C4", "std::array<short, 2>", "wchar_t", "O4"],
                 64: ["unsigned long", "long long", "double", "void *", "C8", "std::array<unsigned char, 8>", "E8"]}[w]
        for A in kinds:
            for B in kinds:
                groups.append(dict(name=f"bit_cast<{A}, {B}>", rows=[((b,), (b, b)) for b in ws],
                                   code=f"{A} a; std::memcpy(std::addressof(a), x.a, sizeof a); auto b = utils::bit_cast<{B}>(a); static_assert(std::is_same_v<decltype(b), {B}>); auto c = utils::bit_cast<{A}>(b);"
                                        "Res<2> r{}; std::memcpy(&r.v[0], std::addressof(b), sizeof b); std::memcpy(&r.v[1], std::addressof(c), sizeof c); return r;"))
        for T, s in [(t, False) for t in UNSIGNED[w]] + [(t, True) for t in SIGNED[w]]:
            if T in ("char16_t", "char32_t", "wchar_t"):
                continue
            i = len(groups)
            groups.append(dict(name=f"to_underlying over {T}", rows=[((b,), (sx(b, w) if s else b,) * 2) for b in ws], ct=500, decl=f"enum class X{i} : {T} {{}}; enum Y{i} : {T} {{}};",
                               code=f"auto a = utils::to_underlying(static_cast<X{i}>(static_cast<{T}>(x.a[0]))); auto b = utils::to_underlying(static_cast<Y{i}>(static_cast<{T}>(x.a[0])));"
                                    f"static_assert(std::is_same_v<decltype(a), {T}> && std::is_same_v<decltype(b), {T}>); return {{{{U64(a), U64(b)}}}};"))
    num.run(ctx, "casts", "#include <utils/common.h>\nstruct C1 { unsigned char a; }; struct C2 { char a; unsigned char b; }; struct C4 { short a; char b, c; }; struct C8 { float a; short b; char c[2]; }; enum class E8 : long {}; static int gElse[4]; struct O4 { int v; O4 *operator&() { return reinterpret_cast<O4 *>(gElse); } const O4 *operator&() const { return reinterpret_cast<const O4 *>(gElse); } };", groups)
    ctx.note(f"{sum(len(g['rows']) for g in groups)} values asked of {len(groups)} functions")
    r = ctx.model("Seq", "SPECIFICATION Spec\nINVARIANT Back\nACTION_CONSTRAINT Emit\n")
    cases = []
    TY = {"int": (-2 ** 31, 2 ** 31 - 1), "std::size_t": (0, 2 ** 64 - 1), "signed char": (-128, 127), "unsigned char": (0, 255), "long": (-2 ** 63, 2 ** 63 - 1), "unsigned": (0, 2 ** 32 - 1), "short": (-2 ** 15, 2 ** 15 - 1)}
    seen = set()
    for e in sorted(r.printed("E|"), key=json.dumps):
        if json.dumps(e) in seen:
            continue
        seen.add(json.dumps(e))
        for T, (lo, hi) in TY.items():
            if all(lo <= v <= hi for v in e["s"] + e["r"]):
                N = f"{e['n']}" if lo < 0 or e["n"] < 0 else f"{e['n']}u"
                if lo == 0 and e["n"] < 0:
                    continue
                S = lambda v: f"std::integer_sequence<{T}" + "".join(f", {x}" for x in v) + ">"
                f = lambda v: f"long(std::is_same_v<{v}, {S(e['r'])}>)"
                cases.append(dict(code=f"{f('utils::shifted_sequence_t<' + S(e['s']) + ', ' + N + '>')}, {f('typename utils::shifted_sequence<' + S(e['s']) + ', ' + N + '>::type')}", want=[1, 1], what=f"{S(e['s'])} moved by {N}"))
    ct.run_cases(ctx, "moved", "#include <utils/common.h>\n", cases)


CHECKS = {"C26": c26, "C29": c29}
