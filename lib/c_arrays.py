"""C23: array builders against spec/Arrays.tla and spec/Prefix.tla."""
import json
import vf, ct, num
from vf import Machinery

PRE = """
#include <utils/common.h>
using utils::make_array; using utils::concatenate_arrays;
struct Bo { int v = 0; Bo() = default; Bo(int i) : v(i) {} Bo(const Bo &o) : v(o.v) {} Bo(Bo &&o) noexcept : v(o.v) { o.v = -1; }
    Bo &operator=(const Bo &o) { v = o.v; return *this; } Bo &operator=(Bo &&o) noexcept { int t = o.v; o.v = -1; v = t; return *this; } };
struct Cp { int v = 0; Cp() = default; Cp(int i) : v(i) {} Cp(const Cp &o) : v(o.v) {} Cp &operator=(const Cp &o) { v = o.v; return *this; } };
struct Mv { int v = 0; Mv() = default; Mv(int i) : v(i) {} Mv(Mv &&o) noexcept : v(o.v) { o.v = -1; } Mv &operator=(Mv &&o) noexcept { int t = o.v; o.v = -1; v = t; return *this; } };
struct Tr { int v; };
template <typename T, typename... R> struct Pack { static constexpr std::size_t n = 1; };
inline long num_of(int i) { return i; }
template <typename T> auto num_of(const T &t) -> decltype(long(t.v)) { return t.v; }
inline long num_of(const std::string &s) { return s.size() == 40 ? std::stol(s) : s.empty() ? 0 : -99; }
inline long num_of(const std::vector<int> &v) { return v.empty() ? 0 : v.size() == 3 && v[1] == v[0] && v[2] == v[0] ? v[0] : -99; }
inline long num_of(const std::array<int, 2> &v) { return v[0] == v[1] ? v[0] : -99; }
inline long num_of(const std::pair<int, long> &v) { return v.first == v.second ? v.first : -99; }
inline long num_of(const std::unique_ptr<int> &p) { return p ? *p : 0; }
template <typename T> T mk(int i) { return T(i); }
template <> Tr mk<Tr>(int i) { return Tr{i}; }
template <> std::string mk<std::string>(int i) { std::string s = std::to_string(i); return s + std::string(40 - s.size(), ' '); }
template <> std::vector<int> mk<std::vector<int>>(int i) { return std::vector<int>(3, i); }
template <> std::array<int, 2> mk<std::array<int, 2>>(int i) { return {i, i}; }
template <> std::pair<int, long> mk<std::pair<int, long>>(int i) { return {i, i}; }
"""
CPP = dict(i8="std::int8_t", u8="std::uint8_t", i16="std::int16_t", u16="std::uint16_t", i32="std::int32_t", i64="std::int64_t", u32="std::uint32_t", u64="std::uint64_t", f32="float", f64="double")
LIM = dict(i8=(-128, 127), u8=(0, 255), i16=(-32768, 32767), u16=(0, 65535), i32=(-2**31, 2**31 - 1))
VALS = dict(i8=[-128, 127, -1], u8=[255, 128, 3], i16=[-32768, 32767, -200], u16=[65535, 200, 40000], i32=[-2**31, 2**31 - 1, 70000], i64=[-2**62 - 1, 2**40 + 1, 5], f32=[6, -2, 1], f64=[1, -7, 10])


def extra(rng, n):
    for _ in range(n):
        k = rng.choice(["args", "mixed", "lead", "lead", "pick", "range", "range", "values", "concat", "concat"])
        if k == "args":
            yield dict(kind=k, els=[rng.randint(1, 4) for _ in range(rng.choice([4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 17, 20, 33, 40]))])
        elif k == "mixed":
            yield dict(kind=k, els=[rng.choice(["i8", "u8", "i16", "u16", "i32", "i64"]) for _ in range(rng.choice([3, 4, 5, 6, 7, 7, 12, 18, 33]))])
        elif k == "lead":
            c = rng.choice(["char", "char", "char16_t", "wchar_t"])
            lo, hi = (-128, 127) if c == "char" else (0, 65535) if c == "char16_t" else (-70000, 70000)
            v = [rng.randint(lo, hi) for _ in range(rng.choice([rng.randint(0, 20)] * 4 + [33, 65, 129, 257]))]
            yield dict(kind=k, view=v, n=rng.choice([rng.randint(0, len(v)), len(v)]), to=rng.choice(["i8", "u8", "i16", "u16", "i32"]), cht=c)
        elif k == "pick":
            v = [rng.randint(-128, 127) for _ in range(rng.randint(1, 20))]
            yield dict(kind=k, view=v, els=[rng.randrange(len(v)) for _ in range(rng.choice([*range(10), 16, 17, 33, 65]))])
        elif k in ("range", "values"):
            t = rng.choice(list(LIM))
            lo, hi = LIM[t]
            st = rng.choice([1, 1, 2, 3, 7, 50]) if k == "range" else 1
            w = rng.choice([0, 1, 2, 5, 60, 255])
            if hi - lo <= 255:
                b, e = rng.choice([(lo, hi), (lo, lo + w), (hi - w, hi), tuple(sorted((rng.randint(lo, hi), rng.randint(lo, hi))))])
            else:
                b = rng.choice([lo + st, hi - w, rng.randint(-1000, 1000) if lo < 0 else rng.randint(0, 2000)])
                e = b + w
            yield dict(kind=k, ty=t, step=st, **{"from": b, "to": e})
        else:
            via = rng.choice([1, 2, 3, 4, 5, 5, 5, 5])  # all alike, so that arrays that can only be moved are joined as well
            yield dict(kind=k, els=[dict(n=rng.randint(0, rng.choice([3, 9])), via=via if via < 5 else rng.randint(1, 4)) for _ in range(rng.choice([2, 3, 4, 5, 6, 6, 10, 17]))])
    for n in (3, 4, 7):
        yield dict(kind="concat", els=[dict(n=1 + i % 2, via=3) for i in range(n)])
    for t, b, e in [("u8", 250, 255), ("u8", 0, 255), ("i8", -128, 127), ("i8", 100, 127), ("i32", 2**31 - 4, 2**31 - 1), ("i32", 2**31 - 2, 2**31 - 1), ("i16", 32766, 32767), ("u16", 65534, 65535)]:
        for s in (1, 3, 7):
            yield dict(kind="range", ty=t, step=s, **{"from": b, "to": e})
        yield dict(kind="values", ty=t, step=1, **{"from": b, "to": e})


    # wider than the type of their bounds can express
    for t, b, e, s in [("i32", -2 * 10**9, 2 * 10**9, 10**9), ("i32", -2**31 + 1, 2**31 - 1, 2**31 - 1), ("i32", -2**31 + 1, 2**31 - 1, 2**31 - 2), ("i32", -2**30 - 1, 2**30, 2**27), ("i32", -1, 2**31 - 1, 2**30),
                       ("i32", -2**31 + 1, 0, 2**29), ("i16", -32768, 32767, 4096), ("i16", -32768, 32767, 32767), ("i8", -128, 127, 100), ("u16", 0, 65535, 9999)]:
        yield dict(kind="range", ty=t, step=s, **{"from": b, "to": e})


def expr(name, via):
    return f"std::move({name})" if via > 2 else name


def const(via):
    return "const " if via in (2, 4) else ""


def lit(v, t):
    return f"static_cast<{CPP[t]}>({v}LL)" if v > -2**31 else f"static_cast<{CPP[t]}>({v + 1}LL - 1)"


def run(c, e):
    """A case: a function making the array and listing what it holds."""
    q, out, keep = e["req"], e["out"], e["keep"]
    k = q["kind"]
    cases = []

    def put(body, want, what, const_=False, ret="a"):
        j = len(cases)
        cases.append(dict(decl=f"static const long *h{c}_{j}() {{ static long r[300]; {body} return r; }}", ptr=f"h{c}_{j}()", want=want, what=what))
    LIST = "for (const auto &x : a) r[++r[0]] = num_of(x); "
    if k == "args":
        types = ["Bo", "Cp", "int", "Tr", "std::string"] + (["Mv"] * 2 if all(x == 3 for x in q["els"]) else [])
        for T in (types if len(q["els"]) < 3 or "Mv" in types else [types[c % 5], types[(c + 1) % 5]]):
            b = "".join(f"{const(x)}{T} o{i} = mk<{T}>({i + 1}); " for i, x in enumerate(q["els"]))
            b += f"auto a = make_array({', '.join(expr(f'o{i}', x) for i, x in enumerate(q['els']))}); static_assert(std::is_same_v<decltype(a), std::array<{T}, {len(q['els'])}>>); " + LIST
            b += "".join(f"r[++r[0]] = num_of(o{i}) == {i + 1}; " if kp else "r[++r[0]] = 0; " for i, kp in enumerate(keep))
            put(b, out + keep, f"make_array of {T} from expressions {q['els']}")
    elif k == "mixed":
        f = e["common"] in ("f32", "f64")
        vs = [VALS[t][(i + c) % 3] for i, t in enumerate(q["els"])]
        b = "".join(f"{'const ' if (c + i) % 3 == 0 else ''}{CPP[t]} o{i} = {v}LL{' / 4.0' if f else ''}; " for i, (t, v) in enumerate(zip(q["els"], vs)))
        b += f"{'constexpr ' if False else ''}auto a = make_array({', '.join(expr(f'o{i}', 1 + (c + i) % 2 * 2) for i in range(len(vs)))}); static_assert(std::is_same_v<decltype(a), std::array<{CPP[e['common']]}, {len(vs)}>>); "
        b += f"for (auto x : a) r[++r[0]] = static_cast<long>(x{' * 4' if f else ''}); "
        put(b, vs, f"make_array of {q['els']}")
    elif k == "repeat":
        n = q["els"][0]
        for T in ["Bo", "Cp", "int", "Tr", "std::string", "std::vector<int>", "std::array<int, 2>", "std::pair<int, long>"]:
            for pas in ("o", "std::move(o)", f"mk<{T}>(7)", "std::as_const(o)"):
                b = f"{T} o = mk<{T}>(7); auto a = make_array<{T}, {n}>({pas}); static_assert(std::is_same_v<decltype(a), std::array<{T}, {n}>>); " + LIST
                if "move" not in pas:
                    b += "r[++r[0]] = num_of(o) == 7; "
                put(b, [7] * n + ([1] if "move" not in pas else []), f"make_array<{T}, {n}>({pas})")
            put(f"auto a = utils::make_zero_array<{T}, {n}>(); static_assert(std::is_same_v<decltype(a), std::array<{T}, {n}>>); " + LIST, [0] * n, f"make_zero_array<{T}, {n}>()")
            put(f"auto a = make_array<{T}, {n}>(); static_assert(std::is_same_v<decltype(a), std::array<{T}, {n}>>); " + LIST, [0] * n, f"make_array<{T}, {n}>()")
        put(f"auto a = utils::make_zero_array<std::unique_ptr<int>, {n}>(); " + LIST, [0] * n, f"make_zero_array<std::unique_ptr<int>, {n}>()")
        put(f"constexpr auto a = make_array<int, {n}>(5); constexpr auto z = utils::make_zero_array<long, {n}>(); static_assert(a.size() == {n} && z.size() == {n}); for (int x : a) r[++r[0]] = x; for (long x : z) r[++r[0]] = x;", [5] * n + [0] * n, f"constant make_array<int, {n}>")
        if n == 0:
            put("constexpr auto a = make_array<Bo>(); static_assert(std::is_same_v<decltype(a), const std::array<Bo, 0>>); r[++r[0]] = a.size();", [0], "make_array<T>()")
    elif k in ("lead", "pick"):
        cht = q.get("cht", "char")
        v = q["view"]
        cells = ", ".join(f"static_cast<{cht}>({x})" for x in v) or "0"
        view = f"static constexpr {cht} v[] = {{{cells}}}; constexpr std::basic_string_view<{cht}> sv(v, {len(v)}); "
        if k == "lead":
            alts = {"i8": ["std::int8_t", "char"], "u8": ["std::uint8_t", "std::byte"], "u16": ["std::uint16_t", "char16_t"]}.get(q["to"], [CPP[q["to"]]])
            T = alts[c % len(alts)]
            for s in ("constexpr ", ""):
                put(view + f"{s}auto a = make_array<{q['n']}, {T}>(sv); static_assert(std::is_same_v<std::remove_cv_t<decltype(a)>, std::array<{T}, {q['n']}>>); for (auto x : a) r[++r[0]] = static_cast<long>(x); ", out, f"{s}make_array<{q['n']}, {T}> of {cht} view {v}")
        else:
            for s in ("constexpr ", ""):
                put(view + f"{s}auto a = utils::sv_to_array<{', '.join(map(str, q['els']))}>(sv); static_assert(std::is_same_v<std::remove_cv_t<decltype(a)>, std::array<char, {len(out)}>>); for (auto x : a) r[++r[0]] = x; ", out, f"{s}sv_to_array<{q['els']}> of {v}")
    elif k in ("range", "values"):
        t = q["ty"]
        B, E = lit(q["from"], t), lit(q["to"], t)
        if k == "range":
            st = [str(q["step"]), lit(q["step"], t)][c % 2]
            T, tail = CPP[t], f", {st}"
            if c % 5 == 0:
                T, tail = "long", f", {st}, long"
            elif q["step"] == 1 and c % 3 == 0:
                tail = ""
            what = f"make_array_from_range<{B}, {E}{tail}>"
            if len(out) <= 70:
                put(f"constexpr auto a = utils::make_array_from_range<{B}, {E}{tail}>(); static_assert(std::is_same_v<decltype(a), const std::array<{T}, {len(out)}>>); static_assert(utils::is_valid_range_v<{B}, {E}{', ' + st}>); static_assert(utils::is_valid_range{'' if c % 2 else '_v'}<{B}, {E}{', ' + st if q['step'] != 1 else ''}>{'::value' if c % 2 else ''}); for (auto x : a) r[++r[0]] = x; ", out, what)
            put(f"auto a = utils::make_array_from_range<{B}, {E}{tail}>(); static_assert(std::is_same_v<decltype(a), std::array<{T}, {len(out)}>>); for (auto x : a) r[++r[0]] = x; ", out, what + " at run time")
        else:
            cases.append(dict(decl=f"static const long *h{c}_{len(cases)}() {{ static long r[300]; dump(utils::values_in_range_t<{B}, {E}>{{}}, r); return r; }}", ptr=f"h{c}_{len(cases)}()", want=out, what=f"values_in_range<{B}, {E}>"))
    elif k == "concat":
        vias = [x["via"] for x in q["els"]]
        types = ["Bo", "Cp", "int", "std::string"] + (["Mv"] if all(v == 3 for v in vias) else [])
        for T in (types if len(vias) < 2 else {types[c % 4], types[-1]} if "Mv" in types else {types[c % 4]}):
            b = ""
            for i, x in enumerate(q["els"]):
                # elements are moved into place so that move-only ones can be
                b += f"{const(x['via'])}std::array<{T}, {x['n']}> o{i} = {{{', '.join(f'mk<{T}>({(i + 1) * 10 + p + 1})' for p in range(x['n']))}}}; "
            b += f"auto a = concatenate_arrays({', '.join(expr(f'o{i}', v) for i, v in enumerate(vias))}); static_assert(std::is_same_v<decltype(a), std::array<{T}, {len(out)}>>); " + LIST
            for i, x in enumerate(q["els"]):
                b += (f"r[++r[0]] = 1; for (std::size_t i = 0; i < {x['n']}; ++i) if (num_of(o{i}[i]) != long({(i + 1) * 10 + 1} + i)) r[r[0]] = 0; " if keep[i] and x["n"] else f"r[++r[0]] = {keep[i]}; ")
            put(b, out + keep, f"concatenate_arrays of {T} {q['els']}")
    else:
        raise Machinery(k)
    return cases


def prefix(ctx):
    r = ctx.model("Prefix", "SPECIFICATION Spec\nCONSTANTS N = 3\nINVARIANTS Exactly Emit\n")
    rows = {}
    for e in r.printed("P|"):
        rows[json.dumps([e["a"], e["b"], e["k"]])] = e
    groups = []
    for n in range(4):
        es = [e for _, e in sorted(rows.items()) if len(e["a"]) == n]
        for T, mk in [("double", "D"), ("float", "F"), ("Odd", "O"), ("Padded", "P"), ("int", "I")]:
            mine = [e for e in es if T != "int" and T != "Padded" or 3 not in e["a"] + e["b"]]
            put = f"std::array<{T}, {n}> a{{{{{', '.join(f'mk{mk}(x.a[{i}])' for i in range(n))}}}}}, b{{{{{', '.join(f'mk{mk}(x.a[{n + i}])' for i in range(n))}}}}}; " if n else f"std::array<{T}, 0> a{{}}, b{{}}; "
            groups.append(dict(name=f"is_equal over std::array<{T}, {n}>", rows=[((*e["a"], *e["b"], e["k"]), (int(e["equal"]),)) for e in mine], ct=60 if T != "Padded" else 0,
                               code=put + f"return {{{{U64(utils::is_equal(std::as_const(a), std::as_const(b), x.a[{2 * n}]))}}}};"))
            groups.append(dict(name=f"is_equal over whole std::array<{T}, {n}>", rows=[((*e["a"], *e["b"], 0), (int(e["equal"]),)) for e in mine if e["k"] == n], ct=60 if T != "Padded" else 0,
                               code=put + "return {{U64(utils::is_equal(a, std::as_const(b)))}};"))
    num.run(ctx, "prefix", """#include <utils/common.h>
constexpr double mkD(U64 i) { return i == 0 ? 0.0 : i == 1 ? -0.0 : i == 2 ? 1.5 : std::numeric_limits<double>::quiet_NaN(); }
constexpr float mkF(U64 i) { return static_cast<float>(mkD(i)); }
struct Odd { int c, n; constexpr bool operator==(const Odd &o) const { return c == o.c && c != 9; } constexpr bool operator!=(const Odd &o) const { return !(*this == o); } };
constexpr Odd mkO(U64 i) { return {i < 2 ? 0 : i == 2 ? 1 : 9, int(i)}; }
struct Padded { char c; int v; bool operator==(const Padded &o) const { return c == o.c && v == o.v; } bool operator!=(const Padded &o) const { return !(*this == o); } };
inline Padded mkP(U64 i) { Padded p; std::memset(static_cast<void *>(&p), i == 1 ? 0xee : 0x11, sizeof p); p.c = 'x'; p.v = i < 2 ? 0 : 1; return p; }
constexpr int mkI(U64 i) { return i < 2 ? 0 : i == 2 ? -5 : 0; }
""", groups)
    ctx.note(f"{len(rows)} prefix comparisons")


def check(ctx):
    fn = ctx.path("more.ndjson")
    with open(fn, "w") as f:
        for q in extra(ctx.rng, 900 if ctx.thorough else 120):
            f.write(json.dumps(q) + "\n")
    r = ctx.model("Arrays", f"SPECIFICATION Spec\nCONSTANTS Deep = {'TRUE' if ctx.thorough else 'FALSE'}\nINVARIANTS RangeRight ConcatRight NarrowFits CommonHolds Emit\n", env={"MORE": fn})
    seen, cases, reqs = set(), [], 0
    for e in sorted(r.printed("E|"), key=json.dumps):
        key = json.dumps(e["req"], sort_keys=True)
        if key in seen:
            continue
        seen.add(key)
        reqs += 1
        cases += run(reqs, e)
    pre = PRE + "template <auto... V> void dump(utils::value_list<V...>, long *r) { ((r[++r[0]] = static_cast<long>(V)), ...); }\n"
    ct.run_cases(ctx, "arrays", pre, cases, split=not ctx.thorough, chunks=4)
    ctx.note(f"{reqs} requests, {len(cases)} arrays")
    prefix(ctx)
    ctx.sample({"case": cases[50]["what"], "specified": cases[50]["want"]})


CHECKS = {"C23": check}
