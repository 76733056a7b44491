"""C25, C28: width selection and type classification against
spec/Widths.tla and spec/Types.tla."""
import itertools, json
import vf, ct, num
from vf import Machinery

PRE = """
#include <utils/common.h>
#include <utils/detector.h>
#include <utils/type_list.h>
#include <utils/value_list.h>
using namespace utils;
"""
LET = ["bool", "char", "short", "S3", "int", "double", "E1"]


def c25(ctx):
    fn = ctx.path("packs.ndjson")
    with open(fn, "w") as f:
        for _ in range(2000 if ctx.thorough else 150):
            f.write(json.dumps({"s": [ctx.rng.choice([1, 1, 1, 2, 3, 4, 5, 6, 7]) for _ in range(ctx.rng.randint(4, 24))]}) + "\n")
    r = ctx.model("Widths", "SPECIFICATION Spec\nINVARIANT Sufficient\nACTION_CONSTRAINT Emit\n", env={"PACKS": fn})
    U = lambda w: f"std::uint{w}_t"
    F = lambda w: f"std::uint_fast{w}_t"
    cases = []
    same = lambda a, b: f"long(std::is_same_v<{a}, {b}>)"
    for e in sorted(r.printed("E|"), key=json.dumps):
        k, q, a = e["k"], e["q"], e["a"]
        n = len(cases)
        if k == "bits":
            code = [same(f"uint_from_nbits_t<{q}>", U(a[0])), same(f"typename uint_from_nbits<{q}>::type", U(a[0])), same(f"fast_uint_from_nbits_t<{q}>", F(a[0])), same(f"typename fast_uint_from_nbits<{q}>::type", F(a[0]))]
            cases.append(dict(code=", ".join(code), want=[1] * 4, what=f"{q} bits"))
        elif k == "bytes":
            code = [same(f"{t}<{q}>", (F if "ast" in t else U)(a[0])) for t in ("uint_from_nbytes_t", "UInt", "fast_uint_from_nbytes_t", "FastUInt")]
            cases.append(dict(code=", ".join(code), want=[1] * 4, what=f"{q} bytes"))
        elif k == "enum":
            v = num.word(q)
            under = [t for t, m in (("unsigned char", 255), ("signed char", 127), ("unsigned short", 65535), ("short", 32767), ("unsigned", 2 ** 32 - 1), ("int", 2 ** 31 - 1), ("unsigned long long", 2 ** 64 - 1), ("long", 2 ** 63 - 1)) if v <= m]
            for i, t in enumerate(under if ctx.thorough else under[:2] + under[-1:]):
                for kw in ("enum class", "enum"):
                    p = "struct" if kw == "enum" else "namespace"
                    cases.append(dict(decl=f"{p} N{len(cases)} {{ {kw} En : {t} {{ none = 0, Count = {v}ull }}; }}{';' if p == 'struct' else ''}",
                                      code=f"long(enum_properties<N{len(cases)}::En>::numBits), {same(f'enum_properties<N{len(cases)}::En>::SerializeT', U(a[1]))}", want=[a[0], 1], what=f"{kw} : {t} with {v} values"))
        else:
            p = ", ".join(LET[x - 1] for x in q)
            cases.append(dict(code=f"long(sum_size<{p}>())" + (f", long(num_bits<{p}>())" if len(q) == 1 else ""), want=[a[0]] + ([{1: 1, 2: 8, 3: 16, 4: 24, 5: 32, 6: 64, 7: 8}[q[0]]] if len(q) == 1 else []), what=f"sum_size<{p}>"))
    ct.run_cases(ctx, "width", PRE + "struct S3 { char c[3]; }; enum class E1 : signed char { a };\n", cases)
    ctx.sample({"case": cases[-1]["what"], "answer": cases[-1]["want"]})
    ctx.note(f"{len(cases)} selections")


NAME = {"nullptr_t": "std::nullptr_t", "byte": "std::byte", "enum": "En", "struct": "St", "function": "void()", "tuple0": "std::tuple<>", "array0": "std::array<int, 0>", "types0": "type_list<>", "values1": "value_list<1>"}


def alias(t):
    """C++ spelling by alias templates, one per constructor."""
    s = f"I_t<{NAME.get(t[0], t[0])}>"
    for c in t[1:]:
        s = {"const": "A_c", "volatile": "A_v", "&": "A_l", "&&": "A_r", "*": "A_p", "[3]": "A_a", "array": "A_sa", "tuple": "A_t", "wrapper": "A_w", "types": "A_tl"}[c] + f"<{s}>"
    return s


def spell(x):
    """C++ spelling of a specified type."""
    s = f"I_t<{NAME.get(x['k'], x['k'])}>" if not x["of"] else {"&": "A_l", "&&": "A_r", "*": "A_p", "[3]": "A_a", "array": "A_sa", "tuple": "A_t", "wrapper": "A_w", "types": "A_tl"}[x["k"]] + f"<{spell(x['of'][0])}>"
    for c in x["q"]:
        s = {"c": "A_c", "v": "A_v"}[c] + f"<{s}>"
    return s


TPRE = PRE + """
struct A3 { char c[3]; }; enum En { en }; struct St { int i; };
template <typename T> using I_t = T;
template <typename T> using A_c = const T; template <typename T> using A_v = volatile T; template <typename T> using A_l = T &; template <typename T> using A_r = T &&;
template <typename T> using A_p = T *; template <typename T> using A_a = T[3]; template <typename T> using A_sa = std::array<T, 2>; template <typename T> using A_t = std::tuple<T>;
template <typename T> using A_w = std::reference_wrapper<T>; template <typename T> using A_tl = type_list<T>;
template <typename T> using op_lref = T &; template <typename T> using op_pointer = T *; template <typename T> using op_array = T[3]; template <typename T> using op_element = typename T::value_type;
template <typename T> using op_deref = decltype(*std::declval<T>()); template <typename T> using op_sum = decltype(std::declval<T>() + 1);
template <typename T, typename U> using op_two = decltype(std::declval<T>() < std::declval<U>()); template <typename... T> using op_common = std::common_type_t<T...>;
"""
OPS = ["lref", "pointer", "array", "element", "deref", "sum"]


def c28(ctx):
    fn = ctx.path("types.ndjson")
    names = ["void", "bool", "unsigned char", "char", "int", "unsigned long", "char16_t", "float", "nullptr_t", "byte", "enum", "struct", "function", "tuple0", "array0", "types0", "values1"]
    cons = ["const", "volatile", "&", "&&", "*", "[3]", "array", "tuple", "wrapper", "types"]
    with open(fn, "w") as f:
        for _ in range(6000 if ctx.thorough else 500):
            f.write(json.dumps({"t": [ctx.rng.choice(names)] + [ctx.rng.choice(cons) for _ in range(ctx.rng.randint(3, 5))]}) + "\n")
    r = ctx.model("TypesMC", "SPECIFICATION Spec\nINVARIANT Laws\nACTION_CONSTRAINT Emit\n", env={"TYPES": fn})
    cases = []
    for e in sorted(r.printed("E|"), key=json.dumps):
        T = alias(e["t"])
        S = lambda a, b: (f"long(std::is_same_v<{a}, {b}>)", 1)
        both = lambda n, w: [(f"long({n}<{T}>::value)", w), (f"long({n}_v<{T}>)", w)]
        a = e["a"]
        q = [S(T, spell(e["self"]))] + both("is_uint", a[0])
        if a[1] != 2:
            q += both("is_uint_or_byte", a[1])
        q += [(f"long(is_std_array<{T}>::value)", a[2]), (f"long(is_std_array_v<{T}>)", a[3])] + both("is_tuple", a[4]) + both("is_ref_wrapper", a[5]) + both("is_type_list", a[6]) + both("is_value_list", a[7])
        q += [S(f"remove_cvref_t<{T}>", spell(e["cvref"])), S(f"typename remove_cvref<{T}>::type", spell(e["cvref"])), S(f"unwrap_reference_t<{T}>", spell(e["unwrap"])), S(f"typename unwrap_reference<{T}>::type", spell(e["unwrap"]))]
        if e["arr"]:
            n, el = e["arr"]
            q += [(f"long(std_array_size_v<{T}>)", n), S(f"std_array_data_t<{T}>", spell(el)), (f"long(is_same_data_std_arrays<{T}, std::array<{spell(el)}, 5>>)", 1),
                  (f"long(is_same_data_std_arrays<const std::array<{spell(el)}, 5> &, {T}>)", 1), (f"long(is_same_data_std_arrays<{T}, std::array<struct Other *, 5>>)", 0), (f"long(std_array_sizes_sum<{T}, std::array<char, 5>, {T}>)", 5 + 2 * n)]
        for o, d in zip(OPS, e["d"]):
            ty = spell(d["ty"])
            O = f"op_{o}"
            root = e["self"]["of"][0] if e["self"]["k"] in ("&", "&&") else e["self"]
            if o in ("sum", "deref") and root["k"] == "wrapper":
                continue      # converts implicitly
            q += [(f"long(is_detected_v<{O}, {T}> && is_detected<{O}, {T}>::value)", d["ok"]), (f"long(is_detected_v<{O}, {T}> || is_detected<{O}, {T}>::value)", d["ok"]),
                  S(f"detected_or_t<St, {O}, {T}>", ty), S(f"typename detected_or<St, {O}, {T}>::type", ty), (f"long(detected_or<St, {O}, {T}>::value_t::value)", d["ok"]),
                  S(f"detected_t<{O}, {T}>", ty if d["ok"] else "nonesuch"), (f"long(is_detected_exact_v<{ty}, {O}, {T}>)", d["ok"]), (f"long(is_detected_exact_v<struct Other, {O}, {T}>)", 0),
                  (f"long(is_detected_convertible_v<{ty}, {O}, {T}>)", 1 if d["ok"] and d["ty"]["k"] in ("*", "int", "float", "unsigned long", "char", "bool") else 2)]
            q = [z for z in q if z[1] != 2]
            if not d["ok"]:
                q += [(f"long(is_detected_convertible_v<int, {O}, {T}>)", 0), (f"long(is_detected_convertible_v<nonesuch, {O}, {T}>)", 0), (f"long(is_detected_exact<int, {O}, {T}>::value)", 0)]
        cases.append(dict(code=", ".join(c for c, _ in q), want=[w for _, w in q], labels=[c for c, _ in q], what=f"{T}"))
    # packs
    sizes = {"char": 1, "bool": 1, "short": 2, "int": 4, "float": 4, "long": 8, "double": 8, "A3": 3}
    for n in range(1, 4 if not ctx.thorough else 5):
        for p in itertools.product(sizes, repeat=n):
            w = int(len({sizes[x] for x in p}) == 1)
            s = ", ".join(p)
            cases.append(dict(code=f"long(is_equal_sizes_v<{s}>), long(is_equal_sizes<{s}>::value)", want=[w, w], what=f"is_equal_sizes<{s}>"))
    for s, w in (("", 0), ("int, int", 0), ("std::tuple<int>, std::tuple<int>", 0)):
        cases.append(dict(code=f"long(is_tuple_v<{s}>), long(is_type_list_v<{s}>)" if s else "long(is_tuple_v<>)", want=[w] * (2 if s else 1), what=f"is_tuple<{s}>"))
    for a, b, ok in (("int", "long", 1), ("int", "St", 0), ("int *", "int *", 1), ("void", "int", 0), ("int *", "St *", 0)):
        cases.append(dict(code=f"long(is_detected_v<op_two, {a}, {b}>), long(is_detected_exact_v<bool, op_two, {a}, {b}>), long(is_detected_convertible_v<int, op_two, {a}, {b}>), long(std::is_same_v<detected_t<op_two, {a}, {b}>, {'bool' if ok else 'nonesuch'}>)",
                          want=[ok] * 3 + [1], what=f"{a} < {b}"))
    cases.append(dict(code="long(is_detected_v<op_common>), long(is_detected_v<op_common, int>), long(std::is_same_v<detected_t<op_common, char, short, long>, long>), long(is_detected_v<op_common, int, St, int>), long(is_detected_v<op_two, int>)", want=[0, 1, 1, 0, 0], what="packs"))
    # convertible: what an initialisation written with = would take; a conversion asked for by name is not one
    conv = [("Exp", "int", 0), ("Imp", "int", 1), ("ToExp", "int", 1), ("int", "Exp", 1), ("int", "ToExp", 0), ("int", "Imp", 0), ("Base", "Der", 1), ("Der", "Base", 0), ("Base &", "Der &", 1), ("Base *", "Der *", 1), ("Der *", "Base *", 0),
            ("int &", "long", 0), ("const int &", "long", 1), ("int &&", "int &", 0), ("int &", "int &", 1), ("int &", "const int &", 0), ("Sc", "int", 0), ("int", "Sc", 0), ("int", "Un", 1), ("void *", "int *", 1), ("int *", "void *", 0), ("const int *", "int *", 1),
            ("int *", "const int *", 0), ("void", "int", 0), ("void", "void", 1), ("int", "void", 0), ("int *", "int (&)[3]", 1), ("bool", "int *", 1), ("NoMove", "NoMove", 0), ("NoMove", "NoMove &", 0), ("NoMove &", "NoMove &", 1)]
    spell1 = lambda to, fr, w: [(f"long(is_detected_convertible_v<{to}, op_same, {fr}>)", w), (f"long(is_detected_convertible<{to}, op_same, {fr}>::value)", w)]
    q = [x for c in conv for x in spell1(*c)]
    cases.append(dict(decl="template <class T> using op_same = T; struct ToExp; struct Exp { explicit Exp(int); operator int() const; }; struct Imp { Imp(int); }; struct ToExp { ToExp(int); explicit operator int() const; }; "
                           "struct Base {}; struct Der : Base {}; enum class Sc { a }; enum Un { b }; struct NoMove { NoMove(); NoMove(NoMove &&) = delete; };",
                      code=", ".join(c for c, _ in q), want=[w for _, w in q], labels=[c for c, _ in q], what="conversions"))
    # what stands for "nothing" can be neither made, copied, assigned nor destroyed
    cases.append(dict(decl="template <class T, class... A> using op_make = decltype(::new (std::declval<void *>()) T(std::declval<A>()...)); template <class T> using op_drop = decltype(std::declval<T &>().~T()); template <class T, class A> using op_set = decltype(std::declval<T &>() = std::declval<A>());",
                      code="long(is_detected_v<op_make, nonesuch>), long(is_detected_v<op_make, nonesuch, const nonesuch &>), long(is_detected_v<op_make, nonesuch, nonesuch &>), long(is_detected_v<op_make, nonesuch, nonesuch>), long(is_detected_v<op_drop, nonesuch>), "
                           "long(is_detected_v<op_set, nonesuch, const nonesuch &>), long(is_detected_v<op_set, nonesuch, nonesuch>), long(is_detected_v<op_set, nonesuch, nonesuch &>), long(is_detected_v<op_make, St>), long(is_detected_v<op_drop, St>), long(is_detected_v<op_set, St, St>)",
                      want=[0] * 8 + [1] * 3, what="nonesuch"))
    ct.run_cases(ctx, "types", TPRE, cases, split=not ctx.thorough)
    ctx.add("queries", sum(len(c["want"]) for c in cases))
    ctx.sample({"type": cases[60]["what"], "answers": cases[60]["want"][:20]})
    ctx.note(f"{len(cases)} types and packs")


CHECKS = {"C25": c25, "C28": c28}
