"""C15, C16: value lists and cartesian products against spec/ValueList.tla."""
import json
import vf, ct, c_types
from vf import Machinery

# four letters (expression, type number, value) and one that never occurs;
# types by number, the last of which never occurs
PALETTES = [
    dict(name="widths", v=[("1", 1, 1), ("1u", 2, 1), ("2", 1, 2), ("char(1)", 3, 1)], absent=("1l", 4), t=["int", "unsigned", "char", "long"], order=1),
    dict(name="flags", v=[("true", 1, 1), ("1", 2, 1), ("EA::a", 3, 1), ("EB::a", 4, 1)], absent=("false", 1), t=["bool", "int", "EA", "EB", "EC"], order=1),
    dict(name="signs", v=[("-1", 1, -1), ("4294967295u", 2, 1), ("-2", 1, -2), ("5", 1, 5)], absent=("5u", 2), t=["int", "unsigned", "long"], order=1),
    dict(name="wide", v=[("-9223372036854775807ll", 1, -3), ("9223372036854775807ll", 1, 3), ("18446744073709551615ull", 2, 1), ("0ll", 1, 0)], absent=("0ull", 2), t=["long long", "unsigned long long", "long"], order=1),
    dict(name="letters", v=[("'a'", 1, 97), ("(signed char)'a'", 2, 97), ("'b'", 1, 98), ("(short)97", 3, 97)], absent=("97", 5), t=["char", "signed char", "short", "unsigned char", "int", "unsigned short"], order=1),
    dict(name="bytes", v=[("(unsigned char)200", 1, 200), ("(signed char)-56", 2, -56), ("(unsigned char)3", 1, 3), ("EU::z", 3, 250)], absent=("200", 5), t=["unsigned char", "signed char", "EU", "unsigned", "int", "char"], order=1),
    dict(name="pointers", v=[("&gX", 1, 0), ("&gY", 1, 0), ("nullptr", 2, 0), ("&gC", 3, 0)], absent=("&gZ", 1), t=["int*", "std::nullptr_t", "const int*", "int"], order=0),
    dict(name="references", v=[("(gA)", 1, 0), ("(gB)", 1, 0), ("(gX)", 2, 0), ("1", 3, 0)], absent=("2", 3), t=["const int&", "int&", "int", "long"], order=2),
]
PRE = """
#include <utils/value_list.h>
enum class EA { a = 1, b = 2 }; enum class EB : char { a = 1 }; enum class EC { a }; enum class EU : unsigned char { z = 250, y = 3 };
int gX = 1, gY = 1, gZ = 1;
constexpr int gC = 1, gA = 1, gB = 1;
using namespace utils;
template <typename T> struct tid { static constexpr long v = -1; };
template <typename L> struct ids;
"""


def prelude(p):
    s = PRE
    for i, t in enumerate(p["t"]):
        s += f"template <> struct tid<{t}> {{ static constexpr long v = {i + 1}; }};\n"
    ref = p["order"] == 2
    s += "template <typename T> constexpr long vid(T &&x) { using U = std::remove_cv_t<std::remove_reference_t<T>>; (void)x;\n"
    for i, (e, t, v) in enumerate([*p["v"], (*p["absent"], 0)]):
        if ref:
            if e.startswith("("):
                s += f"  if (static_cast<const void *>(&x) == static_cast<const void *>(&{e[1:-1]})) return {i + 1};\n"
            else:
                s += f"  if constexpr (!std::is_reference_v<T> || std::is_const_v<std::remove_reference_t<T>>) if (x == {e}) return {i + 1};\n"
        else:
            s += f"  if constexpr (std::is_same_v<U, {p['t'][t - 1]}>) if (x == {e}) return {i + 1};\n"
    s += "  return -2; }\n"
    if not ref:
        s += "template <auto... V> struct ids<value_list<V...>> { static constexpr long v[1 + sizeof...(V)] = {long(sizeof...(V)), vid(V)...}; };\n"
    return s


def vl(p, s):
    return "value_list<" + ", ".join(p["v"][x - 1][0] for x in s) + ">"


def queries(p, s, k):
    L, q, n = f"L{k}", [], len(s)
    ty = [v[1] for v in p["v"]]
    if p["order"] == 2:
        q.append(("size", f"{L}::size"))
        q += [(f"at<{i}>", f"vid({L}::at<{i}>)") for i in range(n)]
        q += [(f"at_t<{i}>", f"tid<{L}::at_t<{i}>>::v") for i in range(n)]
        q += [(f"contains_type<{t}>", f"{L}::contains_type<{t}>") for t in p["t"]]
        return q
    q += [("size", f"{L}::size"), ("is_same", f"{L}::is_same::value"), ("is_same_v", f"{L}::is_same_v"), ("contains_copies", f"{L}::contains_copies")]
    for e in [v[0] for v in p["v"]] + [p["absent"][0]]:
        q += [(f"count_of<{e}>", f"{L}::count_of<{e}>"), (f"index_of<{e}>", f"{L}::index_of<{e}>"), (f"contains_v<{e}>", f"{L}::contains_v<{e}>"), (f"contains<{e}>", f"{L}::contains<{e}>::value")]
    q += [(f"at<{i}>", f"vid({L}::at<{i}>)") for i in range(n)]
    q += [(f"at_t<{i}>", f"tid<{L}::at_t<{i}>>::v") for i in range(n)]
    for j, t in enumerate(p["t"]):
        have = [x for x in s if ty[x - 1] == j + 1]
        q += [(f"contains_type<{t}>", f"{L}::contains_type<{t}>"), (f"list_all_of<{t}>::size", f"{L}::list_all_of_t<{t}>::size")]
        q += [(f"list_all_of<{t}>[{i}]", f"ids<typename {L}::list_all_of<{t}>::type>::v[{i + 1}]") for i in range(len(have))]
        if p["order"] == 1 and have:
            q += [(f"min<{t}>", f"vid({L}::min<{t}>)"), (f"max<{t}>", f"vid({L}::max<{t}>)")]
    q += [(f"concatenated [{i}]", f"ids<concatenate_t<{L}, {L}>>::v[{i + 1}]") for i in range(2 * n)]
    q += [(f"concatenate of one [{i}]", f"ids<concatenate_t<{L}>>::v[{i + 1}]") for i in range(n)]
    return q


def consts(p):
    return " K = 4\n Ty <- TyDef\n Vl <- VlDef\n" + f" NT = {len(p['t'])}\n" + "".join(f" T{i + 1} = {v[1]}\n V{i + 1} <- {'' }" for i, v in enumerate([])) + \
        "".join(f" T{i + 1} = {v[1]}\n V{i + 1} = {v[2] + 1000}\n" for i, v in enumerate(p["v"]))


def c15(ctx):
    for j, p in enumerate(PALETTES):
        n, more = (4, 80) if ctx.thorough else (3, 20)
        if p["order"] == 2:
            n, more = 2, 4
        r = ctx.model("ValueListMC", f"SPECIFICATION MCSpec\nCONSTANTS N = {n}\n Ordered = {p['order']}\n" + consts(p) + "VIEW View\nACTION_CONSTRAINT Emit\n",
                      env={"EXTRA": c_types.extra(ctx, more, n + 1, n + 5, f"extra{j}.ndjson")})
        cases = []
        for k, e in enumerate(r.printed("E|")):
            q = queries(p, e["s"], k)
            if len(q) != len(e["o"]["t"]):
                raise Machinery(f"queries and specification out of step: {len(q)} {len(e['o']['t'])}")
            cases.append(dict(decl=f"using L{k} = {vl(p, e['s'])};", code=", ".join(f"long({c})" for _, c in q), want=e["o"]["t"], what=f"{p['name']}: {vl(p, e['s'])}", labels=[a for a, _ in q]))
        ct.run_cases(ctx, "values-" + p["name"], prelude(p), cases, split=not ctx.thorough)
        ctx.note(f"{p['name']}: {len(cases)} lists")
        ctx.add("queries", sum(len(c["want"]) for c in cases))
        ctx.sample({"list": cases[-1]["what"], "answers": cases[-1]["want"][:16]})


def c16(ctx):
    import itertools
    L3 = [list(x) for k in range(3 if not ctx.thorough else 4) for x in itertools.product(range(1, 4), repeat=k)]
    rnd = lambda lo, hi: [ctx.rng.randint(1, 4) for _ in range(ctx.rng.randint(lo, hi))]
    sel = [[a, b] for a in L3 for b in L3]
    for cnt, k, hi in ((60, 3, 3), (25, 4, 2), (8, 5, 2), (20, 2, 6), (4, 6, 2)):
        for _ in range(cnt * (4 if ctx.thorough else 1)):
            sel.append([rnd(0 if ctx.rng.random() < 0.1 else 1, hi) for _ in range(k)])
    for ns in ((20, 17), (33, 3), (2, 40), (9, 2, 9), (11, 1, 11), (1, 33, 2), (2, 3, 18)):
        sel.append([c_types.long_list(ctx.rng, n) for n in ns])
    sel += [[[1], [], [2]], [[], [1], [2]], [[1], [2], []], [[], []], [[], [], []], [[1, 2, 3, 4], [4, 3, 2, 1], [1, 2]], [[1, 1], [1, 1], [2, 2]]]
    fn = ctx.path("lists.ndjson")
    with open(fn, "w") as f:
        for s in sel:
            f.write(json.dumps({"s": s}) + "\n")
    pv = PALETTES[0]
    r = ctx.model("ProductMC", "SPECIFICATION MCSpec\nCONSTANTS\n" + consts(pv) + "INVARIANT EveryTuple\nACTION_CONSTRAINT Emit\n", env={"LISTS": fn})
    got = list(r.printed("E|"))
    flat = lambda ts, w: [x for t in ts for x in ([len(t)] if w else []) + list(t)]
    pairs = "template <typename... T> struct all { static constexpr auto f() { std::array<long, 1 + (0 + ... + (ids<T>::v[0] + 1))> a{}; std::size_t k = 0; a[k++] = long(a.size()) - 1;" \
            " auto put = [&](const long *p) { for (long i = 0; i <= p[0]; ++i) a[k++] = p[i]; }; (void)put; (put(ids<T>::v), ...); return a; } static constexpr auto v = f(); };\n" \
            "template <typename L> struct tuples; template <typename... T> struct tuples<type_list<T...>> : all<T...> {};\n"
    pt = [p for p in c_types.PALETTES if p["name"] in ("qualified", "mixed")] + [c_types.NOSIZE]
    vals = [PALETTES[0], PALETTES[1], PALETTES[6]]
    for which, pals, mk, pre in (("types", pt, c_types.tl, c_types.prelude), ("values", vals, vl, prelude)):
        for j, p in enumerate(pals):
            cases = []
            for k, e in enumerate(got):
                if ctx.thorough or k % len(pals) == j:
                    R = f"cartesian_product_t<{', '.join(mk(p, s) for s in e['s'])}>"
                    cases.append(dict(ptr=f"tuples<{R}>::v.data()", code="", want=flat(e["r"], True), what=R))
            ct.run_cases(ctx, f"product-{which}-{p['name']}", pre(p) + "#include <utils/cartesian_product.h>\n" + pairs, cases, split=not ctx.thorough)
            ctx.note(f"{which} {p['name']}: {len(cases)} products")
    ctx.sample({"lists": got[-1]["s"], "product": got[-1]["r"]})


CHECKS = {"C15": c15, "C16": c16}
