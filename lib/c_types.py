"""C13, C14: type lists against spec/TypeList.tla."""
import json
import vf, ct
from vf import Machinery

# four letters and a type that never occurs; sizes on the usual ABIs are
# asserted in the generated code
PALETTES = [
    dict(name="qualified", t=["int", "const int", "int&", "const volatile int&&"], absent="volatile int", sz=[4, 4, 4, 4]),
    dict(name="chars", t=["signed char", "unsigned char", "short", "char"], absent="const char", sz=[1, 1, 2, 1]),
    dict(name="mixed", t=["double", "int", "char", "float"], absent="double&", sz=[8, 4, 1, 4]),
    dict(name="classes", t=["B24", "E1", "B24 const", "long double"], absent="E2", sz=[24, 1, 24, 16]),
    dict(name="pointers", t=["int*", "int* const", "const int*", "unsigned short"], absent="const int* const", sz=[8, 8, 8, 2]),
    dict(name="bulky", t=["B24", "B6", "const B12", "B3"], absent="B12", sz=[24, 6, 12, 3]),
    dict(name="rising", t=["char", "const short", "int&", "B24&"], absent="B24*", sz=[1, 2, 4, 24]),
]
NOSIZE = dict(name="unsized", t=["void", "Inc", "int(int)", "int[]"], absent="const void", sz=[1, 1, 1, 1])
PRE = """
#include <utils/type_list.h>
struct Inc; struct E1 {}; struct E2 {}; struct B24 { char c[24]; }; struct B12 { char c[12]; }; struct B6 { char c[6]; }; struct B3 { char c[3]; };
using namespace utils;
"""


def prelude(p):
    s = PRE
    for i, t in enumerate(p["t"]):
        s += f"template <> struct id<{t}> {{ static constexpr long v = {i + 1}; }};\n"
        if p is not NOSIZE:
            s += f'static_assert(sizeof({t}) == {p["sz"][i]}, "palette");\n'
    s += f"template <> struct id<{p['absent']}> {{ static constexpr long v = 5; }};\n"
    s += """
template <int M> struct In { template <typename T> struct p : std::bool_constant<((M >> (id<T>::v - 1)) & 1) != 0> {}; };
template <int M> struct InV { template <typename... T> struct p; template <typename T> struct p<T> : std::bool_constant<((M >> (id<T>::v - 1)) & 1) != 0> {}; };
template <int M> using K = std::integral_constant<int, M>;
// one extra argument: in A; two: in A and not in B
template <typename... X> struct PX;
template <typename T, typename A> struct PX<T, A> : std::bool_constant<((A::value >> (id<T>::v - 1)) & 1) != 0> {};
template <typename T, typename A, typename B> struct PX<T, A, B> : std::bool_constant<((A::value >> (id<T>::v - 1)) & 1) && !((B::value >> (id<T>::v - 1)) & 1)> {};
template <typename L> struct ids;
template <typename... T> struct ids<type_list<T...>> { static constexpr long v[1 + sizeof...(T)] = {long(sizeof...(T)), id<T>::v...}; };
template <typename L> constexpr long ids<type_list<L>>::v[];
""".replace("template <typename L> constexpr long ids<type_list<L>>::v[];\n", "")
    return s


def tl(p, s):
    return "type_list<" + ", ".join(p["t"][x - 1] if x <= 4 else p["absent"] for x in s) + ">"


def code(P):
    return sum(1 << (x - 1) for x in P)


def queries(p, s):
    """The C++ counterpart of Queries(s), entry by entry, with labels."""
    n, q = len(s), []
    L = "L"
    q.append(("size", "L::size"))
    q.append(("is_same", "L::is_same"))
    q.append(("contains_copies", "L::contains_copies"))
    allt = p["t"] + [p["absent"]]
    for t in allt:
        q += [(f"count_of<{t}>", f"L::count_of<{t}>"), (f"first_index_of_type<{t}>", f"L::first_index_of_type<{t}>"), (f"contains_v<{t}>", f"L::contains_v<{t}>")]
    for m in range(16):
        c = sum(1 for x in s if m >> (x - 1) & 1)
        q += [(f"count_of_predicate_compliant mask {m}", f"L::count_of_predicate_compliant<In<{m}>::p>"),
              (f"index_of mask {m}", f"L::index_of<InV<{m}>::p>"), (f"contains_predicate_compliant mask {m}", f"L::contains_predicate_compliant<In<{m}>::p>")]
        q += [(f"at<{i}, mask {m}>", f"id<L::at<{i}, In<{m}>::p>>::v") for i in range(c)]
    for m in range(16):
        q += [(f"index_of extra {m} not 1", f"L::index_of<PX, K<{m}>, K<1>>"), (f"index_of extra 15 not {m}", f"L::index_of<PX, K<15>, K<{m}>>" if m else "L::index_of<PX, K<15>>")]
    q += [(f"at<{i}>", f"id<L::at<{i}>>::v") for i in range(n)]
    for a in allt:
        q += [(f"contains<{a}, {b}>", f"L::contains_v<type_list<{a}, {b}>>") for b in allt]
    q += [("contains<>", "L::contains_v<type_list<>>"), ("contains itself", "L::contains<L>::value"), ("contains all letters", f"L::contains_v<type_list<{', '.join(p['t'])}>>")]
    q += [(f"contains list of {a}", f"L::contains<type_list<{a}>>::value") for a in allt]
    return q


LONG = [11, 15, 17, 20, 33, 40]


def long_list(rng, n):
    """n letters in which some come late, rarely or not at all."""
    k = rng.randint(0, 3)
    if k == 0:
        return [rng.randint(1, 4) for _ in range(n)]
    a, b = rng.sample(range(1, 5), 2)
    s = [a] * n
    if k == 1:        # one other at the end or nearly so
        s[n - rng.randint(1, 2)] = b
    elif k == 2:      # a run, then others
        s[n // 2:] = [rng.randint(1, 4) for _ in range(n - n // 2)]
    else:             # one other somewhere
        s[rng.randrange(n)] = b
    return s


def extra(ctx, count, lo, hi, name, longs=()):
    fn = ctx.path(name)
    seqs = set()
    while len(seqs) < count:
        seqs.add(tuple(ctx.rng.randint(1, 4) for _ in range(ctx.rng.randint(lo, hi))))
    seqs |= {tuple(long_list(ctx.rng, n)) for n in longs}
    with open(fn, "w") as f:
        for s in sorted(seqs):
            f.write(json.dumps({"s": list(s)}) + "\n")
    return fn


def model(ctx, what, n, sz, ex, invs=("SortIsStablePermutation", "FilterIsNth")):
    return ctx.model("TypeListMC", "SPECIFICATION MCSpec\nCONSTANTS K = 4\n Sz <- SzDef\n" + "".join(f" S{i + 1} = {z}\n" for i, z in enumerate(sz)) + f" N = {n}\n What = \"{what}\"\nVIEW View\nACTION_CONSTRAINT Emit\n" +
                     "".join(f"INVARIANT {i}\n" for i in invs), env={"EXTRA": ex}, timeout=900)


def c13(ctx):
    n, more = (4, 120) if ctx.thorough else (3, 30)
    r = model(ctx, "query", n, [1, 1, 1, 1], extra(ctx, more, n + 1, n + 5, "extra.ndjson", LONG + ([260] if not ctx.thorough else [100, 257, 300])), ())
    rows = [(e["s"], e["o"]["t"]) for e in r.printed("E|")]
    ctx.note(f"{len(rows)} lists")
    pals = PALETTES + [NOSIZE]
    todo = {}
    for k, (s, want) in enumerate(rows):
        for j, p in enumerate(pals):
            if (ctx.thorough and len(s) < 99) or j == 0 or k % (len(pals) - 1) == j - 1 or len(s) <= 1:
                q, ans = queries(p, s), want
                if len(q) != len(want):
                    raise Machinery("queries and specification out of step")
                if len(s) > 9:      # of the many answers on a long list a sample
                    few = [i for i, (a, _) in enumerate(q) if not a.startswith(("at<", "index_of", "contains<", "contains list")) or ctx.rng.random() < 60 / len(q)]
                    q, ans = [q[i] for i in few], [want[i] for i in few]
                decl = f"using L{k} = {tl(p, s)};"
                todo.setdefault(j, []).append(dict(decl=decl, code=", ".join(f"long({c.replace('L::', f'L{k}::').replace('<L>', f'<L{k}>')})" for _, c in q), want=ans,
                                                   what=f"{p['name']}: {tl(p, s)}", labels=[a for a, _ in q]))
    for j, cases in todo.items():
        ct.run_cases(ctx, "query-" + pals[j]["name"], prelude(pals[j]), cases, split=not ctx.thorough)
        ctx.note(f"{pals[j]['name']}: {len(cases)} lists")
    ctx.add("queries", sum(len(c["want"]) for cs in todo.values() for c in cs))
    ctx.sample({"list": rows[-1][0], "answers": rows[-1][1][:20]})


def c14(ctx):
    for j, p in enumerate(PALETTES):
        n, more = (4, 25) if ctx.thorough else (2 if j else 3, 3 if j else 5)
        r = model(ctx, "move", n, p["sz"], extra(ctx, more, n + 1, 9, f"extra{j}.ndjson", LONG if ctx.thorough else ctx.rng.sample(LONG, 2 if j else 4)))
        cases = []
        got = r.printed("E|")
        # of the many sublists of a long list a sample
        for e in got:
            s, o, t = e["s"], e["o"], e["r"]
            if len(s) > 9 and o["op"] not in ("sort", "minix", "maxix", "concat1") and ctx.rng.random() > {"sublist": 12, "exclude": 12, "filter": 12, "concat": 6, "concat3": 3}[o["op"]] / {"sublist": len(s) ** 2 / 2, "exclude": len(s), "filter": 80, "concat": 21, "concat3": 5}[o["op"]]:
                continue
            L = tl(p, s)
            a, b = o["a"], o["b"]
            op = o["op"]
            R = {"sublist": f"sublist_t<{L}, {a}, {b}>",
                 "exclude": f"exclude_at_t<{L}, {a}>",
                 "filter": f"typename {L}::list_of_predicate_compliant_t<InV<{a}>::p>" if b == -1 else f"{L}::list_of_predicate_compliant_t<PX, K<{a}>, K<{b}>>",
                 "concat": f"concatenate_t<{L}, {tl(p, o['t'])}>",
                 "concat3": f"concatenate_t<{L}, {tl(p, o['t'])}, {L}>",
                 "concat1": f"concatenate_t<{L}>",
                 "sort": f"sort_sizeof_{'ascending' if a else 'descending'}_t<{L}>",
                 "minix": f"type_list<{L}::at<min_sizeof_index_v<{L}>>>",
                 "maxix": f"type_list<{L}::at<max_sizeof_index_v<{L}>>>"}[op].replace("typename ", "")
            if op in ("minix", "maxix"):
                cases.append(dict(code=f"long({op[:3]}_sizeof_index_v<{L}>), long({op[:3]}_sizeof_index<{L}>::value)", want=[a, a], what=f"{op} {L}"))
            else:
                cases.append(dict(ptr=f"ids<{R}>::v", code="", want=t, what=f"{R}"))
        ct.run_cases(ctx, "move-" + p["name"], prelude(p), cases, split=not ctx.thorough)
        ctx.note(f"{p['name']}: {len(cases)} transformations")
        ctx.sample({"case": cases[-1]["what"], "result": cases[-1]["want"]})


CHECKS = {"C13": c13, "C14": c14}
