"""C24: integer division against spec/Div.tla."""
import itertools, json, os
from concurrent.futures import ThreadPoolExecutor
import vf, num
from vf import Violation, Machinery

TY = ["bool", "char", "signed char", "unsigned char", "short", "unsigned short", "char16_t", "wchar_t", "char32_t", "int", "unsigned", "long", "unsigned long", "long long", "unsigned long long"]
SIZE = [1, 1, 1, 1, 2, 2, 2, 4, 4, 4, 4, 8, 8, 8, 8]
SGN = [0, 1, 1, 0, 1, 0, 0, 1, 0, 1, 0, 1, 0, 1, 0]


def rng(t):
    b = 8 * SIZE[t]
    return (0, 1) if t == 0 else (-2 ** (b - 1), 2 ** (b - 1) - 1) if SGN[t] else (0, 2 ** b - 1)


def values(ctx, t, n):
    lo, hi = rng(t)
    v = {lo, hi, 0, 1, min(2, hi), lo + 1, hi - 1, hi // 2}
    if SGN[t]:
        v |= {-1, -2, lo // 2}
    while len(v) < min(n, hi - lo + 1):
        k = ctx.rng.randint(0, 8 * SIZE[t])
        x = ctx.rng.choice([1, -1]) * (ctx.rng.getrandbits(k) if k else 0) + ctx.rng.choice([0, 0, 1, -1])
        if lo <= x <= hi:
            v.add(x)
    return sorted(v)


def lit(t, x):
    if t in (12, 14):
        return f"static_cast<{TY[t]}>({x}ull)"
    return f"static_cast<{TY[t]}>({x}ll)" if x != -2 ** 63 else f"static_cast<{TY[t]}>(-9223372036854775807ll - 1)"


def b8(x):
    x &= 2 ** 64 - 1
    return [(x >> (8 * i)) & 255 for i in range(8)]


def conv(x, r):
    if r == 0:
        return int(x != 0)
    b = 8 * SIZE[r]
    x &= 2 ** b - 1
    return x - 2 ** b if SGN[r] and x >> (b - 1) else x


def common(t, u):
    """Only to keep undefined divisions from being executed; the
    specification decides on its own and rejects rows it calls undefined."""
    if t == u:
        return t
    pr = lambda x: x if x >= 9 else (9 if SIZE[x] < 4 or SGN[x] else 10)
    a, b = pr(t), pr(u)
    if a == b:
        return a
    rank = lambda x: (x - 9) // 2
    if SGN[a] == SGN[b]:
        return max(a, b, key=rank)
    s, u_ = (a, b) if SGN[a] else (b, a)
    return u_ if rank(u_) >= rank(s) else s if SIZE[s] > SIZE[u_] else s + 1


def c24(ctx):
    n = 40 if ctx.thorough else 12
    recs = []
    for t, u in itertools.product(range(15), repeat=2):
        kinds = [-1] + ([ctx.rng.randrange(15)] if not ctx.thorough else ctx.rng.sample(range(15), 4)) + ([t] if t == u else [])
        for a in dict.fromkeys(kinds):
            r = common(t, u) if a < 0 else a
            rows = [(x, y) for x in values(ctx, t, n) for y in values(ctx, u, n)]
            lo = rng(r)[0]
            rows = [(x, y) for x, y in rows if conv(y, r) != 0 and not (SGN[r] and conv(x, r) == lo and conv(y, r) == -1)]
            if len(rows) > 60 and not ctx.thorough:
                rows = ctx.rng.sample(rows, 60)
            if rows:
                recs.append(dict(t=t, u=u, a=a, rows=rows))
    os.makedirs(ctx.path("div"))
    pre = '#include "num.h"\n#include <utils/common.h>\ntemplate <typename T> struct tn { static constexpr int v = 0; };\n'
    pre += "".join(f"template <> struct tn<{t}> {{ static constexpr int v = {i + 1}; }};\n" for i, t in enumerate(TY))
    pre += """
template <typename D> struct of; template <typename T> struct of<utils::div_t<T>> { static constexpr int v = std::is_same_v<typename utils::div_t<T>::value_type, T> ? tn<T>::v : -1; };
template <typename A, typename T, typename U> constexpr auto dodiv(T n, U d) { if constexpr (std::is_void_v<A>) return utils::div(n, d); else return utils::div_as<A>(n, d); }
template <typename T, typename U> struct P { T n; U d; };
template <typename A, typename T, typename U, std::size_t N> constexpr auto table(const P<T, U> (&in)[N])
{
    struct { U64 q[N]; U64 m[N]; } r{};
    for (std::size_t i = 0; i < N; ++i) { auto x = dodiv<A>(in[i].n, in[i].d); r.q[i] = U64(x.quot); r.m[i] = U64(x.rem); }
    return r;
}
template <typename A, typename T, typename U, std::size_t N, typename C> void go(int g, const P<T, U> (&in)[N], const C &c)
{
    const P<T, U> *volatile p = in;
    std::printf("T %d %d\\n", g, of<decltype(dodiv<A>(in[0].n, in[0].d))>::v);
    for (std::size_t i = 0; i < N; ++i)
    {
        auto x = dodiv<A>(p[i].n, p[i].d);
        std::printf("R %llu %llu\\n", U64(x.quot), U64(x.rem));
        std::printf("C %llu %llu\\n", c.q[i], c.m[i]);
    }
}
"""
    jobs = [(cxx, c) for cxx in ("g++", "clang++") for c in range(4)]

    def one(j):
        cxx, c = j
        part = [g for g in range(len(recs)) if ctx.thorough or True][c::4]
        src = ctx.path("div", f"{cxx[0]}{c}.cpp")
        with open(src, "w") as f:
            f.write(pre)
            main = []
            for g in part:
                x = recs[g]
                A = "void" if x["a"] < 0 else TY[x["a"]]
                f.write(f"constexpr P<{TY[x['t']]}, {TY[x['u']]}> in{g}[] = {{" + ",".join(f"{{{lit(x['t'], a)},{lit(x['u'], b)}}}" for a, b in x["rows"]) + f"}};\nconstexpr auto c{g} = table<{A}>(in{g});\n")
                main.append(f"go<{A}>({g}, in{g}, c{g});")
            f.write("int main() {\nstd::setvbuf(stdout, nullptr, _IOLBF, 4096);\n" + "\n".join(main) + "\n}\n")
        exe = src[:-4]
        ctx.build(src=src, out=exe, cxx=cxx, flags=("-O1",))
        return cxx, ctx.run_code(exe, "div").splitlines()

    mc = {}

    def small():
        mc["r"] = ctx.model("DivMC", "SPECIFICATION Spec\nINVARIANT Agree\nACTION_CONSTRAINT Emit\n", workers=4)

    with ThreadPoolExecutor(9) as ex:
        fs = ex.submit(small)
        res = list(ex.map(one, jobs))
        fs.result()
    out = []
    for cxx, lines in res:
        g = None
        for ln in lines:
            w = ln.split()
            if w[0] == "T":
                g, x, i = int(w[1]), recs[int(w[1])], {"R": 0, "C": 0}
                cur = {k: dict(t=x["t"] + 1, u=x["u"] + 1, **{"as": x["a"] + 1}, got=int(w[2]), rows=[], why=f"{cxx}, {'run' if k == 'R' else 'compile'} time") for k in "RC"}
                out += cur.values()
            else:
                a, b = x["rows"][i[w[0]]]
                i[w[0]] += 1
                cur[w[0]]["rows"].append([b8(a), b8(b), b8(int(w[1])), b8(int(w[2]))])
    # one copy of equal records
    uniq = {}
    for o in out:
        k = json.dumps({a: b for a, b in o.items() if a != "why"})
        if k not in uniq:
            uniq[k] = o
        ctx.add("traces_validated_against_impl", len(o["rows"]))
    out = list(uniq.values())
    fn = ctx.path("rec.ndjson")
    with open(fn, "w") as f:
        for o in out:
            f.write(json.dumps(o) + "\n")
    r = ctx.tlc("DivTrace", "SPECIFICATION Spec\nACTION_CONSTRAINT Emit\n", env={"REC": fn}, timeout=1500)
    if r.rc or not r.complete:
        raise Machinery(r.tail())
    ctx.add("states", r.distinct)
    ctx.add("transitions", r.generated)
    ctx.note(f"{len(out)} records of {sum(len(o['rows']) for o in out)} divisions")
    for e in r.printed("B|"):
        o = out[e["at"] - 1]
        if e["undefined"]:
            raise Machinery(f"undefined division executed: {o['t']} {o['u']} {o['as']} {e['undefined'][:3]}")
        what = f"div{'_as<' + TY[o['as'] - 1] + '>' if o['as'] else ''}({TY[o['t'] - 1]}, {TY[o['u'] - 1]})"
        if 0 in e["bad"]:
            raise Violation(f"{what}: the result is not of the specified type", {"specified": TY[e["want"] - 1], "found": o["got"] and TY[o["got"] - 1], "why": o["why"]})
        i = min(e["bad"]) - 1
        v = [sum(b << (8 * k) for k, b in enumerate(z)) for z in o["rows"][i]]
        raise Violation(f"{what}: the specification rejects a recorded division ({o['why']})", {"numerator": v[0], "denominator": v[1], "quotient": v[2], "remainder": v[3], "type": TY[e["want"] - 1]})
    ctx.sample({"record": {k: out[50][k] for k in ("t", "u", "as", "got")}, "row": out[50]["rows"][0]})
    # all one-byte pairs
    ans = {e["n"]: e["r"] for e in mc["r"].printed("E|")}
    groups = []
    for T, U in itertools.product(("signed char", "unsigned char"), repeat=2):
        lo = lambda t: -128 if t[0] == "s" else 0
        rows = [((a, b), tuple(ans[a][b + 128])) for a in range(lo(T), lo(T) + 256) for b in range(lo(U), lo(U) + 256) if b and not (a == -128 and b == -1 and T == U)]
        groups.append(dict(name=f"div({T}, {U})", rows=rows, ct=65536 if ctx.thorough else 6000,
                           code=f"auto r = utils::div(static_cast<{T}>(x.a[0]), static_cast<{U}>(x.a[1])); return {{{{U64(r.quot), U64(r.rem)}}}};"))
    num.run(ctx, "bytes", "#include <utils/common.h>", groups)


CHECKS = {"C24": c24}
