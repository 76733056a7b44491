"""C27: iteration against spec/Iterate.tla."""
import json
import vf, ct
from vf import Machinery

PRE = """
#include <utils/common.h>
long gLog[256], *gAt = nullptr;
struct Base { Base() = default; Base(const Base &) = delete; Base &operator=(const Base &) = delete; };
template <int I> struct N : Base {};
template <typename T> constexpr long cat() { return std::is_lvalue_reference_v<T> ? (std::is_const_v<std::remove_reference_t<T>> ? 2 : 1) : (std::is_const_v<std::remove_reference_t<T>> ? 4 : 3); }
struct Where { const void *a[64]; long n = 0; long id(const void *p) const { for (long i = 0; i < n; ++i) if (a[i] == p) return i + 1; return -1; } };
struct Comma { template <typename T> void operator,(T &&) = delete; };
template <typename T> struct Log { long *out; const Where *w; int tag = 0;
    template <typename X> T operator()(X &&x) { out[++out[0]] = w->id(static_cast<const void *>(std::addressof(x))); out[++out[0]] = cat<X &&>(); if constexpr (!std::is_void_v<T>) return T(); }
    Log(long *o, const Where *p) : out(o), w(p) {} Log(const Log &) = delete; };
template <typename T> struct CLog { long *out; const Where *w;
    template <typename X> T operator()(X &&x) const { out[++out[0]] = w->id(static_cast<const void *>(std::addressof(x))); out[++out[0]] = cat<X &&>(); if constexpr (!std::is_void_v<T>) return T(); }
    CLog(long *o, const Where *p) : out(o), w(p) {} CLog(const CLog &) = delete; };
struct Row1 { long v[260] = {}; };
using utils::for_each_arg; using utils::for_each_in_tuple;
"""


def check(ctx):
    fn = ctx.path("more.ndjson")
    with open(fn, "w") as f:
        for _ in range(600 if ctx.thorough else 80):
            k = ctx.rng.choice(["args", "tuple"])
            n = ctx.rng.choice([3, 4, 5, 6, 8, 12, 16, 17, 20, 33, 40])
            f.write(json.dumps(dict(kind=k, els=[ctx.rng.randint(1, 4 if k == "args" else 6) for _ in range(n)], via=0 if k == "args" else ctx.rng.randint(1, 4))) + "\n")
    r = ctx.model("Iterate", f"SPECIFICATION Spec\nCONSTANTS ArgN = 3\n TupN = {3 if ctx.thorough else 2}\nINVARIANTS Ordered KeepsConst Emit\n", env={"MORE": fn})
    cases = []
    seen = set()
    for e in sorted(r.printed("E|"), key=json.dumps):
        key = json.dumps(e)
        if key in seen:
            continue
        seen.add(key)
        k, els, via, n = e["kind"], e["els"], e["via"], len(e["els"])
        c = len(cases)
        ret = ["void", "int", "Comma", "std::string"][c % 4]
        L = ["Log", "CLog"][c // 4 % 2]
        fpass = ["f", "std::move(f)", f"std::as_const(f)"][c // 8 % (3 if L == "CLog" else 2)]
        same = k == "array"
        T = lambda i: "N<0>" if same else f"N<{i % 5}>"
        b = "static Row1 r; Where w; "
        exprs = []
        if k == "args":
            for i, x in enumerate(els):
                b += f"{'const ' if x in (2, 4) else ''}{T(i)} o{i}{{}}; w.a[w.n++] = &o{i}; "
                exprs.append(f"std::move(o{i})" if x > 2 else f"o{i}")
            call = f"for_each_arg({', '.join([fpass] + exprs)});"
        else:
            args = []
            for i, d in enumerate(els):
                if d > 2:
                    b += f"{'const ' if d in (4, 6) else ''}{T(i)} o{i}{{}}; "
                    args.append(f"std::move(o{i})" if d > 4 else f"o{i}")
            ty = ", ".join({1: "{}", 2: "const {}", 3: "{}&", 4: "const {}&", 5: "{}&&", 6: "const {}&&"}[d].format(T(i)) for i, d in enumerate(els))
            if k == "array":
                b += f"{'const ' if via in (2, 4) else ''}std::array<N<0>, {n}> t{{}}; "
            else:
                refs = [d for d in els if d > 2]
                name = "std::tuple" if k == "tuple" else "std::pair"
                # elements held by value are default constructed in place: only
                # possible when all are, otherwise through a maker
                b += f"{'const ' if via in (2, 4) else ''}{name}<{ty}> t"
                if refs and len(refs) < n:
                    b += "{" + ", ".join(f"Mk<{T(i)}>{{}}" if d <= 2 else (f"std::move(o{i})" if d > 4 else f"o{i}") for i, d in enumerate(els)) + "}; "
                elif refs:
                    b += "{" + ", ".join(args) + "}; "
                else:
                    b += "{}; "
            for i in range(n):
                b += f"w.a[w.n++] = static_cast<const void *>(std::addressof(std::get<{i}>(t))); "
            call = f"for_each_in_tuple({fpass}, {'std::move(t)' if via > 2 else 't'});"
        b += f"{L}<{ret}> f(r.v, &w); {call} return static_cast<const long *>(r.v);"
        want = [v for x in e["log"] for v in x]
        cases.append(dict(decl=f"static const long *h{c}() {{ {b} }}", ptr=f"h{c}()", want=want, what=f"{k} {els} via {via}: {call} returning {ret}"))
    pre = PRE.replace("struct Row1", "template <typename T> struct Mk {}; struct Row1")
    # elements constructible from a maker, so that mixed tuples can be built
    pre = pre.replace("template <int I> struct N : Base {};", "template <typename T> struct Mk; template <int I> struct N : Base { N() = default; N(Mk<N>) {} };")
    ct.run_cases(ctx, "iterate", pre, cases)
    ctx.note(f"{len(cases)} argument lists and tuples")
    ctx.sample({"case": cases[90]["what"], "calls": cases[90]["want"]})


CHECKS = {"C27": check}
