"""C17: function traits against spec/Func.tla."""
import itertools, json
import vf, ct
from vf import Machinery

TYPES = ["int", "const int&", "double&&", "S", "void (*)()", "S const*", "int (*)(int) noexcept", "S&", "Inc*", "char (&)[3]", "int S::*", "bool"]
RETS = ["void", "int", "S const&", "double&&", "FP", "S", "Inc*"]
PRE = """
#include <utils/function_traits.h>
struct S { int x; }; struct Inc; using FP = void (*)(int);
template <int N> struct Cls { int d; };
union Un { int d; };
using namespace utils;
namespace ft = utils::function_traits;
#define SAME(...) std::is_same_v<__VA_ARGS__>
"""


def quals(g):
    return (" const" if g["c"] else "") + (" volatile" if g["v"] else "") + (" " + g["r"] if g["r"] else "") + (" noexcept" if g["n"] else "")


def params(g):
    return ", ".join(TYPES[i - 1] if i > 0 else "" for i in g["ps"])


def ftype(g):
    return f"{RETS[g['ret'] - 1]}({params(g)}){quals(g)}"


def check(ctx):
    shapes = [(r, ()) for r in range(1, len(RETS) + 1)]
    shapes += [(1 + k % len(RETS), (t,)) for k, t in enumerate(range(1, len(TYPES) + 1))]
    pairs = list(itertools.product(range(1, len(TYPES) + 1), repeat=2))
    ctx.rng.shuffle(pairs)
    shapes += [(ctx.rng.randint(1, len(RETS)), p) for p in (pairs if ctx.thorough else pairs[:60])]
    shapes += [(ctx.rng.randint(1, len(RETS)), tuple(ctx.rng.randint(1, len(TYPES)) for _ in range(k))) for k in (3, 3, 4, 5, 8, 12, 17, 33) for _ in range(6 if ctx.thorough else 1)]
    fn = ctx.path("shapes.ndjson")
    with open(fn, "w") as f:
        for r, ps in shapes:
            f.write(json.dumps({"ret": r, "ps": list(ps)}) + "\n")
    r = ctx.model("FuncMC", "SPECIFICATION MCSpec\nVIEW View\nACTION_CONSTRAINT Emit\nINVARIANT Laws\n", env={"SHAPES": fn})
    cases, seen = [], set()
    for e in r.printed("E|"):
        g = e["s"]
        F = ftype(g)
        if (F, e["o"]) in seen:
            continue
        seen.add((F, e["o"]))
        k = len(cases)
        if e["o"] != "query":
            want = ftype(e["t"])
            code = [f"SAME(typename ft::{e['o']}<F{k}>::type, {want})"]
            if e["o"] == "remove_all_qualifiers":
                code.append(f"SAME(ft::remove_all_qualifiers_t<F{k}>, {want})")
            cases.append(dict(decl=f"using F{k} = {F};", code=", ".join(c.replace("typename ", "") for c in code), want=[1] * len(code), what=f"{e['o']}<{F}> is {want}"))
            continue
        R, P, Q = RETS[g["ret"] - 1], params(g), quals(g)
        q, want = [], []

        def ask(label, c, w):
            q.append((label, c))
            want.append(w)
        for n, w in zip(("const", "volatile", "lvalue_reference", "rvalue_reference", "noexcept"), e["h"]):
            ask(f"has_{n}_qualifier", f"ft::has_{n}_qualifier<F{k}>::value", w)
            ask(f"has_{n}_qualifier_v", f"ft::has_{n}_qualifier_v<F{k}>", w)
        ask("return_type", f"SAME(ft::return_type_t<F{k}>, {R}) && SAME(ft::return_type<F{k}>::type, {R})", 1)
        ask("params_list", f"SAME(ft::params_list_t<F{k}>, type_list<{P}>) && SAME(ft::params_list<F{k}>::type, type_list<{P}>)", 1)
        ask("signature of the function type", f"SAME(ft::signature_t<F{k}>, F{k})", 1)
        decl = f"using F{k} = {F};\nstruct O{k} {{ {R} operator()({P}){Q}; }}; struct D{k} : O{k} {{ int y; }}; union U{k} {{ int z; {R} operator()({P}){Q}; }};\n"
        decl += f"struct V{k} {{ {R} operator()({P}){Q}; void operator()(S, S, S, S, int, int){'' if not g['r'] else ' &'}; }}; struct T{k} {{ template <typename X> {R} operator()(X){Q}; }};\n"
        decl += f"class H{k} {{ {R} operator()({P}){Q}; }}; struct A{k} : O{k}, D{k} {{}}; struct W{k} : O{k} {{ using O{k}::operator(); int m; }};\n"
        for c in ("S", "Inc", "Cls<3>", "Un"):
            ask(f"member_signature of {c}", f"SAME(ft::member_signature_t<{R} ({c}::*)({P}){Q}>, F{k})", 1)
            ask(f"is_invocable pointer to member of {c}", f"ft::is_invocable_v<{R} ({c}::*)({P}){Q}>", e["k"]["member"][0])
        for c in (f"O{k}", f"D{k}", f"U{k}", f"W{k}"):
            ask(f"functor_signature {c}", f"SAME(ft::functor_signature_t<{c}>, F{k})", 1)
            ask(f"signature of functor {c}", f"SAME(ft::signature_t<{c}>, F{k})", 1)
            ask(f"is_invocable functor {c}", f"ft::is_invocable_v<{c}>", e["k"]["functor"][0])
            ask(f"is_simple_functor {c}", f"ft::is_simple_functor_v<{c}>", e["k"]["functor"][1])
        for c, kind in ((f"V{k}", "overloaded"), (f"T{k}", "template"), (f"H{k}", "hidden"), ("S", "plain"), ("Un", "plain"), ("int", "plain"), ("void", "plain"), ("int*", "plain"), ("int&", "plain")):
            ask(f"is_invocable {kind} {c}", f"ft::is_invocable_v<{c}>", e["k"][kind][0])
            ask(f"is_simple_functor {kind} {c}", f"ft::is_simple_functor<{c}>::value", e["k"][kind][1])
        ask("is_invocable function", f"ft::is_invocable_v<F{k}>", e["k"]["function"][0])
        ask("is_simple_functor function", f"ft::is_simple_functor_v<F{k}>", e["k"]["function"][1])
        if not (g["c"] or g["v"] or g["r"]):
            ask("is_invocable pointer", f"ft::is_invocable_v<F{k}*>", e["k"]["pointer"][0])
            ask("is_simple_functor pointer", f"ft::is_simple_functor_v<F{k}*>", e["k"]["pointer"][1])
            ask("data member of function pointer type", f"ft::is_invocable_v<F{k}* S::*>", e["k"]["data"][0])
            ask("member_signature of data", f"SAME(ft::member_signature_t<F{k}* S::*>, F{k}*)", 1)
        ask("is_invocable data member", "ft::is_invocable_v<int S::*>", e["k"]["data"][0])
        if not g["v"] and not g["r"] and R not in ("double&&", "S const&"):
            body = "{ " + ("" if R == "void" else "return {};") + " }"
            lam = f"[]({P}){'' if g['c'] else ' mutable'}{' noexcept' if g['n'] else ''} -> {R} {body}"
            decl += f"static auto l{k} = {lam};\n"
            ask("signature of a lambda", f"SAME(ft::signature_t<decltype(l{k})>, F{k})", 1)
            ask("functor_signature of a lambda", f"SAME(ft::functor_signature_t<decltype(l{k})>, F{k})", 1)
            ask("is_invocable lambda", f"ft::is_invocable_v<decltype(l{k})>", e["k"]["functor"][0])
        cases.append(dict(decl=decl, code=", ".join(f"long({c})" for _, c in q), want=want, what=F, labels=[a for a, _ in q]))
    ct.run_cases(ctx, "function", PRE, cases, split=not ctx.thorough)
    ctx.note(f"{len(cases)} function types and removals")
    ctx.add("queries", sum(len(c["want"]) for c in cases))
    ctx.sample({"type": cases[-1]["what"], "answers": cases[-1]["want"]})


CHECKS = {"C17": check}
