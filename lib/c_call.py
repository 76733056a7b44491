"""C19: callable probes against spec/Call.tla."""
import itertools, json
import vf, ct
from vf import Machinery

P = ["int", "int&", "const int&", "int&&", "double", "S", "const S&"]
A = ["int", "int&", "const int&", "double", "S", "S&"]
R = ["void", "int", "double", "int&"]
ARGS = [[], [1], [2], [3], [4], [5], [6], [1, 2], [2, 3], [1, 4]]
OBJ = [c + "%s" + l for c in ("", "const ", "volatile ", "const volatile ") for l in ("", "&")]
PRE = """
#include <utils/function_traits.h>
struct S { S(); S(const S &) noexcept(false); S(S &&) noexcept; ~S(); };
struct Inc; enum Eun { m_ };
namespace probe {
CREATE_METHOD_CHECKERS(m)
CREATE_R_METHOD_CHECKERS(m)
CREATE_STATIC_METHOD_CHECKERS(m)
}
"""


def q_of(k):
    """Qualifiers number k (1..24) as in CallMC!AllQ."""
    return dict(c=k % 2 == 0, v=((k - 1) // 2) % 2 == 1, r=["", "&", "&&"][((k - 1) // 4) % 3], n=k > 12)


def suffix(q):
    return ("_const" if q["c"] else "") + ("_volatile" if q["v"] else "") + {"": "", "&": "_ref", "&&": "_rref"}[q["r"]] + ("_noexcept" if q["n"] else "")


def ps(f):
    return ", ".join(P[x - 1] for x in f["ps"])


def member(f):
    return f"{'private' if f['acc'] == 'private' else 'public'}: {'static ' if f['st'] else ''}{R[f['ret'] - 1]} m({ps(f)})" + (" const" if f["c"] else "") + (" volatile" if f["v"] else "") + \
        (" " + f["r"] if f["r"] else "") + (" noexcept" if f["n"] else "") + (" = delete;" if f["acc"] == "deleted" else ";")


def both(name, args):
    return f"probe::{name}_v<{args}> && probe::{name}<{args}>::value"


def asks(X, sigs):
    q = []
    for o in OBJ:
        T = o % X
        for a in ARGS:
            args = ", ".join([T] + [A[x - 1] for x in a])
            q += [(f"call {args}", both("has_invocable_m", args)), (f"noexcept call {args}", both("has_invocable_m_noexcept", args))]
    for s in sigs:
        for k in range(1, 25):
            n = "has_invocable_r_m" + suffix(q_of(k))
            args = ", ".join([R[s["ret"] - 1], X] + [P[x - 1] for x in s["ps"]])
            q.append((f"{n} {args}", both(n, args)))
    for s in sigs:
        args = ", ".join([R[s["ret"] - 1], X] + [P[x - 1] for x in s["ps"]])
        q += [(f"static signature {args}", both("has_static_invocable_r_m", args)), (f"static noexcept signature {args}", both("has_static_invocable_r_m_noexcept", args))]
    for a in ARGS:
        args = ", ".join([X] + [A[x - 1] for x in a])
        q += [(f"static call {args}", both("has_static_invocable_m", args)), (f"static noexcept call {args}", both("has_static_invocable_m_noexcept", args))]
    return q


def fasks(k):
    # a name of its own per set: g++ may confuse alias templates of different
    # namespaces that are spelled alike
    q = []
    for a in ARGS:
        args = ", ".join(A[x - 1] for x in a)
        pre = f"fr{k}::"
        b = lambda n, ar: f"{pre}{n}_v<{ar}> && {pre}{n}<{ar}>::value"
        q += [(f"free call ({args})", b(f"is_m{k}_invocable", args)), (f"free noexcept call ({args})", b(f"is_m{k}_noexcept_invocable", args))]
        for r in R:
            ar = ", ".join([r] + [A[x - 1] for x in a])
            q += [(f"free call {r} ({args})", b(f"is_m{k}_invocable_r", ar)), (f"free noexcept call {r} ({args})", b(f"is_m{k}_noexcept_invocable_r", ar))]
    return q


def check(ctx):
    lists = [[], [1], [2], [3], [4], [5], [6], [7], [1, 3], [3, 2], [4, 5]]
    F = lambda p, q, st, acc="public": dict(ps=p, ret=ctx.rng.randint(1, 4), c=q["c"], v=q["v"], r=q["r"], n=q["n"], st=st, acc=acc)
    pool = [F(p, q_of(k), False) for p in lists for k in range(1, 25)] + [F(p, q_of(k), True) for p in lists for k in (1, 13)]
    singles = pool if ctx.thorough else [f for i, f in enumerate(pool) if f["ps"] in ([], [3]) or f["st"] or i % 3 == ctx.seed % 3]
    singles = singles + [F(p, q_of(k), st, acc) for acc in ("private", "deleted") for p in ([], [1]) for k in (1, 2, 6, 14) for st in (False, True) if not st or k == 1]
    sets = [[]] + [[f] for f in singles]
    hidden = lambda f: dict(f, acc=ctx.rng.choice(["private", "deleted"])) if ctx.rng.random() < 0.12 else f
    # overload sets: on qualifiers, on parameters, on both
    together = lambda f, g: f["ps"] != g["ps"] or (not f["st"] and not g["st"] and (f["r"] == "") == (g["r"] == "") and (f["c"], f["v"], f["r"]) != (g["c"], g["v"], g["r"]))
    want = 1500 if ctx.thorough else 220
    while len(sets) < len(singles) + 1 + want:
        n = ctx.rng.choice([2, 2, 3, 4])
        base = ctx.rng.choice(lists)
        fs = []
        for _ in range(n):
            g = ctx.rng.choice(pool)
            if ctx.rng.random() < 0.5:
                g = dict(g, ps=base)
            g = hidden(g)
            if all(together(g, f) for f in fs):
                fs.append(g)
        if len(fs) > 1:
            sets.append(fs)
    # overload sets of free functions
    stat = [f for f in pool if f["st"]]
    for _ in range(300 if ctx.thorough else 60):
        fs = []
        for _ in range(ctx.rng.choice([2, 3])):
            g = ctx.rng.choice(stat)
            if all(together(g, f) for f in fs):
                fs.append(dict(g, ret=ctx.rng.randint(1, 4)))
        sets.append(fs)
    fn = ctx.path("sets.ndjson")
    with open(fn, "w") as f:
        for s in sets:
            f.write(json.dumps({"fs": s}) + "\n")
    r = ctx.model("CallMC", "SPECIFICATION Spec\nACTION_CONSTRAINT Emit\nINVARIANT One\n", env={"SETS": fn}, timeout=900)
    cases = []
    for k, e in enumerate(sorted(r.printed("E|"), key=json.dumps)):
        body = " ".join(member(f) for f in e["fs"])
        decl = f"class C{k} {{ {body} public: int other; void mm(); }}; struct D{k} : C{k} {{ int more; }};"
        # clang forgets access when an overload set is named through a derived class
        X = f"D{k}" if k % 4 == 3 and not any(f["acc"] == "private" for f in e["fs"]) else f"C{k}"
        q = [z for z in zip(asks(X, e["g"]), e["m"]) if z[1] != 2]
        if len(asks(X, e["g"])) != len(e["m"]):
            raise Machinery("questions and specification out of step")
        cases.append(dict(decl=decl, code=", ".join(f"long({c})" for (_, c), _ in q), want=[w for _, w in q], labels=[a for (a, _), _ in q], what=decl))
        if e["f"]:
            fd = " ".join(f"{R[f['ret'] - 1]} m{k}({ps(f)}){' noexcept' if f['n'] else ''}{' = delete' if f['acc'] == 'deleted' else ''};" for f in e["fs"])
            q = fasks(k)
            cases.append(dict(decl=f"namespace fr{k} {{ {fd} CREATE_FREE_FUNCTION_CHECKERS(m{k}) }}", code=", ".join(f"long({c})" for _, c in q), want=e["f"], labels=[a for a, _ in q], what="free: " + fd))
    # types without any such member; and a name found through the arguments only
    n = len(cases)
    for t in ("int", "void", "int*", "S", "Inc", "Eun", "int()", "int[2]", "std::nullptr_t", "void (*)()"):
        q = [("call", f"probe::has_invocable_m_v<{t}> || probe::has_invocable_m_v<{t}, int> || probe::has_invocable_m_noexcept_v<{t}>"),
             ("signature", " || ".join(f"probe::has_invocable_r_m{suffix(q_of(k))}_v<void, {t}>" for k in range(1, 25)) if t != "Inc" or True else "false"),
             ("static", f"probe::has_static_invocable_m_v<{t}> || probe::has_static_invocable_m_noexcept_v<{t}> || probe::has_static_invocable_r_m_v<void, {t}> || probe::has_static_invocable_r_m_noexcept_v<void, {t}>")]
        cases.append(dict(code=", ".join(f"long({c})" for _, c in q), want=[0, 0, 0], labels=[a for a, _ in q], what=t))
    cases.append(dict(decl="namespace adl { struct X {}; int far(X) noexcept; void far(X, int); } namespace frfar { CREATE_FREE_FUNCTION_CHECKERS(far) }",
                      code="frfar::is_far_invocable_v<adl::X>, frfar::is_far_noexcept_invocable_v<adl::X>, frfar::is_far_invocable_v<adl::X, int>, frfar::is_far_noexcept_invocable_v<adl::X, int>, "
                           "frfar::is_far_invocable_r_v<int, adl::X>, frfar::is_far_invocable_r_v<long, adl::X>, frfar::is_far_noexcept_invocable_r_v<void, adl::X, int>, frfar::is_far_invocable_r_v<void, adl::X, int>, frfar::is_far_invocable_v<S>",
                      want=[1, 1, 1, 0, 1, 0, 0, 1, 0], what="free function found through its argument"))
    cases.append(dict(decl="struct Ptr { int (*m)(int) noexcept; }; struct Fun { struct G { int operator()(int) const; } m; };",
                      code=", ".join(f"long({c})" for c in ("probe::has_invocable_m_v<Ptr, int>", "probe::has_invocable_m_v<const Ptr &, int &>", "probe::has_invocable_m_noexcept_v<Ptr, int>", "probe::has_invocable_m_v<Ptr>",
                                                            "probe::has_invocable_r_m_v<int, Ptr, int>", "probe::has_invocable_m_v<Fun, int>", "probe::has_invocable_m_v<volatile Fun, int>", "probe::has_invocable_m_noexcept_v<Fun, int>",
                                                            "probe::has_invocable_r_m_const_v<int, Fun, int>")),
                      want=[1, 1, 1, 0, 0, 1, 0, 0, 0], what="callable data members"))
    ct.run_cases(ctx, "call", PRE, cases, split=not ctx.thorough)
    ctx.note(f"{n} overload sets")
    ctx.add("queries", sum(len(c["want"]) for c in cases))
    ctx.sample({"set": cases[40]["what"], "answers": cases[40]["want"][:60]})


CHECKS = {"C19": check}
