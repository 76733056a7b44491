"""C18: member probes against spec/Member.tla."""
import vf, ct

T = {1: "int", 2: "double", 3: "S", 4: "D", 5: "void", 6: "int&", 7: "const int", 8: "Any", 9: "const S&", 10: "bool"}
PRE = """
#include <utils/function_traits.h>
struct S { int x; }; struct D : S {}; struct Any { template <typename T> Any(T &&) {} };
extern int gObj;
int gObj = 0;
namespace probe {
CREATE_MEMBER_TYPE_CHECKERS(m)
CREATE_MEMBER_DATA_CHECKERS(m)
CREATE_STATIC_MEMBER_DATA_CHECKERS(m)
}
"""
TEXT = {
    "nested": "class m {};", "data": "int m;", "dconst": "const volatile int m = 1;", "darray": "char m[3];", "dfptr": "int (*m)(int);", "danon": "union { int m; float m2; };",
    "dmutable": "mutable int m;", "dclass": "S m;", "dref": "int &m = gObj;", "dbits": "int m : 3;",
    "static": "static int m;", "sconst": "static const int m = 1;", "sconstexpr": "static constexpr double m = 1;", "sarray": "static int m[2];", "sfptr": "static int (*m)(int);",
    "sinline": "inline static thread_local int m = 0;", "sref": "static int &m;",
    "method": "int m(int);", "cmethod": "virtual void m() const noexcept {}", "smethod": "static int m();", "mtmpl": "template <typename X> void m(X) {}", "ctmpl": "template <typename X> struct m {};",
    "vtmpl": "template <typename X> static constexpr int m = 1;", "enumr": "enum E { m = 3 };", "overloads": "void m(); void m(int); static int m(int, int);",
}


def decl(d):
    if d["k"] == "none":
        return ""
    return f"{d['acc']}: " + (f"using m = {T[d['t']]};" if d["k"] == "type" else TEXT[d["k"]])


def classes(c, k):
    """Declarations of class C<k>."""
    s, b = "", c["bases"]
    own = f"using B{k}_0::m;" if c["shape"] == "using" else None
    for i, x in enumerate(b):
        s += f"class B{k}_{i} {{ {decl(x['d'])} public: int other{i}; }};\n"
    if c["shape"] in ("diamond", "vdiamond"):
        v = "virtual " if c["shape"] == "vdiamond" else ""
        s += f"struct P{k} : {v}B{k}_0 {{}}; struct Q{k} : {v}B{k}_0 {{}};\n"
        bases = f"public P{k}, public Q{k}"
    elif c["shape"] == "deep":
        s += f"struct P{k} : {b[0]['inh']} B{k}_0 {{}};\n"
        bases = f"public P{k}"
    else:
        bases = ", ".join(f"{x['inh']} B{k}_{i}" for i, x in enumerate(b))
    body = f"{c['own']['acc']}: {own}" if own else decl(c["own"])
    return s + f"class C{k}{' : ' + bases if bases else ''} {{ {body} public: int another; void mm(); using mt = int; static int n; }};"


def ask(X):
    q = [(f"has_type {X}", f"probe::has_type_m_v<{X}> && probe::has_type_m<{X}>::value"), (f"has_data {X}", f"probe::has_data_m_v<{X}> && probe::has_data_m<{X}>::value"),
         (f"has_static_data {X}", f"probe::has_static_data_m_v<{X}> && probe::has_static_data_m<{X}>::value")]
    q += [(f"has_exact_type {X} {T[t]}", f"probe::has_exact_type_m_v<{X}, {T[t]}> && probe::has_exact_type_m<{X}, {T[t]}>::value") for t in range(1, 11)]
    q += [(f"has_convertible_type {X} {T[t]}", f"probe::has_convertible_type_m_v<{X}, {T[t]}> && probe::has_convertible_type_m<{X}, {T[t]}>::value") for t in range(1, 11)]
    return q


def check(ctx):
    r = ctx.model("MemberMC", "SPECIFICATION Spec\nCONSTANT Deep = 1\nACTION_CONSTRAINT Emit\nINVARIANT Exclusive\nINVARIANT Open\nINVARIANT ExactOnce\n")
    cases = []
    for k, e in enumerate(r.printed("E|")):
        q, want = ask(f"C{k}"), list(e["a"])
        if k % 7 == 0:
            q, want = q + ask(f"const C{k}"), want + list(e["a"])
        # a reference or pointer to a class has no members
        for suf in ("&", "*", "[2]")[k % 3:k % 3 + 1]:
            q, want = q + ask(f"C{k}{suf}")[:3], want + [0, 0, 0]
        cases.append(dict(decl=classes(e["c"], k), code=", ".join(f"long({c})" for _, c in q), want=want, labels=[a for a, _ in q], what=classes(e["c"], k).replace("\n", " ")))
    non = ["int", "void", "int*", "int&", "int[3]", "int()", "int() const", "void (*)(int)", "std::nullptr_t", "Ecl", "Eun", "Eun&", "Inc", "const void", "int S::*", "Inc*", "Un", "Fin"]
    n = len(cases)
    for t in non:
        q = ask(t)
        want = [0] * len(q)
        if t == "Un":
            want[1] = 1
        if t == "Fin":
            want = [1, 0, 0] + [1] + [0] * 9 + [1, 1, 0, 0, 0, 0, 1, 1, 0, 1]
        cases.append(dict(code=", ".join(f"long({c})" for _, c in q), want=want, labels=[a for a, _ in q], what=t))
    pre = PRE + "struct Inc; enum class Ecl { m }; enum Eun { m }; union Un { int m; float f; }; struct Fin final { using m = int; };\n"
    ct.run_cases(ctx, "member", pre, cases, split=False)
    ctx.note(f"{n} classes")
    ctx.add("queries", sum(len(c["want"]) for c in cases))
    ctx.sample({"class": cases[5]["what"], "answers": cases[5]["want"]})


CHECKS = {"C18": check}
