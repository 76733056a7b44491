-------------------------------- MODULE Call --------------------------------
(***************************************************************************)
(* Calls to a named overload set and the callable probes (property C19).   *)
(* A function is [ps, ret, c, v, r, n, st, acc]: parameter letters, return *)
(* letter, const, volatile, reference qualifier, noexcept, static, and     *)
(* acc "public" / "private" / "deleted".  An object expression is          *)
(* [c, v, l]: const, volatile, lvalue.  Arguments are letters of their own.*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
\* parameters: 1 int 2 int& 3 const int& 4 int&& 5 double 6 S 7 const S&
\* arguments:  1 int rvalue 2 int lvalue 3 const int lvalue 4 double rvalue
\*             5 S rvalue 6 S lvalue
\* S is copied with an exception possible and moved without
None == 9
Rank(a, p) ==
    CASE a = 1 -> <<0, None, 0, 0, 1, None, None>>[p]
      [] a = 2 -> <<0, 0, 0, None, 1, None, None>>[p]
      [] a = 3 -> <<0, None, 0, None, 1, None, None>>[p]
      [] a = 4 -> <<1, None, 1, 1, 0, None, None>>[p]
      [] a = 5 -> <<None, None, None, None, None, 0, 0>>[p]
      [] a = 6 -> <<None, None, None, None, None, 0, 0>>[p]
\* between equal ranks: rvalue references before const references, plain
\* references before const references
Tie(a, p, q) == q = 3 /\ p \in {2, 4}
ArgBetter(a, p, q) == Rank(a, p) < Rank(a, q) \/ (Rank(a, p) = Rank(a, q) /\ Tie(a, p, q))

Cv(x) == (IF x.c THEN {"c"} ELSE {}) \cup (IF x.v THEN {"v"} ELSE {})
Static(f) == f.st
ObjectFits(f, o) ==
    \/ f.st
    \/ /\ Cv(o) \subseteq Cv(f)
       /\ CASE f.r = "" -> TRUE
            [] f.r = "&" -> o.l \/ (f.c /\ ~f.v)
            [] f.r = "&&" -> ~o.l
ObjectBetter(f, g, o) ==
    /\ ~f.st /\ ~g.st
    /\ IF f.r = "&&" /\ g.r = "&" THEN TRUE
       ELSE IF f.r = "&" /\ g.r = "&&" THEN FALSE
       ELSE Cv(f) # Cv(g) /\ Cv(f) \subseteq Cv(g)
Viable(f, o, as) == /\ Len(f.ps) = Len(as)
                    /\ ObjectFits(f, o)
                    /\ \A i \in DOMAIN as : Rank(as[i], f.ps[i]) # None
Better(f, g, o, as) ==
    /\ \A i \in DOMAIN as : ~ArgBetter(as[i], g.ps[i], f.ps[i])
    /\ ~ObjectBetter(g, f, o)
    /\ \/ \E i \in DOMAIN as : ArgBetter(as[i], f.ps[i], g.ps[i])
       \/ ObjectBetter(f, g, o)
Range(s) == {s[i] : i \in DOMAIN s}
\* the functions a call selects: one, or none when it is ill-formed
Selected(fs, o, as) ==
    LET via == {f \in Range(fs) : Viable(f, o, as)}
    IN  {f \in via : \A g \in via \ {f} : Better(f, g, o, as)}
CallOk(fs, o, as) == \E f \in Selected(fs, o, as) : f.acc = "public"
ArgsThrow(f, as) == \E i \in DOMAIN as : f.ps[i] = 6 /\ as[i] = 6
CallNoexcept(fs, o, as) == \E f \in Selected(fs, o, as) : f.acc = "public" /\ f.n /\ ~ArgsThrow(f, as)
\* a static call names no object; it is right when a static function is
\* selected for any implied object
Implied == {[c |-> FALSE, v |-> FALSE, l |-> x] : x \in BOOLEAN}
StaticOk(fs, as) == \A o \in Implied : \E f \in Selected(fs, o, as) : f.acc = "public" /\ f.st
StaticClear(fs, as) == StaticOk(fs, as) \/ \A o \in Implied : ~\E f \in Selected(fs, o, as) : f.st
StaticNoexcept(fs, as) == StaticOk(fs, as) /\ \A o \in Implied : CallNoexcept(fs, o, as)
\* a function of exactly this signature
Exact(fs, ret, ps, q) ==
    \E f \in Range(fs) : /\ ~f.st /\ f.acc = "public" /\ f.ret = ret /\ f.ps = ps
                         /\ f.c = q.c /\ f.v = q.v /\ f.r = q.r /\ (q.n => f.n)
ExactStatic(fs, ret, ps, n) ==
    \E f \in Range(fs) : f.st /\ f.acc = "public" /\ f.ret = ret /\ f.ps = ps /\ (n => f.n)
\* what may be declared together
Together(f, g) ==
    f.ps = g.ps => /\ ~f.st /\ ~g.st
                   /\ (f.r = "") = (g.r = "")
                   /\ <<f.c, f.v, f.r>> # <<g.c, g.v, g.r>>
WellFormed(fs) == /\ \A i, j \in DOMAIN fs : i # j => Together(fs[i], fs[j])
                  /\ \A i \in DOMAIN fs : fs[i].st => ~fs[i].c /\ ~fs[i].v /\ fs[i].r = ""
=============================================================================
