-------------------------------- MODULE Func --------------------------------
(***************************************************************************)
(* Function types and what function_traits.h says about them (C17).        *)
(* A function type is [ret, ps, c, v, r, n]: return type, parameter types, *)
(* const, volatile, reference qualifier ("", "&", "&&"), noexcept.  The    *)
(* transitions remove qualifiers.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLE f
Refs == {"", "&", "&&"}
RemoveC(g) == [g EXCEPT !.c = FALSE]
RemoveV(g) == [g EXCEPT !.v = FALSE]
RemoveR(g) == [g EXCEPT !.r = ""]
RemoveN(g) == [g EXCEPT !.n = FALSE]
Bare(g) == [g EXCEPT !.c = FALSE, !.v = FALSE, !.r = "", !.n = FALSE]
B(p) == IF p THEN 1 ELSE 0
Has(g) == <<B(g.c), B(g.v), B(g.r = "&"), B(g.r = "&&"), B(g.n)>>
\* a type as is_invocable and is_simple_functor see it: kind is
\*   "function", "pointer" (to a function), "member" (pointer to a member
\*   function), "data" (pointer to a data member), "functor" (a class with one
\*   accessible operator()), "overloaded", "template", "hidden" (operator()
\*   that cannot be named), "plain" (no operator())
Invocable(kind) == kind \in {"function", "pointer", "member", "functor"}
SimpleFunctor(kind) == kind = "functor"
=============================================================================
