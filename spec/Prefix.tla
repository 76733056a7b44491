------------------------------- MODULE Prefix -------------------------------
(***************************************************************************)
(* Prefix equality of arrays (property C23): compare position by position  *)
(* and stop at the first difference.  Elements are [class, name]: equal    *)
(* when their classes are, class 9 being equal to nothing (as NaN is).     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N
VARIABLES a, b, k, pos, equal
vars == <<a, b, k, pos, equal>>
\* 0 and 1 are equal but different objects, 3 equals nothing
Class(x) == CASE x \in {0, 1} -> 0 [] x = 2 -> 1 [] x = 3 -> 9
Eq(x, y) == Class(x) = Class(y) /\ Class(x) # 9
Init == /\ \E n \in 0..N : a \in [1..n -> 0..3] /\ b \in [1..n -> 0..3] /\ k \in 0..n
        /\ pos = 0 /\ equal = TRUE
Step == /\ pos < k /\ equal
        /\ equal' = Eq(a[pos + 1], b[pos + 1])
        /\ pos' = pos + 1
        /\ UNCHANGED <<a, b, k>>
Spec == Init /\ [][Step]_vars
Done == pos = k \/ ~equal
Exactly == Done => equal = \A i \in 1..k : Eq(a[i], b[i])
Emit == Done => PrintT("P|" \o ToJson([a |-> a, b |-> b, k |-> k, equal |-> equal]))
=============================================================================
