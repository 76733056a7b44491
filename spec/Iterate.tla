------------------------------- MODULE Iterate ------------------------------
(***************************************************************************)
(* Applying a function to arguments and tuple elements (property C27).     *)
(* An element is visited as an expression: 1 lvalue, 2 const lvalue,       *)
(* 3 rvalue, 4 const rvalue.  A tuple element is declared 1 T, 2 const T,  *)
(* 3 T&, 4 const T&, 5 T&&, 6 const T&&; the tuple itself is such an       *)
(* expression.  The state is the list of calls made so far.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS ArgN, TupN
VARIABLES kind, els, via, log
More == IF "MORE" \in DOMAIN IOEnv THEN ndJsonDeserialize(IOEnv.MORE) ELSE <<>>
Const(e) == e \in {2, 4}
Element(d, e) ==
    CASE d = 1 -> e
      [] d = 2 -> IF e \in {1, 2} THEN 2 ELSE 4
      [] d = 3 -> 1
      [] d = 4 -> 2
      [] d = 5 -> IF e \in {1, 2} THEN 1 ELSE 3
      [] d = 6 -> IF e \in {1, 2} THEN 2 ELSE 4
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Init == /\ log = <<>>
        /\ \/ kind = "args" /\ els \in Seqs(1..4, ArgN) /\ via = 0
           \/ kind = "tuple" /\ els \in Seqs(1..6, TupN) /\ via \in 1..4
           \/ kind = "pair" /\ els \in [1..2 -> 1..6] /\ via \in 1..4
           \/ kind = "array" /\ els \in {[i \in 1..n |-> 1] : n \in {0, 1, 2, 5}} /\ via \in 1..4
           \/ \E i \in DOMAIN More : kind = More[i].kind /\ els = More[i].els /\ via = More[i].via
\* one call: the next element, as the expression it is
Call == /\ Len(log) < Len(els)
        /\ LET i == Len(log) + 1
           IN  log' = Append(log, <<i, IF kind = "args" THEN els[i] ELSE Element(els[i], via)>>)
        /\ UNCHANGED <<kind, els, via>>
Spec == Init /\ [][Call]_<<kind, els, via, log>>
\* in order, none twice; a const tuple or element is never visited as mutable
Ordered == \A i \in DOMAIN log : log[i][1] = i
KeepsConst == \A i \in DOMAIN log : LET d == els[i] IN (kind # "args" /\ d \in {2, 4, 6}) => Const(log[i][2])
Done == Len(log) = Len(els)
Emit == Done => PrintT("E|" \o ToJson([kind |-> kind, els |-> els, via |-> via, log |-> log]))
=============================================================================
