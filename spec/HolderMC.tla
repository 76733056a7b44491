------------------------------ MODULE HolderMC ------------------------------
EXTENDS Holder, Json
VARIABLE op
O(k, d, s, x, th) == [op |-> k, d |-> d, s |-> s, x |-> x, th |-> IF th THEN 1 ELSE 0]
P(k, to, kind, from) == <<[k |-> k, to |-> to, kind |-> kind, from |-> from, same |-> TRUE]>>
MCInit == Init /\ op = O("init", 0, 0, 0, FALSE)
MCNext ==
  \/ \E i \in Slots, k \in Fwd, th \in BOOLEAN, how \in 0..1 : (how = 1 => k = 0) /\ Make(i, k, th, th, P("ctor", i, k, 0)) /\ op' = O("make", i, how, k, th)
  \/ \E i \in Slots, s \in Slots \cup {Ext}, k \in {CopyK, MoveK}, th \in BOOLEAN, how \in 0..1 :
        /\ how = 1 => k = CopyK     \* from a non-const lvalue
        /\ NewFrom(i, s, k, th, th, P("ctor", i, k, s)) /\ op' = O(IF how = 0 THEN "newfrom" ELSE "newfromlv", i, s, k, th)
  \/ \E i \in Slots, s \in Slots \cup {Ext}, k \in {CopyK, MoveK}, th \in BOOLEAN, how \in 0..1 :
        /\ how = 1 => k = CopyK
        /\ Assign(i, s, k, th, th, P("assign", i, k, s)) /\ op' = O(IF how = 0 THEN "assign" ELSE "assignlv", i, s, k, th)
  \/ \E i \in Slots : Drop(i, P("dtor", i, 0, 0)) /\ op' = O("drop", i, 0, 0, FALSE)
  \/ \E i \in Slots, v \in {60, 61, 62} : Write(i, v, <<>>) /\ op' = O("write", i, 0, v, FALSE)
MCSpec == MCInit /\ [][MCNext]_<<vars, op>>
View == obj
Emit == PrintT("E|" \o ToJson([s |-> View, o |-> op', t |-> View']))
=============================================================================
