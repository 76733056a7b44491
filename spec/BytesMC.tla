------------------------------ MODULE BytesMC -------------------------------
EXTENDS Bytes, Json
CONSTANTS Size, Depth
VARIABLES op, k
O(f, d, s, n) == [f |-> f, d |-> d, s |-> s, n |-> n]
MCInit == mem = Identity(Size) /\ code = <<-1, -2>> /\ op = O("init", 0, 0, 0) /\ k = 0
MCNext ==
  /\ k < Depth /\ k' = k + 1
  /\ \/ \E d, s \in 0..Size, n \in 0..Size : Move(d, s, n) /\ op' = O("move", d, s, n)
     \/ \E d, s \in 0..Size, n \in 0..Size : Copy(d, s, n) /\ op' = O("copy", d, s, n)
     \/ \E d \in 0..Size, n \in 0..Size : Zero(d, n) /\ op' = O("zero", d, 0, n)
     \/ \E d \in 0..Size, n \in 0..Size, null \in BOOLEAN :
           /\ ~null => In(d, n)
           /\ null => d = 0
           /\ CheckedZero(null, d, n, IF null THEN -1 ELSE IF n = 0 THEN -2 ELSE 0)
           /\ op' = O(IF null THEN "szeronull" ELSE "szero", d, 0, n)
MCSpec == MCInit /\ [][MCNext]_<<vars, op, k>>
View == <<mem, k>>
\* a move never loses the untouched part and only duplicates existing bytes
Sane == \A i \in 1..Size : mem[i] \in 0..Size
Emit == PrintT("E|" \o ToJson([s |-> mem, o |-> op', t |-> mem', k |-> k]))
=============================================================================
