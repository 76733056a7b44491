----------------------------- MODULE DefaultMC ------------------------------
(* Sequential histories over slots, printed edge by edge for replay. *)
EXTENDS Default, Json
CONSTANTS NRes, Units
VARIABLE op
O(k, tu, s, x, y) == [op |-> k, tu |-> tu, s |-> s, x |-> x, y |-> y]
\* slots 1, 2 are allocators, 3 a pool, 4 a monotonic buffer
Res == 1..NRes
MCInit == Init /\ op = O("init", 0, 0, 0, 0)
MCNext ==
    \E tu \in Units :
      \/ \E v \in Res : Set(v, def) /\ op' = O("set", tu, 0, v, def)
      \/ Get(def) /\ op' = O("get", tu, 0, 0, def)
      \/ \E s \in Slots, u \in {0, 3} : Build(s, u) /\ op' = O("build", tu, s, u, 0)
      \/ \E s \in Slots : cap[s] # 0 /\ Use(s, cap[s]) /\ op' = O("use", tu, s, 0, cap[s])
      \/ Copy(1, 2) /\ op' = O("copy", tu, 1, 2, 0)
      \/ cap[2] = 0 /\ cap[3] = 0 /\ UNCHANGED vars /\ op' = O("eq", tu, 1, def, 0)
MCSpec == MCInit /\ [][MCNext]_<<vars, op>>
View == <<def, cap>>
Bound == \A s \in Slots : cap[s] \in 0..NRes
Emit == PrintT("E|" \o ToJson([s |-> View, o |-> op', t |-> View']))
=============================================================================
