----------------------------- MODULE ProductMC ------------------------------
(* Cartesian products of lists over letters: lst is a sequence of lists.   *)
EXTENDS ValueList, Json, IOUtils
CONSTANTS T1, T2, T3, T4, V1, V2, V3, V4
VARIABLE op
TyDef == <<T1, T2, T3, T4>>
VlDef == <<V1, V2, V3, V4>>
Lists == LET f == ndJsonDeserialize(IOEnv.LISTS) IN {f[i].s : i \in DOMAIN f}
MCInit == op = <<>> /\ lst \in Lists
MCNext == op = <<>> /\ UNCHANGED lst /\ op' = <<Product(lst)>>
MCSpec == MCInit /\ [][MCNext]_<<lst, op>>
Emit == PrintT("E|" \o ToJson([s |-> lst, r |-> op'[1]]))
\* every tuple exactly once (as many as there are choices of positions, and
\* distinct when the lists have no copies), sorted
Size == LET f[i \in 0..Len(lst)] == IF i = 0 THEN 1 ELSE f[i - 1] * Len(lst[i]) IN f[Len(lst)]
EveryTuple == LET p == Product(lst) IN
    /\ Len(p) = Size
    /\ \A k \in DOMAIN p : Len(p[k]) = Len(lst) /\ \A i \in DOMAIN lst : \E j \in DOMAIN lst[i] : lst[i][j] = p[k][i]
    /\ (\A i \in DOMAIN lst : ~HasCopies(lst[i])) => \A a, b \in DOMAIN p : a # b => p[a] # p[b]
    /\ (\A i \in DOMAIN lst : \A a, b \in DOMAIN lst[i] : a < b => lst[i][a] < lst[i][b]) =>
         \A a, b \in DOMAIN p : a < b => \E i \in DOMAIN lst : p[a][i] < p[b][i] /\ \A j \in 1..(i - 1) : p[a][j] = p[b][j]
=============================================================================
