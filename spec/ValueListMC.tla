---------------------------- MODULE ValueListMC -----------------------------
EXTENDS ValueList, Json, IOUtils
CONSTANTS N, T1, T2, T3, T4, V1, V2, V3, V4, Ordered
VARIABLE op
TyDef == <<T1, T2, T3, T4>>
VlDef == <<V1, V2, V3, V4>>
Extra == IF "EXTRA" \in DOMAIN IOEnv THEN ndJsonDeserialize(IOEnv.EXTRA) ELSE <<>>
SeqsUpTo(n) == UNION {[1..k -> Letters] : k \in 0..n}
Flat(ss) == LET f[i \in 0..Len(ss)] == IF i = 0 THEN <<>> ELSE f[i - 1] \o ss[i] IN f[Len(ss)]
Queries(s) ==
    << Len(s), B(AllSame(s)), B(AllSame(s)), B(HasCopies(s)) >>
    \o Flat([x \in Probe |-> <<Count(s, {x}), First(s, {x}), B(Count(s, {x}) > 0), B(Count(s, {x}) > 0)>>])
    \o s \o [i \in DOMAIN s |-> Ty[s[i]]]
    \o Flat([t \in Types |-> <<B(HasType(s, t)), Len(AllOf(s, t))>> \o AllOf(s, t)
                             \o (IF Ordered = 1 /\ HasType(s, t) THEN <<Least(s, t), Most(s, t)>> ELSE <<>>)])
    \o s \o s \o s      \* concatenated with itself, and as a sole argument
\* lists of reference elements: identity and types only
Basic(s) == <<Len(s)>> \o s \o [i \in DOMAIN s |-> Ty[s[i]]] \o Flat([t \in Types |-> <<B(HasType(s, t))>>])
O(k, t) == [op |-> k, t |-> t]
MCInit == /\ op = O("init", <<>>)
          /\ \/ lst \in SeqsUpTo(N)
             \/ \E i \in DOMAIN Extra : lst = Extra[i].s
MCNext == op.op = "init" /\ UNCHANGED lst /\ op' = O("query", IF Ordered = 2 THEN Basic(lst) ELSE Queries(lst))
MCSpec == MCInit /\ [][MCNext]_<<lst, op>>
View == <<lst, op>>
Emit == PrintT("E|" \o ToJson([s |-> lst, o |-> op']))
=============================================================================
