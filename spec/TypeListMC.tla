----------------------------- MODULE TypeListMC -----------------------------
EXTENDS TypeList, Json, IOUtils
CONSTANTS N,          \* longest list explored completely
          What        \* "query" (C13) or "move" (C14)
VARIABLE op
CONSTANTS S1, S2, S3, S4
SzDef == <<S1, S2, S3, S4>>
Masks == SUBSET Letters
\* lists beyond N, from outside
Extra == IF "EXTRA" \in DOMAIN IOEnv THEN ndJsonDeserialize(IOEnv.EXTRA) ELSE <<>>
SeqsUpTo(n) == UNION {[1..k -> Letters] : k \in 0..n}
Code(P) == LET f[i \in 0..K] == IF i = 0 THEN 0 ELSE f[i - 1] + (IF i \in P THEN 2^(i - 1) ELSE 0) IN f[K]

\* every query on a list, in a fixed order
MaskSeq == [m \in 1..(2^K) |-> {i \in Letters : ((m - 1) \div (2^(i - 1))) % 2 = 1}]
Flat(ss) == LET f[i \in 0..Len(ss)] == IF i = 0 THEN <<>> ELSE f[i - 1] \o ss[i] IN f[Len(ss)]
Queries(s) ==
    << Len(s), B(AllSame(s)), B(HasCopies(s)) >>
    \o Flat([x \in Probe |-> <<Count(s, {x}), First(s, {x}), B(Count(s, {x}) > 0)>>])
    \o Flat([m \in DOMAIN MaskSeq |-> LET P == MaskSeq[m] IN
              << Count(s, P), First(s, P), B(Count(s, P) > 0) >>
              \o [i \in 1..Count(s, P) |-> Nth(s, P, i - 1)]])
    \* predicate with extra arguments: in A but not in B
    \o Flat([m \in DOMAIN MaskSeq |-> << First(s, MaskSeq[m] \ {1}), First(s, Letters \ MaskSeq[m]) >>])
    \o s
    \o Flat([x \in Probe |-> [y \in Probe |-> B(ContainsAll(s, <<x, y>>))]])
    \o << B(ContainsAll(s, <<>>)), B(ContainsAll(s, s)), B(ContainsAll(s, [i \in 1..K |-> i])) >>
    \o [x \in Probe |-> B(ContainsAll(s, <<x>>))]

O(k, a, b, t) == [op |-> k, a |-> a, b |-> b, t |-> t]
MCInit == /\ op = O("init", 0, 0, <<>>)
          /\ \/ lst \in SeqsUpTo(N)
             \/ \E i \in DOMAIN Extra : lst = Extra[i].s
Moves ==
  \/ \E f, c \in 0..Len(lst) : f + c <= Len(lst) /\ (f < Len(lst) \/ Len(lst) = 0) /\ lst' = Sub(lst, f, c) /\ op' = O("sublist", f, c, <<>>)
  \/ \E i \in 0..(Len(lst) - 1) : lst' = Without(lst, i) /\ op' = O("exclude", i, 0, <<>>)
  \/ \E P \in Masks : lst' = Filter(lst, P) /\ op' = O("filter", Code(P), -1, <<>>)
  \/ \E P \in Masks, x \in Letters : lst' = Filter(lst, P \ {x}) /\ op' = O("filter", Code(P), Code({x}), <<>>)
  \/ \E t \in SeqsUpTo(2) : lst' = lst \o t /\ op' = O("concat", 0, 0, t)
  \/ \E t \in SeqsUpTo(1) : lst' = lst \o t \o lst /\ op' = O("concat3", 0, 0, t)
  \/ lst' = lst /\ op' = O("concat1", 0, 0, <<>>)
  \/ \E d \in BOOLEAN : lst' = Sorted(lst, d) /\ op' = O("sort", B(d), 0, <<>>)
  \/ lst # <<>> /\ lst' = Sub(lst, MinIx(lst), 1) /\ op' = O("minix", MinIx(lst), 0, <<>>)
  \/ lst # <<>> /\ lst' = Sub(lst, MaxIx(lst), 1) /\ op' = O("maxix", MaxIx(lst), 0, <<>>)
Look == UNCHANGED lst /\ op' = O("query", 0, 0, Queries(lst))
MCNext == op.op = "init" /\ IF What = "query" THEN Look ELSE Moves
MCSpec == MCInit /\ [][MCNext]_<<lst, op>>
View == <<lst, op>>
Emit == PrintT("E|" \o ToJson([s |-> lst, o |-> op', r |-> lst']))
\* what the transformations have to satisfy by themselves
SortIsStablePermutation ==
    \A d \in BOOLEAN : LET t == Sorted(lst, d) IN
        /\ Len(t) = Len(lst)
        /\ \A x \in Letters : Count(t, {x}) = Count(lst, {x})
        /\ \A i \in 1..(Len(t) - 1) : IF d THEN Sz[t[i]] <= Sz[t[i + 1]] ELSE Sz[t[i]] >= Sz[t[i + 1]]
        /\ \A z \in {Sz[x] : x \in Letters} : Filter(t, {x \in Letters : Sz[x] = z}) = Filter(lst, {x \in Letters : Sz[x] = z})
FilterIsNth == \A P \in Masks : \A i \in 0..(Count(lst, P) - 1) : Nth(lst, P, i) = Filter(lst, P)[i + 1] /\ First(lst, P) < Len(lst)
=============================================================================
