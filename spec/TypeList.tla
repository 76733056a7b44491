------------------------------ MODULE TypeList ------------------------------
(***************************************************************************)
(* Lists of types (properties C13, C14).  A type is a letter; its size is  *)
(* Sz[letter].  A list is a sequence of letters; the state is one list and *)
(* the transitions are the transformations of type_list.h.  The queries    *)
(* are functions of the state.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS K,     \* letters 1..K; K + 1 is a type that never occurs
          Sz     \* <<size of letter 1, ...>>
VARIABLE lst
Letters == 1..K
Probe == 1..(K + 1)

Min(S) == CHOOSE x \in S : \A y \in S : x <= y
B(p) == IF p THEN 1 ELSE 0
Hits(s, P) == {i \in DOMAIN s : s[i] \in P}
\* zero-based index of the first element in P, the size when there is none
First(s, P) == IF Hits(s, P) = {} THEN Len(s) ELSE Min(Hits(s, P)) - 1
Count(s, P) == Cardinality(Hits(s, P))
Filter(s, P) == SelectSeq(s, LAMBDA x : x \in P)
\* element number i (from zero) among those in P
Nth(s, P, i) == Filter(s, P)[i + 1]
AllSame(s) == \A i, j \in DOMAIN s : s[i] = s[j]
HasCopies(s) == \E i, j \in DOMAIN s : i # j /\ s[i] = s[j]
ContainsAll(s, t) == \A i \in DOMAIN t : \E j \in DOMAIN s : s[j] = t[i]

Sub(s, f, c) == SubSeq(s, f + 1, f + c)
Without(s, i) == [j \in 1..(Len(s) - 1) |-> IF j <= i THEN s[j] ELSE s[j + 1]]
MinIx(s) == Min({i \in DOMAIN s : \A j \in DOMAIN s : Sz[s[i]] <= Sz[s[j]]}) - 1
MaxIx(s) == Min({i \in DOMAIN s : \A j \in DOMAIN s : Sz[s[i]] >= Sz[s[j]]}) - 1
\* the order of a stable sort: position i precedes position j
Before(s, i, j, asc) ==
    LET a == IF asc THEN Sz[s[i]] ELSE -Sz[s[i]]
        b == IF asc THEN Sz[s[j]] ELSE -Sz[s[j]]
    IN  a < b \/ (a = b /\ i < j)
Sorted(s, asc) ==
    [k \in DOMAIN s |->
        s[CHOOSE i \in DOMAIN s : Cardinality({j \in DOMAIN s : Before(s, j, i, asc)}) = k - 1]]
Min2(a, b) == IF a < b THEN a ELSE b
=============================================================================
