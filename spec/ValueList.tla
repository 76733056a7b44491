----------------------------- MODULE ValueList ------------------------------
(***************************************************************************)
(* Lists of compile-time values (property C15) and cartesian products      *)
(* (C16).  A value is a letter with a type Ty[letter] and a value          *)
(* Vl[letter]; different letters differ in type or value.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS K,        \* letters 1..K; K + 1 never occurs
          NT,       \* types 1..NT; NT never occurs
          Ty, Vl
VARIABLE lst
Letters == 1..K
Probe == 1..(K + 1)
Types == 1..NT
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
B(p) == IF p THEN 1 ELSE 0
Hits(s, P) == {i \in DOMAIN s : s[i] \in P}
First(s, P) == IF Hits(s, P) = {} THEN Len(s) ELSE Min(Hits(s, P)) - 1
Count(s, P) == Cardinality(Hits(s, P))
AllSame(s) == \A i, j \in DOMAIN s : s[i] = s[j]
HasCopies(s) == \E i, j \in DOMAIN s : i # j /\ s[i] = s[j]
AllOf(s, t) == SelectSeq(s, LAMBDA x : Ty[x] = t)
HasType(s, t) == AllOf(s, t) # <<>>
Least(s, t) == CHOOSE x \in {s[i] : i \in Hits(s, {y \in Letters : Ty[y] = t})} :
                  \A i \in DOMAIN s : Ty[s[i]] = t => Vl[x] <= Vl[s[i]]
Most(s, t) == CHOOSE x \in {s[i] : i \in Hits(s, {y \in Letters : Ty[y] = t})} :
                  \A i \in DOMAIN s : Ty[s[i]] = t => Vl[x] >= Vl[s[i]]
\* all tuples of the product of ls, lexicographically, the last list fastest
RECURSIVE Product(_)
Product(ls) ==
    IF ls = <<>> THEN << <<>> >>
    ELSE LET rest == Product(Tail(ls))
             n == Len(rest)
         IN  [k \in 1..(Len(Head(ls)) * n) |->
                <<Head(ls)[((k - 1) \div n) + 1]>> \o rest[((k - 1) % n) + 1]]
=============================================================================
