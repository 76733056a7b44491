-------------------------------- MODULE Words -------------------------------
(***************************************************************************)
(* Machine words as sequences of bits, least significant first, and what   *)
(* the bit scans, counts, alignment arithmetic and shifts of the library   *)
(* mean on them (properties C21, C22, C29).  Nothing here depends on a     *)
(* width: TLC's integers are only used for positions and counts.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
\* -------------------------------------------------------------- numbers
OfInt(w, n) == [i \in 1..w |-> (n \div 2^(i - 1)) % 2]
RECURSIVE ToInt(_)
ToInt(b) == IF b = <<>> THEN 0 ELSE b[1] + 2 * ToInt(Tail(b))
\* sixteen bits to a limb, for printing and reading
Limbs(b) == [k \in 1..((Len(b) + 15) \div 16) |->
                ToInt(SubSeq(b, 16 * (k - 1) + 1, IF 16 * k > Len(b) THEN Len(b) ELSE 16 * k))]
OfLimbs(w, l) == [i \in 1..w |-> (l[((i - 1) \div 16) + 1] \div 2^((i - 1) % 16)) % 2]
Zero(w) == [i \in 1..w |-> 0]
Not(b) == [i \in 1..Len(b) |-> 1 - b[i]]
\* ---------------------------------------------------------------- scans
Ones(b) == {i \in 1..Len(b) : b[i] = 1}
Least(S) == CHOOSE i \in S : \A j \in S : i <= j
Most(S) == CHOOSE i \in S : \A j \in S : j <= i
Occupied(b) == IF Ones(b) = {} THEN 0 ELSE Most(Ones(b))
Clz(b) == Len(b) - Occupied(b)                \* b # 0
Ctz(b) == Least(Ones(b)) - 1                  \* b # 0
PopCount(b) == Cardinality(Ones(b))
IsPow2(b) == PopCount(b) = 1
\* every power of two divides zero
LowBit(b) == LET m == IF Ones(b) = {} THEN Len(b) ELSE Ctz(b) + 1
             IN  [i \in 1..Len(b) |-> IF i = m THEN 1 ELSE 0]
\* ------------------------------------------------------------ alignment
LowClear(b, k) == \A i \in 1..k : b[i] = 0
\* least multiple of 2^k not below b, as an unsigned or signed word; <<>>
\* when there is none of this width
RoundUp(b, k, signed) ==
    IF LowClear(b, k) THEN b
    ELSE LET w == Len(b)
             Z == {i \in (k + 1)..w : b[i] = 0}
             wrap == [i \in 1..w |-> 0]
         IN  IF Z = {} THEN (IF signed THEN wrap ELSE <<>>)
             ELSE LET m == Least(Z)
                      r == [i \in 1..w |-> IF i < m THEN 0 ELSE IF i = m THEN 1 ELSE b[i]]
                  IN  IF signed /\ b[w] = 0 /\ r[w] = 1 THEN <<>> ELSE r
Negate(b) == LET z == Ones(b)
             IN  IF z = {} THEN b
                 ELSE [i \in 1..Len(b) |-> IF i <= Least(z) THEN b[i] ELSE 1 - b[i]]
\* bytes to the next address that is a multiple of 2^k
Skip(b, k) == [i \in 1..Len(b) |-> IF i <= k THEN Negate(b)[i] ELSE 0]
RECURSIVE AddC(_, _, _)
AddC(a, b, c) ==
    IF a = <<>> THEN <<c>>
    ELSE <<(a[1] + b[1] + c) % 2>> \o AddC(Tail(a), Tail(b), (a[1] + b[1] + c) \div 2)
Add(a, b) == AddC(a, b, 0)                     \* one bit longer
Dec(b) == LET m == Least(Ones(b))
          IN  [i \in 1..Len(b) |-> IF i < m THEN 1 ELSE IF i = m THEN 0 ELSE b[i]]
\* exponent of the largest power of two of which every block of s bytes at a
\* multiple of 2^k contains a multiple
BlockAlign(k, s) == Occupied(Add([i \in 1..Len(s) |-> IF i = k + 1 THEN 1 ELSE 0], Dec(s))) - 1
\* --------------------------------------------------------------- shifts
ShiftLeft(b, n) == [i \in 1..Len(b) |-> IF i <= n THEN 0 ELSE b[i - n]]
ShiftRight(b, n, signed) ==
    [i \in 1..Len(b) |-> IF i + n <= Len(b) THEN b[i + n] ELSE IF signed THEN b[Len(b)] ELSE 0]
\* is the shifted value, as a number, still one of this width
LeftExact(b, n, signed) ==
    IF signed THEN \A i \in (Len(b) - n)..Len(b) : b[i] = b[Len(b)]
    ELSE \A i \in (Len(b) - n + 1)..Len(b) : b[i] = 0
=============================================================================
