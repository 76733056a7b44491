--------------------------------- MODULE Div --------------------------------
(***************************************************************************)
(* Integer division over the machine's integer types (property C24).       *)
(* Numbers are magnitudes of base-256 digits, least significant first, and *)
(* a sign; values of a type are eight bytes, sign-extended.                *)
(***************************************************************************)
EXTENDS Integers, Sequences
\* type letters: size in bytes, signedness, conversion rank
Ty == <<
  [n |-> "bool", s |-> 1, sg |-> FALSE, rank |-> 0],
  [n |-> "char", s |-> 1, sg |-> TRUE, rank |-> 1],
  [n |-> "signed char", s |-> 1, sg |-> TRUE, rank |-> 1],
  [n |-> "unsigned char", s |-> 1, sg |-> FALSE, rank |-> 1],
  [n |-> "short", s |-> 2, sg |-> TRUE, rank |-> 2],
  [n |-> "unsigned short", s |-> 2, sg |-> FALSE, rank |-> 2],
  [n |-> "char16_t", s |-> 2, sg |-> FALSE, rank |-> 2],
  [n |-> "wchar_t", s |-> 4, sg |-> TRUE, rank |-> 3],
  [n |-> "char32_t", s |-> 4, sg |-> FALSE, rank |-> 3],
  [n |-> "int", s |-> 4, sg |-> TRUE, rank |-> 3],
  [n |-> "unsigned", s |-> 4, sg |-> FALSE, rank |-> 3],
  [n |-> "long", s |-> 8, sg |-> TRUE, rank |-> 4],
  [n |-> "unsigned long", s |-> 8, sg |-> FALSE, rank |-> 4],
  [n |-> "long long", s |-> 8, sg |-> TRUE, rank |-> 5],
  [n |-> "unsigned long long", s |-> 8, sg |-> FALSE, rank |-> 5]>>
Bool == 1
TInt == 10
TUInt == 11
Unsigned(t) == t + 1                        \* of 10, 12, 14
Promote(t) == IF t >= TInt THEN t
              ELSE IF Ty[t].s < 4 \/ Ty[t].sg THEN TInt ELSE TUInt
Common(t, u) ==
    IF t = u THEN t
    ELSE LET a == Promote(t)
             b == Promote(u)
             hi == IF Ty[a].rank >= Ty[b].rank THEN a ELSE b
             sg == IF Ty[a].sg THEN a ELSE b
             us == IF Ty[a].sg THEN b ELSE a
         IN  IF a = b THEN a
             ELSE IF Ty[a].sg = Ty[b].sg THEN hi
             ELSE IF Ty[us].rank >= Ty[sg].rank THEN us
             ELSE IF Ty[sg].s > Ty[us].s THEN sg
             ELSE Unsigned(sg)
\* ------------------------------------------------------------ conversion
Neg(b) == LET f[i \in 0..Len(b)] == IF i = 0 THEN 1 ELSE IF f[i - 1] = 1 /\ b[i] = 0 THEN 1 ELSE 0   \* carry
          IN  [i \in 1..Len(b) |-> (255 - b[i] + f[i - 1]) % 256]
IsZero(b) == \A i \in DOMAIN b : b[i] = 0
\* the number a value denotes after conversion to type r
Value(b, r) ==
    LET c == SubSeq(b, 1, Ty[r].s)
        neg == Ty[r].sg /\ c[Len(c)] >= 128
    IN  IF r = Bool THEN [neg |-> FALSE, m |-> <<IF IsZero(b) THEN 0 ELSE 1>>]
        ELSE [neg |-> neg, m |-> IF neg THEN Neg(c) ELSE c]
\* ------------------------------------------------------------ arithmetic
Digit(m, i) == IF i \in DOMAIN m THEN m[i] ELSE 0
\* the digits of x*y + z; carries stay below 2^25
MulAdd(x, y, z) ==
    LET n == Len(x) + Len(y) + 1
        RECURSIVE Row(_, _)
        Row(k, i) == IF i > Len(x) THEN 0 ELSE x[i] * Digit(y, k - i + 1) + Row(k, i + 1)
        c[k \in 0..n] == IF k = 0 THEN 0 ELSE (Row(k, 1) + Digit(z, k) + c[k - 1]) \div 256
    IN  [k \in 1..n |-> (Row(k, 1) + Digit(z, k) + c[k - 1]) % 256]
Same(a, b) == \A i \in 1..(IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)) : Digit(a, i) = Digit(b, i)
Below(a, b) ==
    \E i \in 1..Len(b) : /\ Digit(a, i) < b[i]
                         /\ \A j \in (i + 1)..(IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)) : Digit(a, j) = Digit(b, j)
\* quotient and remainder of n by d, truncating toward zero
IsDivision(n, d, q, r) ==
    /\ Same(MulAdd(q.m, d.m, r.m), n.m)
    /\ Below(r.m, d.m)
    /\ ~IsZero(q.m) => q.neg = (n.neg # d.neg)
    /\ ~IsZero(r.m) => r.neg = n.neg
    /\ IsZero(q.m) => ~q.neg
    /\ IsZero(r.m) => ~r.neg
\* defined: the divisor is not zero and the quotient is a value of the type
Least(r, b) == Ty[r].sg /\ LET c == SubSeq(b, 1, Ty[r].s) IN c[Len(c)] = 128 /\ \A i \in 1..(Len(c) - 1) : c[i] = 0
MinusOne(r, b) == Ty[r].sg /\ \A i \in 1..Ty[r].s : b[i] = 255
Defined(r, n, d) == ~IsZero(Value(d, r).m) /\ ~(Least(r, n) /\ MinusOne(r, d))
\* does the value keep its number when converted to type r?  A result is
\* given as its number in r, extended to eight bytes
Fits(b, r) == LET f == IF Ty[r].sg /\ b[Ty[r].s] >= 128 THEN 255 ELSE 0
              IN  \A i \in (Ty[r].s + 1)..8 : b[i] = f
Right(r, n, d, q, m) == /\ Fits(q, r) /\ Fits(m, r)
                        /\ IsDivision(Value(n, r), Value(d, r), Value(q, r), Value(m, r))
\* ------------------------------------------------- small numbers, exactly
Abs(x) == IF x < 0 THEN -x ELSE x
Quot(n, d) == IF (n < 0) = (d < 0) THEN Abs(n) \div Abs(d) ELSE -(Abs(n) \div Abs(d))
Rem(n, d) == n - d * Quot(n, d)
=============================================================================
