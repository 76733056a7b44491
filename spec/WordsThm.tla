------------------------------ MODULE WordsThm ------------------------------
(* The definitions of Words, checked against arithmetic on small words.     *)
EXTENDS Words
VARIABLE st
\* the same, word for word
Contains(p, s, m) == \E x \in p..(p + s - 1) : x % 2^m = 0
BlockAlignDef(k, s) == Most({m \in 0..7 : \A q \in 0..(2^(8 - k)) : Contains(q * 2^k, s, m)})
ASSUME \A k \in 0..4, s \in 1..40 : BlockAlign(k, OfInt(8, s)) = BlockAlignDef(k, s)
ASSUME \A n \in 0..255, k \in 0..7 :
          LET r == RoundUp(OfInt(8, n), k, FALSE)
              M == {x \in n..255 : x % 2^k = 0}
          IN  /\ (r = <<>>) = (M = {})
              /\ M # {} => ToInt(r) = Least(M)
              /\ ToInt(Skip(OfInt(8, n), k)) = Least({x \in 0..255 : (n + x) % 2^k = 0})
ASSUME \A n \in 1..255 : /\ 2^Ctz(OfInt(8, n)) = ToInt(LowBit(OfInt(8, n)))
                         /\ n % 2^Ctz(OfInt(8, n)) = 0 /\ n % 2^(Ctz(OfInt(8, n)) + 1) # 0
                         /\ 2^(Occupied(OfInt(8, n)) - 1) <= n /\ n < 2^Occupied(OfInt(8, n))
Signed(b) == ToInt(b) - (IF b[Len(b)] = 1 THEN 2^Len(b) ELSE 0)
Floor(x, y) == IF x >= 0 THEN x \div y ELSE -((-x + y - 1) \div y)
ASSUME \A n \in 0..255, k \in 0..7 :
          /\ ToInt(ShiftLeft(OfInt(8, n), k)) = (n * 2^k) % 256
          /\ LeftExact(OfInt(8, n), k, FALSE) = (n * 2^k < 256)
          /\ LeftExact(OfInt(8, n), k, TRUE) = (Signed(OfInt(8, n)) * 2^k \in -128..127)
          /\ ToInt(ShiftRight(OfInt(8, n), k, FALSE)) = n \div 2^k
          /\ Signed(ShiftRight(OfInt(8, n), k, TRUE)) = Floor(Signed(OfInt(8, n)), 2^k)
Init == st = 0
Next == UNCHANGED st
Spec == Init /\ [][Next]_st
=============================================================================
