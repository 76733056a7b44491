-------------------------------- MODULE Fill --------------------------------
(***************************************************************************)
(* The fill test (property C26): a block is null, or a sequence of bytes.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Long            \* longest block with one deviating byte
VARIABLES b, v, op
Alphabet == {0, 1, 128, 255}
Filled(x, y) == x # <<>> /\ \A i \in DOMAIN x : x[i] = y
\* every p-th byte deviates; a suffix deviates; a window of w bytes deviates;
\* two bytes deviate in opposite directions
Every(n, base, dev, p, at) == [i \in 1..n |-> IF i % p = at THEN dev ELSE base]
Suffix(n, base, dev, k) == [i \in 1..n |-> IF i > k THEN dev ELSE base]
Window(n, base, dev, k, w) == [i \in 1..n |-> IF i \in k..(k + w - 1) THEN dev ELSE base]
Two(n, base, i1, i2) == [i \in 1..n |-> IF i = i1 THEN base + 1 ELSE IF i = i2 THEN base - 1 ELSE base]
Sizes == {9, 15, 16, 17, 24, 31, 32, 33, 40, 48, 63, 64, 65, 100, 129, 300} \cup IF Long > 26 THEN {72, 96, 256, 511, 512, 513} ELSE {}
One(n, base, at, dev) == [i \in 1..n |-> IF i = at THEN dev ELSE base]
Init == /\ op = "init"
        /\ \/ /\ b \in UNION {[1..l -> Alphabet] : l \in 0..4} /\ v \in Alphabet
           \/ \E n \in 5..Long, base \in {0, 170} : \E at \in 0..n, dev \in {0, 1, 255} : b = One(n, base, at, dev) /\ v \in {0, 170, 255}
           \/ \E n \in {63, 64, 65, 127, 128, 129} : \E at \in {0, 1, 2, 31, 32, 33, 62, 63, 64, 65, n - 1, n} : at <= n /\ b = One(n, 85, at, 84) /\ v = 85
           \/ \E n \in {255, 256, 257, 1000, 4095, 4096, 4097, 9000} : \E at \in {0, 1, 2, n \div 2, n - 1, n} : b = One(n, 200, at, 72) /\ v = 200
           \/ \E n \in Sizes, p \in (1..17) \cup {24, 31, 32, 33, 48, 64, 128} : p <= n /\ \E at \in 0..(p - 1), w \in {85, 84} : b = Every(n, 85, 84, p, at) /\ v = w
           \/ \E n \in Sizes : \E k \in 0..n, w \in {85, 84} : b = Suffix(n, 85, 84, k) /\ v = w
           \/ \E n \in Sizes, w \in {2, 4, 8, 16} : \E k \in 1..(n - w + 1) : b = Window(n, 0, 255, k, w) /\ v = 0
           \/ \E n \in Sizes : \E i1 \in {1, 2, n \div 2}, d \in {1, 2, 4, 7, 8, 9, 16, 32} : i1 + d <= n /\ b = Two(n, 128, i1, i1 + d) /\ v \in {127, 128, 129}
Next == op = "init" /\ op' = "asked" /\ UNCHANGED <<b, v>>
Spec == Init /\ [][Next]_<<b, v, op>>
\* a filled block stays filled when shortened, and a longer one is filled
\* exactly when its parts are
Parts == Len(b) >= 2 => Filled(b, v) = (Filled(SubSeq(b, 1, 1), v) /\ Filled(Tail(b), v))
\* a block of cells of k equal bytes each is filled exactly when the block with
\* one byte for each cell is: how blocks of many gigabytes are asked about
Stretch(x, k) == [i \in 1..(k * Len(x)) |-> x[(i - 1) \div k + 1]]
Scales == Len(b) <= 4 => \A k \in 1..3 : Filled(Stretch(b, k), v) = Filled(b, v)
Emit == PrintT("E|" \o ToJson([b |-> b, v |-> v, r |-> Filled(b, v)]))
=============================================================================
