------------------------------- MODULE Widths -------------------------------
(* Width selection and summed sizes (property C25).                          *)
EXTENDS Integers, Sequences, FiniteSets, Words, TLC, Json, IOUtils
VARIABLES q, op
Ws == {8, 16, 32, 64}
Width(n) == CHOOSE w \in Ws : n <= w /\ \A v \in Ws : n <= v => w <= v       \* 1 <= n <= 64
\* letters: bits counted for each
Bits == <<1, 8, 16, 24, 32, 64, 8>>       \* bool, char, short, 3-byte struct, int, double, 1-byte enum
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Bits[s[1]] + Sum(Tail(s))
Bytes(s) == (Sum(s) + 7) \div 8
More == IF "PACKS" \in DOMAIN IOEnv THEN ndJsonDeserialize(IOEnv.PACKS) ELSE <<>>
\* enumeration counts around powers of two: 2^k - 1, 2^k, 2^k + 1 as words
Pow(k) == [i \in 1..64 |-> IF i = k + 1 THEN 1 ELSE 0]
Counts == ({Pow(k) : k \in 0..63} \cup {Dec(Pow(k)) : k \in 1..63} \cup {[Pow(k) EXCEPT ![1] = 1] : k \in 1..63} \cup {[i \in 1..64 |-> 1]}) \ {Zero(64)}
Init == /\ op = "init"
        /\ \/ \E n \in 1..64 : q = <<"bits", n>>
           \/ \E n \in 1..8 : q = <<"bytes", n>>
           \/ \E b \in Counts : q = <<"enum", b>>
           \/ \E n \in 1..3 : \E s \in [1..n -> 1..Len(Bits)] : q = <<"pack", s>>
           \/ \E i \in DOMAIN More : q = <<"pack", More[i].s>>
Answer == CASE q[1] = "bits" -> <<Width(q[2])>>
            [] q[1] = "bytes" -> <<Width(8 * q[2])>>
            [] q[1] = "enum" -> <<Occupied(q[2]), Width(Occupied(q[2]))>>
            [] q[1] = "pack" -> <<Bytes(q[2])>>
Next == op = "init" /\ op' = "asked" /\ UNCHANGED q
Spec == Init /\ [][Next]_<<q, op>>
Sufficient == q[1] = "enum" => LET w == Width(Occupied(q[2])) IN \A i \in (w + 1)..64 : q[2][i] = 0
Emit == PrintT("E|" \o ToJson([k |-> q[1], q |-> (IF q[1] = "enum" THEN Limbs(q[2]) ELSE q[2]), a |-> Answer]))
=============================================================================
