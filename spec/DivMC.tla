-------------------------------- MODULE DivMC -------------------------------
(* Every division of one-byte numbers; and the two formulations agree.       *)
EXTENDS Div, TLC, Json
VARIABLES n, op
Bytes8(x) == LET y == IF x < 0 THEN x + 256 ELSE x IN [i \in 1..8 |-> IF i = 1 THEN y ELSE IF x < 0 THEN 255 ELSE 0]
Row(x) == [d \in -128..255 |-> IF d = 0 THEN <<0, 0>> ELSE <<Quot(x, d), Rem(x, d)>>]
Flat(x) == [i \in 1..384 |-> IF i = 129 THEN <<0, 0>> ELSE <<Quot(x, i - 129), Rem(x, i - 129)>>]
Init == n \in -128..255 /\ op = "init"
Next == op = "init" /\ op' = "asked" /\ UNCHANGED n
Spec == Init /\ [][Next]_<<n, op>>
\* the byte-wise relation holds of these results and of none of their neighbours
Agree == op = "asked" => \A d \in {-128, -127, -7, -2, -1, 1, 2, 3, 16, 127, 128, 255} :
            \A q \in {Quot(n, d) + e : e \in {-1, 0, 1}}, r \in {Rem(n, d) + e : e \in {-1, 0, 1}} :
               Right(TInt, Bytes8(n), Bytes8(d), Bytes8(q), Bytes8(r)) <=> (q = Quot(n, d) /\ r = Rem(n, d))
Emit == PrintT("E|" \o ToJson([n |-> n, r |-> Flat(n)]))
=============================================================================
