------------------------------ MODULE WordsMC -------------------------------
(* Every question about every word of the explored sets, with its answer.  *)
EXTENDS Words, TLC, Json, IOUtils
CONSTANTS W, Ops            \* width, and which groups of questions
VARIABLES at, op
Extra == IF "WORDS" \in DOMAIN IOEnv THEN ndJsonDeserialize(IOEnv.WORDS) ELSE <<>>
Run(i, j) == [x \in 1..W |-> IF i <= x /\ x <= j THEN 1 ELSE 0]
Two(i, j) == [x \in 1..W |-> IF x = i \/ x = j THEN 1 ELSE 0]
Structured(i) == {Run(i, j) : j \in i..W} \cup {Not(Run(i, j)) : j \in i..W} \cup {Two(i, j) : j \in i..W}
                 \cup {Zero(W)}
Few(i) == {Run(i, i), Run(1, i), Run(i, W), Not(Run(i, i)), Two(i, W), Two(1, i), Zero(W)}
          \cup {Run(1, i - 1), Not(Run(1, i - 1))}
Rand(i) == {OfLimbs(W, Extra[k].l) : k \in {k \in DOMAIN Extra : k % 64 = i - 1}}
Chunk(i) == {OfInt(W, n) : n \in (256 * (i - 1))..(256 * i - 1)}
\* "all": every word; otherwise the structured and random ones
Words(i, all, few) == (IF all THEN Chunk(i) ELSE IF few THEN Few(i) ELSE Structured(i)) \cup Rand(i)
B(x) == IF x THEN 1 ELSE 0
ScanRow(b) == <<Limbs(b), IF b = Zero(W) THEN <<>> ELSE <<Clz(b), Ctz(b)>>, Occupied(b), B(IsPow2(b)), Limbs(LowBit(b)), PopCount(b)>>
RoundRow(b) == <<Limbs(b), [k \in 1..W |-> Limbs(RoundUp(b, k - 1, FALSE))], [k \in 1..W - 1 |-> Limbs(RoundUp(b, k - 1, TRUE))]>>
SkipRow(b) == <<Limbs(b), [k \in 1..W |-> Limbs(Skip(b, k - 1))], IF b = Zero(W) THEN -1 ELSE Ctz(b)>>
BlockRow(b) == <<Limbs(b), [k \in 1..W |-> IF b = Zero(W) THEN -1 ELSE BlockAlign(k - 1, b)]>>
ShiftRow(b) == <<Limbs(b), [n \in 1..W |-> <<Limbs(ShiftLeft(b, n - 1)), Limbs(ShiftRight(b, n - 1, FALSE)), Limbs(ShiftRight(b, n - 1, TRUE)),
                                             B(LeftExact(b, n - 1, TRUE))>>]>>
Last == IF W = 16 /\ Ops = "scan" THEN 256 ELSE IF W = 8 THEN 1 ELSE W
All == W = 8 \/ (W = 16 /\ Ops = "scan")
Rows == CASE Ops = "scan" -> {ScanRow(b) : b \in Words(at, All, FALSE)}
          [] Ops = "round" -> {RoundRow(b) : b \in Words(at, All, TRUE)}
          [] Ops = "skip" -> {SkipRow(b) : b \in Words(at, All, TRUE)}
          [] Ops = "block" -> {BlockRow(b) : b \in Words(at, All, TRUE)}
          [] Ops = "shift" -> {ShiftRow(b) : b \in Words(at, All, TRUE)}
MCInit == at \in 1..Last /\ op = "init"
MCNext == op = "init" /\ op' = "asked" /\ UNCHANGED at
MCSpec == MCInit /\ [][MCNext]_<<at, op>>
Emit == PrintT("E|" \o ToJson([r |-> Rows]))
=============================================================================
