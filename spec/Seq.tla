--------------------------------- MODULE Seq --------------------------------
(* Index sequences moved by an offset (property C29).                        *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLES s, n
Shifted(x, k) == [i \in DOMAIN x |-> x[i] + k]
Init == /\ s \in UNION {[1..l -> {-3, 0, 1, 7}] : l \in 0..3} \cup {[i \in 1..m |-> i - 1] : m \in {5, 12, 40}}
        /\ n \in {-4, -1, 0, 1, 5, 87}
Next == UNCHANGED <<s, n>>
Spec == Init /\ [][Next]_<<s, n>>
Back == Shifted(Shifted(s, n), -n) = s
Emit == PrintT("E|" \o ToJson([s |-> s, n |-> n, r |-> Shifted(s, n)]))
=============================================================================
