------------------------------ MODULE DivTrace ------------------------------
(* Recorded divisions [t, u, as, got, rows], as = 0 for the common type and  *)
(* the letter of the requested type otherwise; rows are <<n, d, q, r>>.      *)
EXTENDS Div, TLC, Json, IOUtils
VARIABLES at, bad
Rec == ndJsonDeserialize(IOEnv.REC)
R(g) == IF g.as = 0 THEN Common(g.t, g.u) ELSE g.as
Conv(b, r) == Value(b, r)
Wrong(g) == LET r == R(g)
            IN  IF g.got # r THEN {0}
                ELSE {i \in DOMAIN g.rows : LET x == g.rows[i] IN ~Defined(r, x[1], x[2]) \/ ~Right(r, x[1], x[2], x[3], x[4])}
Unasked(g) == {i \in DOMAIN g.rows : ~Defined(R(g), g.rows[i][1], g.rows[i][2])}
Init == at \in DOMAIN Rec /\ bad = {-1}
Next == bad = {-1} /\ bad' = Wrong(Rec[at]) /\ UNCHANGED at
Spec == Init /\ [][Next]_<<at, bad>>
Emit == bad' # {} => PrintT("B|" \o ToJson([at |-> at, bad |-> bad', undefined |-> Unasked(Rec[at]), want |-> R(Rec[at])]))
=============================================================================
