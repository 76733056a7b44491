------------------------------ MODULE TypesMC -------------------------------
EXTENDS Types, Json, IOUtils
VARIABLES t, op
\* constructor sequences asked for on top of all up to depth two
More == IF "TYPES" \in DOMAIN IOEnv THEN ndJsonDeserialize(IOEnv.TYPES) ELSE <<>>
Init == /\ op = "init"
        /\ \/ \E n \in Names : t = <<n>>
           \/ \E n \in Names, a \in Constructors : t = <<n, a>>
           \/ \E n \in Names, a, b \in Constructors : t = <<n, a, b>>
           \/ \E i \in DOMAIN More : t = More[i].t
Next == op = "init" /\ op' = "asked" /\ UNCHANGED t
Spec == Init /\ [][Next]_<<t, op>>
X == Build(t)
\* sanity of the term algebra
Laws == X = Bad \/ /\ RemoveCvRef(RemoveCvRef(X)) = RemoveCvRef(X)
                   /\ Decay(Decay(X)) = Decay(X)
                   /\ IsRef(X) => ~IsRef(In(X))
                   /\ ~IsRef(RemoveCvRef(X)) /\ Quals(RemoveCvRef(X)) = {}
Emit == X # Bad => PrintT("E|" \o ToJson([t |-> t, a |-> Answers(X), self |-> X, cvref |-> RemoveCvRef(X), unwrap |-> Unwrap(X), arr |-> ArrayOf(X),
             d |-> [i \in DOMAIN Operations |-> [ok |-> B(Detect(Operations[i], X) # Bad), ty |-> DetectedOr(Operations[i], X)]]]))
=============================================================================
