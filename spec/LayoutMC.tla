------------------------------ MODULE LayoutMC ------------------------------
EXTENDS Layout, TLC, Json, IOUtils
VARIABLES t, op
Sc(s) == [k |-> "scalar", s |-> s, a |-> s, m |-> <<>>]
\* a pointer to a member function has two words
Scalars == {Sc(s) : s \in {1, 2, 4, 8, 16}} \cup {[Sc(16) EXCEPT !.a = 8]}
Struct(m) == [k |-> "struct", s |-> 0, a |-> 1, m |-> m]
More == IF "TYPES" \in DOMAIN IOEnv THEN ndJsonDeserialize(IOEnv.TYPES) ELSE <<>>
Seqs(S, n) == UNION {[1..i -> S] : i \in 0..n}
Two == {Struct(m) : m \in [1..2 -> {Sc(1), Sc(2), Sc(4)}]}
Init == /\ op = "init"
        /\ \/ t \in Scalars
           \/ \E m \in Seqs(Scalars, 3) : t = Struct(m)
           \/ \E x \in Two, y \in Scalars : t = Struct(<<x, y>>) \/ t = Struct(<<y, x>>)
           \/ \E i \in DOMAIN More : t = More[i]
Next == op = "init" /\ op' = "asked" /\ UNCHANGED t
Spec == Init /\ [][Next]_<<t, op>>
\* members do not overlap and lie inside
Sane == t.k = "struct" => LET o == Offsets(t)
                          IN  /\ \A i \in DOMAIN t.m : o[i] % Align(t.m[i]) = 0 /\ o[i] + Size(t.m[i]) <= Size(t)
                              /\ \A i, j \in DOMAIN t.m : i < j => o[i] + Size(t.m[i]) <= o[j]
Emit == PrintT("E|" \o ToJson([t |-> t, p |-> Padded(t), s |-> Size(t), a |-> Align(t)]))
=============================================================================
