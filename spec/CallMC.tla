------------------------------- MODULE CallMC -------------------------------
EXTENDS Call, Json, IOUtils
VARIABLES fs, op
vars == <<fs, op>>
Given == LET g == ndJsonDeserialize(IOEnv.SETS) IN {g[i].fs : i \in DOMAIN g}
Objects == << [c |-> FALSE, v |-> FALSE, l |-> FALSE], [c |-> FALSE, v |-> FALSE, l |-> TRUE],
              [c |-> TRUE, v |-> FALSE, l |-> FALSE], [c |-> TRUE, v |-> FALSE, l |-> TRUE],
              [c |-> FALSE, v |-> TRUE, l |-> FALSE], [c |-> FALSE, v |-> TRUE, l |-> TRUE],
              [c |-> TRUE, v |-> TRUE, l |-> FALSE], [c |-> TRUE, v |-> TRUE, l |-> TRUE] >>
ArgLists == << <<>>, <<1>>, <<2>>, <<3>>, <<4>>, <<5>>, <<6>>, <<1, 2>>, <<2, 3>>, <<1, 4>> >>
Quals == << [c |-> FALSE, v |-> FALSE, r |-> "", n |-> FALSE] >>
B(p) == IF p THEN 1 ELSE 0
Flat(ss) == LET h[i \in 0..Len(ss)] == IF i = 0 THEN <<>> ELSE h[i - 1] \o ss[i] IN h[Len(ss)]
AllQ == [k \in 1..24 |-> [c |-> k % 2 = 0, v |-> ((k - 1) \div 2) % 2 = 1,
                          r |-> << "", "&", "&&" >>[(((k - 1) \div 4) % 3) + 1], n |-> k > 12]]
\* signatures asked for: those of the functions, and each with another return type
Sigs == [k \in 1..(2 * Len(fs)) |-> LET f == fs[((k - 1) \div 2) + 1]
                                    IN [ret |-> IF k % 2 = 1 THEN f.ret ELSE (f.ret % 4) + 1, ps |-> f.ps]]
MemberAnswers ==
    Flat([o \in DOMAIN Objects |-> Flat([a \in DOMAIN ArgLists |->
        << B(CallOk(fs, Objects[o], ArgLists[a])), B(CallNoexcept(fs, Objects[o], ArgLists[a])) >>])])
    \o Flat([s \in DOMAIN Sigs |-> [q \in 1..24 |-> B(Exact(fs, Sigs[s].ret, Sigs[s].ps, AllQ[q]))]])
    \o Flat([s \in DOMAIN Sigs |-> << B(ExactStatic(fs, Sigs[s].ret, Sigs[s].ps, FALSE)), B(ExactStatic(fs, Sigs[s].ret, Sigs[s].ps, TRUE)) >>])
    \* static calls; 2 where compilers may pick either kind of function
    \o Flat([a \in DOMAIN ArgLists |-> IF StaticClear(fs, ArgLists[a])
              THEN << B(StaticOk(fs, ArgLists[a])), B(StaticNoexcept(fs, ArgLists[a])) >> ELSE <<2, 2>>])
\* the same set as free functions (all static): call, noexcept call, and both
\* with each return type
Free == \A i \in DOMAIN fs : fs[i].st /\ fs[i].acc # "private"
FreeAnswers ==
    LET o == Objects[1] IN
    Flat([a \in DOMAIN ArgLists |-> LET as == ArgLists[a]
           IN << B(CallOk(fs, o, as)), B(CallNoexcept(fs, o, as)) >>
              \o Flat([t \in 1..4 |-> << B(\E f \in Selected(fs, o, as) : f.acc = "public" /\ f.ret = t),
                                         B(\E f \in Selected(fs, o, as) : f.acc = "public" /\ f.ret = t /\ CallNoexcept(fs, o, as)) >>])])
Init == op = <<>> /\ fs \in {g \in Given : WellFormed(g)}
Next == op = <<>> /\ UNCHANGED fs /\ op' = << MemberAnswers, IF Free THEN FreeAnswers ELSE <<>>, Sigs >>
Spec == Init /\ [][Next]_vars
Emit == PrintT("E|" \o ToJson([fs |-> fs, m |-> op'[1], f |-> op'[2], g |-> op'[3]]))
\* at most one function is selected
One == \A o \in DOMAIN Objects, a \in DOMAIN ArgLists : Cardinality(Selected(fs, Objects[o], ArgLists[a])) <= 1
=============================================================================
