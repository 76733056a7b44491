------------------------------ MODULE MemoryMC ------------------------------
(***************************************************************************)
(* Exhaustive exploration of Memory over the configurations in the file    *)
(* named by environment variable CFGS; every transition is printed as JSON *)
(* so that the harness can execute it on the real resources.               *)
(***************************************************************************)
EXTENDS Memory, Json, IOUtils

CONSTANT HMax       \* bound on allocations alive at once

VARIABLE op         \* last operation; hidden by the VIEW

Cfgs == JsonDeserialize(IOEnv.CFGS)

NoOut == [lv |-> 0, a |-> 0, n |-> 0]
O(k, r, sz, al, out, f) == [op |-> k, r |-> r, sz |-> sz, al |-> al, out |-> out, fail |-> f]
Rng(s) == {s[i] : i \in DOMAIN s}

MCInit == /\ \E c \in Rng(Cfgs) : Init(c)
          /\ op = O("init", 0, 0, 0, NoOut, 0)

Fresh == MinOf((1..(Cardinality(DOMAIN live) + 1)) \ DOMAIN live)

\* handed back but swallowed by a monotonic buffer; outside pools such a
\* region has no influence on the future beyond nx
Gone(h) == live[h].dead /\ (live[h].lv = SysLv \/ L(live[h].lv).k = "mono")

\* the system calls the rules predict for this outcome
SysOf(r, sz, out) ==
    IF sz = 0 \/ cfg.term # "sys" \/ out.lv \in 1..K THEN <<>>
    ELSE <<[k |-> "a", ok |-> out.lv = SysLv, cover |-> TRUE, a |-> out.a]>>

MCAlloc ==
    \E r \in Rng(cfg.entry), sz \in Rng(cfg.sizes), al \in Rng(cfg.als) :
       /\ Cardinality({h \in DOMAIN live : ~Gone(h)}) < HMax
       /\ \E out \in Serve(r, sz, al) :
            /\ Alloc(Fresh, r, sz, al, out, SysOf(r, sz, out))
            /\ op' = O("alloc", r, sz, al, out, IF out.lv = 0 THEN 1 ELSE 0)

MCFree ==
    \E h \in DOMAIN live :
       /\ Free(h, IF live[h].lv = SysLv /\ ~Absorbed(h)
                  THEN <<[k |-> "f", ok |-> TRUE, cover |-> TRUE, a |-> live[h].a]>> ELSE <<>>)
       /\ op' = O("free", live[h].via, 0, 0,
                  [lv |-> live[h].lv,
                   a |-> IF live[h].lv \in 1..K /\ L(live[h].lv).k = "mono" THEN -1 ELSE live[h].a,
                   n |-> live[h].n], 0)

MCRelease ==
    \E i \in 1..K : /\ Release(i, <<>>)
                    /\ op' = O("release", i, 0, 0, NoOut, 0)

MCFreeNull ==
    \E i \in 1..K : /\ FreeNull(<<>>)
                    /\ op' = O("freenull", i, 0, 0, NoOut, 0)

\* destroying and building the resource again; or the misuse of destroying a
\* busy one, which must abort
MCDestroy ==
    \E i \in 1..K : /\ IF L(i).k = "mono" THEN Release(i, <<>>) ELSE UNCHANGED vars
                    /\ op' = O(IF CanDestroy(i) THEN "rebuild" ELSE "destroybusy", i, 0, 0, NoOut, 0)

\* every wrong address near a pool
MCBad ==
    \E i \in 1..K :
       /\ L(i).k = "pool" /\ NBlocks(L(i)) > 0
       /\ \E a \in {Org(L(i)) + b * L(i).B : b \in -1..NBlocks(L(i))}
                \cup {Org(L(i)) + b * L(i).B + 2^j : b \in 0..(NBlocks(L(i)) - 1), j \in 0..(L(i).lb - 1)}
                \cup {Org(L(i)) + (b + 1) * L(i).B - 1 : b \in 0..(NBlocks(L(i)) - 1)}
                \cup {Org(L(i)) + NBlocks(L(i)) * L(i).B * k : k \in 2..3} :
            /\ Misuse(i, a)
            /\ UNCHANGED vars
            /\ op' = O("bad", i, 0, 0, [lv |-> i, a |-> a, n |-> 0], 0)

MCNext == MCAlloc \/ MCFree \/ MCRelease \/ MCFreeNull \/ MCDestroy \/ MCBad

MCSpec == MCInit /\ [][MCNext]_<<vars, op>>

\* regions of pools are told apart by place; blocks of the system or of a
\* monotonic buffer only by where they were asked for
Placed(h) == live[h].lv \in 1..K /\ L(live[h].lv).k = "pool"
Occ == {<<live[h].lv, live[h].a, live[h].n, live[h].via, live[h].dead>> : h \in {x \in DOMAIN live : Placed(x)}}
Outst == [lv \in 1..SysLv |-> [v \in 1..K |->
            Cardinality({h \in DOMAIN live : live[h].lv = lv /\ live[h].via = v /\ ~live[h].dead /\ ~Placed(h)})]]
View == <<cfg.id, Occ, Outst, nx>>

Emit == PrintT("E|" \o ToJson([s |-> View, o |-> op', t |-> View']))
=============================================================================
