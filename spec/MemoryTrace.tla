---------------------------- MODULE MemoryTrace -----------------------------
(***************************************************************************)
(* Trace validation: every line of the file named by TRACES is one         *)
(* execution recorded from the real resources.  A trace is a behaviour of  *)
(* Memory under the selected Rules iff this specification can consume all  *)
(* of its events; otherwise TLC reports a deadlock at the first event that *)
(* no action explains.                                                     *)
(***************************************************************************)
EXTENDS Memory, Json, IOUtils

VARIABLES tid, l

Traces == ndJsonDeserialize(IOEnv.TRACES)
T == Traces[tid].ev
e == T[l]

TraceInit == \E t \in 1..Len(Traces) :
                /\ tid = t /\ l = 1
                /\ Init(Traces[t].cfg)

Go == l' = l + 1 /\ UNCHANGED tid

(***************************************************************************)
(* Projection: what the resources report about themselves after the event  *)
(***************************************************************************)
LevelTiles(i, s) ==
    LET N == NBlocks(L(i))'
    IN  L(i).k = "pool" =>
        \E rg \in {s.rg} : \E U \in {Used(i)'} : \E G \in {Gaps(i)'} :
        /\ s.size = N * L(i).B
        /\ s.org = IF N > 0 THEN Org(L(i)) ELSE -1
        /\ s.bc = Cardinality(At(i)')
        /\ s.fc = Cardinality(G)
        /\ s.by
        /\ Len(rg) = Cardinality(U) + Cardinality(G)
        /\ \A j \in 1..Len(rg) :
              /\ \/ rg[j][3] = 1 /\ <<rg[j][1], rg[j][2]>> \in U
                 \/ rg[j][3] = 0 /\ <<rg[j][1], rg[j][2]>> \in G
              /\ IF j = 1 THEN rg[j][1] = 0 /\ rg[j][4] = 0
                 ELSE rg[j][1] > rg[j-1][1] /\ rg[j][4] = rg[j-1][1]
Tiles == \A i \in 1..K : LevelTiles(i, e.st[i])

\* busy counts of all levels follow ownership (used by route)
Owned == \A i \in 1..K : L(i).k = "pool" => e.st[i].bc = Cardinality(At(i)')

\* the block areas the resources claim to manage
Areas == \A i \in 1..K :
            IF L(i).k = "pool"
            THEN /\ e.st[i].size = NBlocks(L(i)) * L(i).B
                 /\ e.st[i].org = IF NBlocks(L(i)) > 0 THEN Org(L(i)) ELSE -1
            ELSE /\ e.st[i].size = (IF HasBuf(L(i)) THEN L(i).len ELSE 0)
                 /\ e.st[i].org = IF HasBuf(L(i)) THEN L(i).base ELSE -1

Observed ==
    /\ "safe"  \in Rules => e.intact
    /\ "mono"  \in Rules => e.intact /\ Areas
    /\ "place" \in Rules => Areas
    /\ "tile"  \in Rules => Tiles
    /\ "route" \in Rules => Owned

Out == [lv |-> e.lv, a |-> e.a, n |-> e.n]

\* resources are equal to themselves alone, whatever memory they manage
Alone == \A i, j \in DOMAIN e.eq : e.eq[i][j] = IF i = j THEN 1 ELSE 0

TStart == /\ e.op = "start" /\ e.out = "ok" /\ UNCHANGED vars /\ Observed
          /\ "route" \in Rules => Alone

\* under rules other than place/mono the observed number of blocks is taken
TAlloc == e.op = "alloc" /\ e.out = "ok"
          /\ Alloc(e.h, e.r, e.sz, e.al, Out, e.sys) /\ Observed
TFree == e.op = "free" /\ e.out = "ok" /\ e.h \in DOMAIN live
         /\ Free(e.h, e.sys) /\ Observed
TFreeNull == e.op = "freenull" /\ e.out = "ok" /\ FreeNull(e.sys) /\ Observed
TRelease == e.op = "release" /\ e.out = "ok" /\ Release(e.r, e.sys) /\ Observed
\* destroy an idle resource and construct it again over the same buffer
TRebuild == /\ e.op = "rebuild" /\ e.out = "ok"
            /\ "abort" \in Rules => CanDestroy(e.r)
            /\ IF L(e.r).k = "mono" THEN Release(e.r, e.sys)
               ELSE UNCHANGED vars /\ ("route" \in Rules => e.sys = <<>>)
            /\ Observed

(***************************************************************************)
(* Abnormal endings.  A crash ends the trace.  Which rule it breaks:       *)
(*   place: an allocation that hangs or dies was not served                *)
(*   tile : a free/release that hangs or dies did not restore the pool     *)
(*   route: a call that concerns another level and dies did not reach it     *)
(*   abort: a correct call that aborts; a misuse that does not             *)
(***************************************************************************)
IsMisuse == \/ e.op = "bad" /\ Misuse(e.r, e.a)
            \/ e.op = "destroybusy" /\ ~CanDestroy(e.r)
Died == e.out # "ok"
Crossing == \/ e.op = "free" /\ e.h \in DOMAIN live /\ live[e.h].lv # e.r
            \/ e.op = "alloc" /\ ~Serves(e.r, e.sz, e.al)
            \/ e.op \in {"start", "freenull"}
TCrash ==
    /\ Died /\ ~IsMisuse /\ e.op # "limbo"
    /\ "abort" \notin Rules
    /\ "mono" \notin Rules
    /\ "place" \in Rules => e.op # "alloc"
    /\ "tile" \in Rules => e.op \notin {"free", "freenull", "release", "start"}
    /\ "route" \in Rules => ~Crossing
    /\ UNCHANGED vars
TMisuse ==
    /\ IsMisuse
    /\ "abort" \in Rules => e.out = "abort"
    /\ UNCHANGED vars

\* a wrong call that turns out right because the run placed regions elsewhere
\* than planned: nothing to judge any more
TMoot ==
    /\ e.op \in {"bad", "destroybusy"} /\ ~IsMisuse /\ e.out = "ok"
    /\ UNCHANGED vars

TDone == l > Len(T) /\ UNCHANGED <<vars, tid, l>>

TraceNext ==
    \/ /\ l <= Len(T)
       /\ \/ /\ Go
             /\ TStart \/ TAlloc \/ TFree \/ TFreeNull \/ TRelease \/ TRebuild
          \/ /\ TCrash \/ TMisuse \/ TMoot
             /\ l' = Len(T) + 1 /\ UNCHANGED tid
    \/ TDone

TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tid, l>>
=============================================================================
