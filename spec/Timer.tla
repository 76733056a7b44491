------------------------------- MODULE Timer --------------------------------
(***************************************************************************)
(* Timer objects that own a callback and a start time (C10, C11).  Times   *)
(* are pairs <<seconds, nanoseconds>> of a monotonic clock.                *)
(*   call  C10  a callback runs once, when the timer owning it dies        *)
(*   time  C11  readings are the clock time since the start                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Slots, Rules
VARIABLES
    obj,    \* slot -> [on, cb, start]; cb 0: owns no callback
    now
vars == <<obj, now>>

None == [on |-> FALSE, cb |-> 0, start |-> <<0, 0>>]
Giga == 1000000000
Diff(a, b) == IF a[2] >= b[2] THEN <<a[1] - b[1], a[2] - b[2]>>
              ELSE <<a[1] - b[1] - 1, a[2] - b[2] + Giga>>
Leq(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])

Init == obj = [i \in Slots |-> None] /\ now = <<0, 0>>

\* the calls observed during an operation
NoCalls(calls) == "call" \in Rules => calls = <<>>

Construct(i, cb, calls) ==
    /\ ~obj[i].on /\ NoCalls(calls)
    /\ obj' = [obj EXCEPT ![i] = [on |-> TRUE, cb |-> cb, start |-> now]]
    /\ UNCHANGED now
MoveNew(d, s, calls) ==
    /\ ~obj[d].on /\ obj[s].on /\ NoCalls(calls)
    /\ obj' = [obj EXCEPT ![d] = obj[s], ![s].cb = 0]
    /\ UNCHANGED now
MoveAssign(d, s, calls) ==
    /\ obj[d].on /\ obj[s].on /\ d # s /\ NoCalls(calls)
    /\ obj' = [obj EXCEPT ![d] = obj[s], ![s].cb = 0]
    /\ UNCHANGED now
Reset(i, calls) ==
    /\ obj[i].on /\ NoCalls(calls)
    /\ obj' = [obj EXCEPT ![i].start = now]
    /\ UNCHANGED now
\* the callback gets the dying timer itself, still showing its time
Destroy(i, calls) ==
    /\ obj[i].on
    /\ "call" \in Rules =>
         IF obj[i].cb = 0 THEN calls = <<>>
         ELSE Len(calls) = 1 /\ calls[1].id = obj[i].cb /\ calls[1].at = i
    /\ "time" \in Rules =>
         \A k \in 1..Len(calls) : calls[k].at = i =>
            calls[k].start = obj[i].start /\ calls[k].leaked = Diff(now, obj[i].start)
    /\ obj' = [obj EXCEPT ![i] = None]
    /\ UNCHANGED now
Tick(t) == Leq(now, t) /\ now' = t /\ UNCHANGED obj
\* readings, as <<seconds, rest in the unit>>
Read(i, r, calls) ==
    /\ obj[i].on /\ NoCalls(calls)
    /\ "time" \in Rules =>
         LET e == Diff(now, obj[i].start)
         IN  /\ r.leaked = e
             /\ r.sec = <<e[1], 0>>
             /\ r.ms = <<e[1], e[2] \div 1000000>>
             /\ r.us = <<e[1], e[2] \div 1000>>
             /\ r.ns = e
             /\ r.tp = obj[i].start
    /\ UNCHANGED vars

\* every live callback has exactly one owner
OneOwner == \A i, j \in Slots : i # j /\ obj[i].cb # 0 => obj[i].cb # obj[j].cb
Started == \A i \in Slots : obj[i].on => Leq(obj[i].start, now)
=============================================================================
