---------------------------- MODULE HolderTrace -----------------------------
EXTENDS Holder, Json, IOUtils
VARIABLES tid, l
Traces == ndJsonDeserialize(IOEnv.TRACES)
T == Traces[tid].ev
e == T[l]
TraceInit == \E t \in 1..Len(Traces) : tid = t /\ l = 1 /\ Init
\* for every holder: value seen through each of the four accessors, inside
\* the holder's own storage, aligned; nothing written outside
Seen == \A i \in Slots : obj'[i] # Off =>
          /\ e.st[i].v = <<obj'[i], obj'[i], obj'[i], obj'[i]>>
          /\ e.st[i].inside /\ e.st[i].aligned
Step ==
    \/ e.op = "make" /\ Make(e.d, e.x, e.th = 1, e.out = 1, e.pr) /\ Seen /\ e.guard
    \/ e.op \in {"newfrom", "newfromlv"} /\ NewFrom(e.d, e.s, e.x, e.th = 1, e.out = 1, e.pr) /\ Seen /\ e.guard
    \/ e.op \in {"assign", "assignlv"} /\ Assign(e.d, e.s, e.x, e.th = 1, e.out = 1, e.pr) /\ Seen /\ e.guard
    \/ e.op = "drop" /\ Drop(e.d, e.pr) /\ Seen /\ e.guard
    \/ e.op = "write" /\ Write(e.d, e.x, e.pr) /\ Seen /\ e.guard
    \* noexcept of a holder's operation against that of the contained type
    \/ e.op = "noexcept" /\ e.x = e.s /\ UNCHANGED vars
    \/ e.op = "reserve" /\ Reserve(e.d, e.s, e.x, e.th, e.out = 1)
TraceNext ==
    \/ l <= Len(T) /\ l' = l + 1 /\ UNCHANGED tid /\ Step
    \/ l > Len(T) /\ UNCHANGED <<vars, tid, l>>
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tid, l>>
=============================================================================
