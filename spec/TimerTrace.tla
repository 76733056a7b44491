----------------------------- MODULE TimerTrace -----------------------------
EXTENDS Timer, Json, IOUtils
VARIABLES tid, l
Traces == ndJsonDeserialize(IOEnv.TRACES)
T == Traces[tid].ev
e == T[l]
TraceInit == \E t \in 1..Len(Traces) : tid = t /\ l = 1 /\ Init
\* what start_tp() says for every living timer after the event
Starts == "time" \in Rules => \A i \in Slots : obj'[i].on => e.tp[i] = obj'[i].start
Step ==
    \/ e.op = "new" /\ Construct(e.d, e.y, e.calls) /\ Starts
    \/ e.op = "movenew" /\ MoveNew(e.d, e.s, e.calls) /\ Starts
    \/ e.op = "assign" /\ MoveAssign(e.d, e.s, e.calls) /\ Starts
    \/ e.op = "reset" /\ Reset(e.d, e.calls) /\ Starts
    \/ e.op = "del" /\ Destroy(e.d, e.calls) /\ Starts
    \/ e.op = "read" /\ Read(e.d, e.rd, e.calls) /\ Starts
    \/ e.op = "tick" /\ Tick(e.now) /\ NoCalls(e.calls) /\ Starts
TraceNext ==
    \/ l <= Len(T) /\ l' = l + 1 /\ UNCHANGED tid /\ Step
    \/ l > Len(T) /\ UNCHANGED <<vars, tid, l>>
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tid, l>>
=============================================================================
