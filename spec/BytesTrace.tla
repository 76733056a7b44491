----------------------------- MODULE BytesTrace -----------------------------
EXTENDS Bytes, Json, IOUtils
VARIABLES tid, l
Traces == ndJsonDeserialize(IOEnv.TRACES)
T == Traces[tid].ev
e == T[l]
TraceInit == \E t \in 1..Len(Traces) : tid = t /\ l = 1 /\ mem = <<>> /\ code = <<Unseen, Unseen>>
Step ==
    \/ e.f = "load" /\ mem' = e.m /\ UNCHANGED code
    \/ e.f = "move" /\ Move(e.d, e.s, e.n) /\ mem' = e.m /\ e.r = 0   \* r = 0: the destination is returned
    \/ e.f = "copy" /\ Copy(e.d, e.s, e.n) /\ mem' = e.m
    \/ e.f = "zero" /\ Zero(e.d, e.n) /\ mem' = e.m
    \/ e.f = "szero" /\ CheckedZero(FALSE, e.d, e.n, e.r) /\ mem' = e.m
    \/ e.f = "szeronull" /\ CheckedZero(TRUE, e.d, e.n, e.r) /\ mem' = e.m
    \/ e.f = "dies" /\ Dies(e.n, e.s = 1, e.d)
TraceNext ==
    \/ l <= Len(T) /\ l' = l + 1 /\ UNCHANGED tid /\ Step
    \/ l > Len(T) /\ UNCHANGED <<vars, tid, l>>
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tid, l>>
=============================================================================
