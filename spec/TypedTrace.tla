----------------------------- MODULE TypedTrace -----------------------------
EXTENDS Typed, Json, IOUtils
VARIABLES tid, l
Traces == ndJsonDeserialize(IOEnv.TRACES)
T0 == Traces[tid].ev
e == T0[l]
TraceInit == \E t \in 1..Len(Traces) : tid = t /\ l = 1 /\ Init /\ bound = [s \in Slots |-> 1]
Count(x) == [f |-> x.f, d |-> x.d]
Step ==
    /\ e.guard      \* no byte outside the served blocks was written
    /\ \/ e.op = "new" /\ New(e.s, e.T, e.x, e.b, e.pr)
       \/ e.op = "del" /\ Delete(e.s, e.b, e.pr)
       \/ e.op = "delnull" /\ DeleteNull(e.pr)
       \/ e.op = "array" /\ Array(e.s, IF e.T = 0 THEN SlotType[e.s] ELSE e.T, Count(e), e.b, e.pr)
       \/ e.op = "bytes" /\ Bytes(e.s, e.d, IF e.T = 0 THEN 16 ELSE e.T, e.b, e.pr)
       \/ e.op = "freeraw" /\ FreeRaw(e.s, e.b, e.pr)
       \/ e.op = "plain" /\ Plain(e.s, e.x, e.b, e.d, e.pr)
       \/ e.op = "construct" /\ Construct(e.s, e.T, e.x, e.b, e.pr)
       \/ e.op = "share" /\ Share(e.s, e.b) /\ e.pr = <<>>
       \/ e.op = "rebind" /\ Rebind(e.s, e.x) /\ e.pr = <<>>
       \/ e.op = "equal" /\ Equal(e.s, e.b, e.x = 1, e.d = 1) /\ e.pr = <<>>
TraceNext ==
    \/ l <= Len(T0) /\ l' = l + 1 /\ UNCHANGED tid /\ Step
    \/ l > Len(T0) /\ UNCHANGED <<vars, tid, l>>
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tid, l>>
=============================================================================
