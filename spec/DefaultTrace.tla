---------------------------- MODULE DefaultTrace ----------------------------
(* Recorded histories, sequential or concurrent, against Default.  A trace
   is accepted iff some choice of linearization points consumes it; each
   accepted trace prints its number.  The recorded result r of a call stands
   in its invocation event, which prunes wrong guesses early. *)
EXTENDS Default, Json, IOUtils
VARIABLES tid, l
Traces == ndJsonDeserialize(IOEnv.TRACES)
T == Traces[tid].ev
e == T[l]
TraceInit == \E t \in 1..Len(Traces) : tid = t /\ l = 1 /\ Init
Go == l' = l + 1 /\ UNCHANGED tid
Step ==
    \/ e.op = "inv" /\ Invoke(e.t, e.calls)
    \/ e.op = "res" /\ \E rs \in {pend[e.t].rs} : Respond(e.t, rs)
    \/ e.op = "set" /\ Set(e.v, e.r)
    \/ e.op = "get" /\ Get(e.r)
    \/ e.op = "build" /\ Build(e.s, e.v)
    \/ e.op = "copy" /\ Copy(e.s, e.v)
    \/ e.op = "use" /\ Use(e.s, e.r)
    \/ e.op = "sys" /\ e.r = Sys /\ UNCHANGED vars
    \/ e.op = "nul" /\ e.r = Nul /\ UNCHANGED vars
    \/ e.op = "bound" /\ e.s \in Slots /\ e.r = cap[e.s] /\ UNCHANGED vars
    \/ e.op = "same" /\ Same(e.v, e.r, e.s = 1)
TraceNext ==
    \/ l <= Len(T) /\ Go /\ Step
    \/ l <= Len(T) /\ (\E t \in Threads : Linearize(t) /\ Head(pend[t].todo).r = def) /\ UNCHANGED <<tid, l>>
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tid, l>>
Emit == l' = Len(T) + 1 => PrintT("D|" \o ToString(tid))
\* how far an individual trace got (used to point at the rejected event)
EmitL == PrintT("L|" \o ToString(l'))
=============================================================================
