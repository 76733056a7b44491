------------------------------ MODULE Default -------------------------------
(***************************************************************************)
(* The process-wide resources: one system resource, one null resource, one *)
(* default resource.  Setting the default swaps it in one atomic step, so  *)
(* a call is an invocation, one linearization point and a response.        *)
(* Resources built without an upstream keep the default of that moment.    *)
(* Property C07.  Resources are numbers: 1 system, 2 null, 3.. others.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Threads, Slots

VARIABLES
    def,    \* current default
    cap,    \* slot -> the resource it is bound to, 0 if not built
    pend    \* thread -> the call it is in

vars == <<def, cap, pend>>

Sys == 1
Nul == 2
Idle == [on |-> FALSE, todo |-> <<>>, rs |-> <<>>]

Init == /\ def = Sys
        /\ cap = [s \in Slots |-> 0]
        /\ pend = [t \in Threads |-> Idle]

\* thread t makes the given calls [f |-> "set"/"get", v |-> value] one after
\* the other
Invoke(t, calls) ==
    /\ ~pend[t].on
    /\ pend' = [pend EXCEPT ![t] = [on |-> TRUE, todo |-> calls, rs |-> <<>>]]
    /\ UNCHANGED <<def, cap>>
Linearize(t) ==
    /\ pend[t].on /\ pend[t].todo # <<>>
    /\ LET c == Head(pend[t].todo)
       IN  /\ pend' = [pend EXCEPT ![t].todo = Tail(@), ![t].rs = Append(@, def)]
           /\ def' = IF c.f = "set" THEN c.v ELSE def
    /\ UNCHANGED cap
Respond(t, rs) ==
    /\ pend[t].on /\ pend[t].todo = <<>> /\ pend[t].rs = rs
    /\ pend' = [pend EXCEPT ![t] = Idle]
    /\ UNCHANGED <<def, cap>>

\* the same as one step, when no other thread interferes
Set(v, r) == r = def /\ def' = v /\ UNCHANGED <<cap, pend>>
Get(r)    == r = def /\ UNCHANGED vars

\* u = 0: built without an explicit upstream
Build(s, u) == /\ cap' = [cap EXCEPT ![s] = IF u = 0 THEN def ELSE u]
               /\ UNCHANGED <<def, pend>>
Copy(s, d)  == /\ cap[s] # 0
               /\ cap' = [cap EXCEPT ![d] = cap[s]]
               /\ UNCHANGED <<def, pend>>
\* a request made through slot s reaches resource r
Use(s, r)   == cap[s] # 0 /\ r = cap[s] /\ UNCHANGED vars
Same(a, b, res) == res = (a = b) /\ UNCHANGED vars
=============================================================================
