---------------------------- MODULE DefaultConc -----------------------------
(***************************************************************************)
(* All interleavings of a few threads each making a few calls.  The point  *)
(* of an atomic swap: however the calls interleave, every value put in is  *)
(* taken out exactly once or is still there, and a call that finished      *)
(* before another began is seen by it.                                     *)
(***************************************************************************)
EXTENDS Default
CONSTANT Calls
VARIABLES hist, left
cvars == <<vars, hist, left>>
\* thread t sets values 10*t+1, 10*t+2, ...
CInit == Init /\ hist = <<>> /\ left = [t \in Threads |-> Calls]
CNext == \E t \in Threads :
   \/ /\ left[t] > 0 /\ left' = [left EXCEPT ![t] = @ - 1]
      /\ \/ Invoke(t, <<[f |-> "set", v |-> 10 * t + left[t]]>>)
         \/ Invoke(t, <<[f |-> "get", v |-> 0]>>)
      /\ UNCHANGED hist
   \/ /\ Linearize(t)
      /\ hist' = Append(hist, [f |-> Head(pend[t].todo).f, v |-> Head(pend[t].todo).v, r |-> def])
      /\ UNCHANGED left
   \/ /\ Respond(t, pend[t].rs) /\ UNCHANGED <<left, hist>>
CSpec == CInit /\ [][CNext]_cvars
SetsOf == {i \in 1..Len(hist) : hist[i].f = "set"}
\* no value is returned by two swaps, and only values put in come out
OnceOut == \A i, j \in SetsOf : hist[i].r = hist[j].r => i = j
Conserved == {hist[i].r : i \in SetsOf} \cup {def} = {hist[i].v : i \in SetsOf} \cup {Sys}
GetsKnown == \A i \in 1..Len(hist) : hist[i].r \in {Sys} \cup {10 * t + k : t \in Threads, k \in 1..Calls}
=============================================================================
