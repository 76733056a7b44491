-------------------------------- MODULE Abort -------------------------------
(***************************************************************************)
(* Conditional aborts (property C30).  A program is a sequence of          *)
(* statements, each one of the conditional aborts; the build is debug or   *)
(* release.  The state is what has been evaluated, what was written to     *)
(* standard error, and whether the process is still there.                 *)
(*   forms: "call"  abort_if(condition, format, args...)                   *)
(*          "bare"  abort_if(condition)                                    *)
(*          "macro" UTILS_ABORT_IF(condition, format, args...)             *)
(*          "debug" UTILS_DEBUG_ABORT_IF(condition, format, args...)       *)
(* A message is a sequence of pieces: literal text or one formatted value. *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS N
VARIABLES prog, release, pc, conds, args, err, where, status
vars == <<prog, release, pc, conds, args, err, where, status>>
More == IF "MORE" \in DOMAIN IOEnv THEN ndJsonDeserialize(IOEnv.MORE) ELSE <<>>
\* the messages of the exhaustive part: none, literal only, values of all kinds
Msgs == << <<>>, << [k |-> "lit", s |-> " plain\n"] >>,
           << [k |-> "lit", s |-> "\nn="], [k |-> "int", s |-> "-42"], [k |-> "lit", s |-> " of "],
              [k |-> "str", s |-> "100%d"], [k |-> "pct", s |-> "%"] >> >>
Forms == {"call", "bare", "macro", "debug"}
Stmts == {[form |-> f, cond |-> c, msg |-> m] : f \in Forms, c \in BOOLEAN, m \in {Msgs[i] : i \in DOMAIN Msgs}}
Plain == {s \in Stmts : s.form = "bare" => s.msg = <<>>}
RECURSIVE Text(_)
Text(m) == IF m = <<>> THEN "" ELSE Head(m).s \o Text(Tail(m))
Values(m) == Len(SelectSeq(m, LAMBDA p : p.k \notin {"lit", "pct"}))

Init == /\ \/ prog \in UNION {[1..n -> Plain] : n \in 0..N}
           \/ \E i \in DOMAIN More : prog = More[i]
        /\ release \in BOOLEAN
        /\ pc = 1 /\ conds = [i \in 1..Len(prog) |-> 0] /\ args = [i \in 1..Len(prog) |-> 0]
        /\ err = "" /\ where = 0 /\ status = "running"
S == prog[pc]
\* a debug statement of a release build: nothing, not even the condition
Skip == /\ status = "running" /\ pc <= Len(prog) /\ S.form = "debug" /\ release
        /\ pc' = pc + 1
        /\ UNCHANGED <<prog, release, conds, args, err, where, status>>
Live == status = "running" /\ pc <= Len(prog) /\ ~(S.form = "debug" /\ release)
Pass == /\ Live /\ ~S.cond
        /\ conds' = [conds EXCEPT ![pc] = @ + 1]
        /\ pc' = pc + 1
        /\ UNCHANGED <<prog, release, args, err, where, status>>
Abort == /\ Live /\ S.cond
         /\ conds' = [conds EXCEPT ![pc] = @ + 1]
         /\ args' = [args EXCEPT ![pc] = Values(S.msg)]
         /\ err' = Text(S.msg)
         /\ where' = IF S.form \in {"macro", "debug"} THEN pc ELSE 0
         /\ status' = "aborted"
         /\ UNCHANGED <<prog, release, pc>>
End == /\ status = "running" /\ pc = Len(prog) + 1 /\ status' = "ended"
       /\ UNCHANGED <<prog, release, pc, conds, args, err, where>>
Next == Skip \/ Pass \/ Abort \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Active(i) == ~(prog[i].form = "debug" /\ release)
Firing == {i \in DOMAIN prog : Active(i) /\ prog[i].cond}
\* aborts exactly when some active condition holds, at the first such one
Exactly == status # "running" => (status = "aborted") = (Firing # {})
First == status = "aborted" => pc \in Firing /\ \A i \in Firing : pc <= i
\* an active condition is evaluated once when reached and never again
Once == \A i \in DOMAIN prog : conds[i] = (IF Active(i) /\ (i < pc \/ (status = "aborted" /\ i = pc)) THEN 1 ELSE 0)
\* nothing is written unless the process aborts
Silent == status # "aborted" => err = "" /\ where = 0
\* a release build runs the program without its debug statements
Terminates == <>(status # "running")
Done == status # "running"
Emit == Done => PrintT("E|" \o ToJson([prog |-> prog, release |-> release, at |-> pc, conds |-> conds, args |-> args, err |-> err, where |-> where, status |-> status]))
=============================================================================
