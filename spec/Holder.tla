------------------------------- MODULE Holder -------------------------------
(***************************************************************************)
(* In-place holders (fast_pimpl) of a tracked type (property C12).  An     *)
(* operation on a holder is exactly one operation on the contained object, *)
(* recorded in pr as                                                       *)
(*   [k "ctor"/"assign"/"dtor", to, kind, from, same]                      *)
(* to/from: the holder whose storage starts there, Ext for a plain object, *)
(* 0 for neither.  kind: see Kinds; same: arguments arrived as themselves. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Slots
VARIABLE obj        \* slot -> value held, Off if there is no holder
vars == <<obj>>
Off == -1
Ext == 100          \* a plain object of the contained type, worth ExtVal
ExtVal == 50
Gone == 99          \* value of a moved-from object
CopyK == 7
MoveK == 8
\* forwarded argument lists: 0 (), 1 Arg&, 2 const Arg&, 3 Arg&&, 4 const
\* Arg&&, 5 (Arg&&, Arg&), 6 by-value move-only, 9 (const Arg&, Arg&&, int&),
\* 10 (int, int) of a type that also has an initializer-list constructor
Fwd == {0, 1, 2, 3, 4, 5, 6, 9, 10}

Init == obj = [i \in Slots |-> Off]
One(pr, k, to, kind, from) ==
    /\ Len(pr) = 1
    /\ pr[1].k = k /\ pr[1].to = to /\ pr[1].kind = kind /\ pr[1].from = from /\ pr[1].same
\* an operation of the contained type that throws, as recorded
Tried(pr, k, to, kind, from) == One(pr, k, to, kind, from)

Val(kind) == IF kind = 0 THEN 0 ELSE kind
\* th: the contained type threw; then so does the holder, and nothing changed
Make(i, kind, th, out, pr) ==
    /\ obj[i] = Off /\ out = th
    /\ Tried(pr, "ctor", i, kind, 0)
    /\ obj' = IF th THEN obj ELSE [obj EXCEPT ![i] = Val(kind)]
NewFrom(i, s, kind, th, out, pr) ==
    /\ obj[i] = Off /\ out = th
    /\ s # Ext => obj[s] # Off
    /\ Tried(pr, "ctor", i, kind, s)
    /\ obj' = IF th THEN obj
              ELSE [[obj EXCEPT ![i] = IF s = Ext THEN ExtVal ELSE obj[s]]
                    EXCEPT ![IF kind = MoveK /\ s # Ext THEN s ELSE i] =
                       IF kind = MoveK /\ s # Ext THEN Gone ELSE @]
Assign(i, s, kind, th, out, pr) ==
    /\ obj[i] # Off /\ out = th
    /\ s # Ext => obj[s] # Off
    /\ Tried(pr, "assign", i, kind, s)
    /\ obj' = IF th \/ s = i THEN obj
              ELSE [[obj EXCEPT ![i] = IF s = Ext THEN ExtVal ELSE obj[s]]
                    EXCEPT ![IF kind = MoveK /\ s # Ext THEN s ELSE i] =
                       IF kind = MoveK /\ s # Ext THEN Gone ELSE @]
Drop(i, pr) == /\ obj[i] # Off
               /\ Len(pr) = 1 /\ pr[1].k = "dtor" /\ pr[1].to = i
               /\ obj' = [obj EXCEPT ![i] = Off]
\* writing through the holder reaches the same object
Write(i, v, pr) == obj[i] # Off /\ pr = <<>> /\ obj' = [obj EXCEPT ![i] = v]
(***************************************************************************)
(* A program that names S bytes at alignment A for a type of size sz and   *)
(* alignment al: the compiler may take it only if the object fits, and has *)
(* to if the numbers are right.                                            *)
(***************************************************************************)
Reserve(sz, al, S, A, taken) ==
    /\ taken => S >= sz /\ A % al = 0
    /\ (S = sz /\ A = al) => taken
    /\ UNCHANGED vars
=============================================================================
