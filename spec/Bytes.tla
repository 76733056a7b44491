------------------------------- MODULE Bytes --------------------------------
(***************************************************************************)
(* A byte memory under moving, copying and wiping (property C09).  Cells   *)
(* are numbered 0..Len(mem)-1.  The same actions describe evaluation by    *)
(* the compiler and at run time.  A buffer that goes out of scope keeps    *)
(* its bytes in memory: Dies says what an attacker still finds there.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES mem, code
vars == <<mem, code>>

N == Len(mem)
Cell(m, i) == m[i + 1]
In(a, n) == a >= 0 /\ n >= 0 /\ a + n <= N
Disjoint(d, s, n) == d + n <= s \/ s + n <= d

Transfer(m, d, s, n) ==
    [i \in 1..Len(m) |-> IF i - 1 >= d /\ i - 1 < d + n THEN m[s + (i - 1 - d) + 1] ELSE m[i]]
Wiped(m, d, n) ==
    [i \in 1..Len(m) |-> IF i - 1 >= d /\ i - 1 < d + n THEN 0 ELSE m[i]]

Move(d, s, n) == /\ In(d, n) /\ In(s, n)
                 /\ mem' = Transfer(mem, d, s, n) /\ UNCHANGED code
Copy(d, s, n) == /\ In(d, n) /\ In(s, n) /\ Disjoint(d, s, n)
                 /\ mem' = Transfer(mem, d, s, n) /\ UNCHANGED code
Zero(d, n) == /\ In(d, n)
              /\ mem' = Wiped(mem, d, n) /\ UNCHANGED code

\* the checked variant: code = <<result for null, result for zero size>>, 99
\* until seen; the results have to differ from success (0) and from each other
Unseen == 99
Ok2(c) == c[1] # 0 /\ c[2] # 0 /\ (c[1] # Unseen /\ c[2] # Unseen => c[1] # c[2])
CheckedZero(null, d, n, r) ==
    IF null
    THEN /\ UNCHANGED mem
         /\ IF n = 0
            THEN \* both faults at once: either report
                 /\ r # 0 /\ UNCHANGED code
            ELSE /\ code[1] \in {Unseen, r}
                 /\ code' = <<r, code[2]>> /\ Ok2(code')
    ELSE IF n = 0
    THEN /\ UNCHANGED mem
         /\ code[2] \in {Unseen, r}
         /\ code' = <<code[1], r>> /\ Ok2(code')
    ELSE r = 0 /\ Zero(d, n)

\* a buffer of size n, all of it wiped when `wiped`, goes out of scope;
\* `found` bytes of its former content are left in memory
Dies(n, wiped, found) == (wiped => found = 0) /\ UNCHANGED vars

Identity(n) == [i \in 1..n |-> i]
=============================================================================
