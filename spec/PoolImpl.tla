------------------------------ MODULE PoolImpl ------------------------------
(***************************************************************************)
(* The block pool the way it works: a table of regions linked by block     *)
(* indices, scanned from block 0; requests split a free region in up to    *)
(* three, deallocation merges neighbours, release walks the links.  One    *)
(* step of the scan is one step of the specification.                      *)
(*                                                                         *)
(* Checked by TLC: PoolImpl implements Memory's pool (properties C01..C03) *)
(* under the mapping that forgets the table; the table is always canonical *)
(* between calls; and every call ends.                                     *)
(* The unit of size is a block; Org is the address of block 0 in blocks,   *)
(* and alignments are powers of two of blocks, so that skipping to an      *)
(* alignment inside a region happens as in the code.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS N, Org0, MaxAl        \* blocks, address of block 0, largest alignment exponent

VARIABLES nxt, prv, use, fc, bc, pc, at, req, regs
vars == <<nxt, prv, use, fc, bc, pc, at, req, regs>>

B == 0..(N - 1)
Skip(b, al) == (-(Org0 + b)) % (2 ^ al)
End(t, i) == IF t[i] = 0 THEN N ELSE t[i]
RSize(t, i) == End(t, i) - i

\* link writers of the implementation: an index may only point onwards (next)
\* or backwards (prev), or be 0
SetPrev(p, i, v) == IF v < i \/ v = 0 THEN [p EXCEPT ![i] = v] ELSE p
SetNext(t, i, v) == IF i < v \/ v = 0 THEN [t EXCEPT ![i] = v] ELSE t

Idle == [k |-> "none", sz |-> 0, al |-> 0]
Init ==
    /\ nxt = [i \in B |-> 0] /\ prv = [i \in B |-> 0] /\ use = {}
    /\ fc = 1 /\ bc = 0 /\ pc = "idle" /\ at = 0 /\ req = Idle
    /\ regs = {}                  \* ghost: the live regions as <<first, blocks>>

Guaranteed(al) == 2^al <= (CHOOSE p \in {2^k : k \in 0..10} : Org0 % p = 0 /\ Org0 % (2 * p) # 0) + N - 1

StartAlloc(sz, al) ==
    /\ pc = "idle" /\ Guaranteed(al)
    /\ pc' = "scan" /\ at' = 0 /\ req' = [k |-> "alloc", sz |-> sz, al |-> al]
    /\ UNCHANGED <<nxt, prv, use, fc, bc, regs>>

Fits(i) == LET s == Skip(i, req.al) IN s <= RSize(nxt, i) /\ req.sz <= RSize(nxt, i) - s

Done == pc' = "idle" /\ at' = 0 /\ req' = Idle

\* the four ways of taking first..last out of the free region f
Take(f, first, last) ==
    LET after == nxt[f]
        lastf == End(nxt, f) - 1
        n     == last + 1
    IN  /\ use' = use \cup {first}
        /\ bc' = bc + 1
        /\ CASE first = f /\ last = lastf ->
                  nxt' = nxt /\ prv' = prv /\ fc' = fc - 1
             [] first = f /\ last # lastf ->
                  /\ nxt' = SetNext(SetNext(nxt, n, after), f, n)
                  /\ prv' = SetPrev(SetPrev(prv, n, f), after, n)
                  /\ fc' = fc
             [] first # f /\ last # lastf ->
                  /\ nxt' = SetNext(SetNext(SetNext(nxt, first, n), n, after), f, first)
                  /\ prv' = SetPrev(SetPrev(SetPrev(prv, first, f), n, first), after, n)
                  /\ fc' = fc + 1
             [] OTHER ->
                  /\ nxt' = SetNext(SetNext(nxt, first, IF last < N - 1 THEN last + 1 ELSE 0), f, first)
                  /\ prv' = SetPrev(SetPrev(prv, first, f), after, first)
                  /\ fc' = fc

ScanAlloc ==
    /\ pc = "scan" /\ req.k = "alloc"
    /\ IF at \notin use /\ Fits(at)
       THEN LET first == at + Skip(at, req.al)
            IN  /\ Take(at, first, first + req.sz - 1)
                /\ regs' = regs \cup {<<first, req.sz>>}
                /\ Done
       ELSE /\ UNCHANGED <<nxt, prv, use, fc, bc, regs>>
            /\ IF nxt[at] = 0 THEN Done ELSE at' = nxt[at] /\ UNCHANGED <<pc, req>>

\* deallocation of the region at i on table (t, p, u): the result
Merge2(T, l, r) ==
    IF l = r \/ r = 0 THEN [T EXCEPT !.m = l]
    ELSE IF l \in T.u THEN [T EXCEPT !.m = r]
    ELSE IF r \in T.u THEN [T EXCEPT !.m = l]
    ELSE [T EXCEPT !.m = l, !.p = SetPrev(T.p, T.t[r], l), !.t = SetNext(T.t, l, T.t[r]), !.f = T.f - 1]
Dealloc(i) ==
    LET T0 == [t |-> nxt, p |-> prv, u |-> use \ {i}, f |-> fc + 1, m |-> i]
        T1 == Merge2(T0, T0.p[i], i)
    IN  Merge2(T1, T1.m, T1.t[i])
Apply(T) == nxt' = T.t /\ prv' = T.p /\ use' = T.u /\ fc' = T.f /\ bc' = bc - 1

Free(i) ==
    /\ pc = "idle" /\ i \in use
    /\ Apply(Dealloc(i))
    /\ regs' = {r \in regs : r[1] # i}
    /\ UNCHANGED <<pc, at, req>>

StartRelease ==
    /\ pc = "idle" /\ pc' = "scan" /\ at' = 0 /\ req' = [k |-> "release", sz |-> 0, al |-> 0]
    /\ UNCHANGED <<nxt, prv, use, fc, bc, regs>>
ScanRelease ==
    /\ pc = "scan" /\ req.k = "release"
    /\ IF at \in use
       THEN LET T == Dealloc(at)
            IN  /\ Apply(T)
                /\ regs' = {r \in regs : r[1] # at}
                /\ IF T.t[T.m] = 0 THEN Done ELSE at' = T.t[T.m] /\ UNCHANGED <<pc, req>>
       ELSE /\ UNCHANGED <<nxt, prv, use, fc, bc, regs>>
            /\ IF nxt[at] = 0 THEN Done ELSE at' = nxt[at] /\ UNCHANGED <<pc, req>>

Scan == ScanAlloc \/ ScanRelease
Next == \/ \E sz \in 1..N, al \in 0..MaxAl : StartAlloc(sz, al)
        \/ \E i \in B : Free(i)
        \/ StartRelease
        \/ Scan
Spec == Init /\ [][Next]_vars /\ WF_vars(Scan)

(***************************************************************************)
(* What holds                                                              *)
(***************************************************************************)
\* the links visited from block 0
RECURSIVE Chain(_, _)
Chain(i, k) == IF k = 0 THEN <<>> ELSE <<i>> \o (IF nxt[i] = 0 THEN <<>> ELSE Chain(nxt[i], k - 1))
Canonical ==
    LET c == Chain(0, N + 1)
    IN  /\ Len(c) <= N
        /\ \A j \in 1..(Len(c) - 1) : c[j] < c[j + 1] /\ prv[c[j + 1]] = c[j]
        /\ prv[0] = 0
        /\ \A j \in 1..(Len(c) - 1) : c[j] \in use \/ c[j + 1] \in use
        /\ use \subseteq {c[j] : j \in 1..Len(c)}
        /\ fc = Cardinality({j \in 1..Len(c) : c[j] \notin use})
        /\ bc = Cardinality(use)
        /\ regs = {<<i, RSize(nxt, i)>> : i \in use}
Always == Canonical       \* also in the middle of a scan
Ends == [](pc = "scan" => <>(pc = "idle"))
\* release leaves nothing behind
Released == [][(pc = "scan" /\ req.k = "release" /\ pc' = "idle") => use' = {} /\ fc' = 1 /\ bc' = 0 /\ nxt'[0] = 0]_vars

(***************************************************************************)
(* Refinement of Memory: one pool of N one-byte blocks at address Org0     *)
(***************************************************************************)
Cfg == [lv |-> << [k |-> "pool", B |-> 1, lb |-> 0, M |-> N, base |-> Org0, len |-> N] >>, term |-> "none", id |-> 1]
Live == [i \in {r[1] : r \in regs} |->
            LET r == CHOOSE r \in regs : r[1] = i
            IN  [lv |-> 1, a |-> Org0 + i, sz |-> r[2], n |-> r[2], via |-> 1, dead |-> FALSE]]
Abs == INSTANCE Memory WITH Rules <- {"safe", "tile", "place", "abort", "route"}, cfg <- Cfg, live <- Live, nx <- <<Org0>>
\* an allocation that ends takes effect as Memory says, with the result the
\* table shows; one that ends empty-handed could not have been served
Taken == regs' \ regs
AbsNext ==
    \/ /\ pc = "scan" /\ req.k = "alloc" /\ pc' = "idle"
       /\ IF Taken = {} THEN Abs!Alloc(N, 1, req.sz, req.al, Abs!Null, <<>>)
          ELSE \E r \in Taken : Abs!Alloc(r[1], 1, req.sz, req.al, [lv |-> 1, a |-> Org0 + r[1], n |-> r[2]], <<>>)
    \/ \E i \in B : Abs!Free(i, <<>>)
Implements == Abs!Init(Cfg) /\ [][AbsNext \/ UNCHANGED Live]_<<Live>>
ImplementsExactly == [][(pc = "scan" /\ req.k = "alloc" /\ pc' = "idle") => AbsNext]_vars
=============================================================================
