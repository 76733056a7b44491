------------------------------- MODULE Memory -------------------------------
(***************************************************************************)
(* Chains of memory resources: fixed-block pools (simple_resource) and     *)
(* monotonic buffers over their upstreams, ending in the system resource,  *)
(* the null resource or nothing.                                           *)
(*                                                                         *)
(* One specification serves every memory property.  Each rule below is one *)
(* property; the constant Rules says which of them a behaviour has to obey *)
(*   safe   C01  what is handed out is disjoint, aligned, inside           *)
(*   tile   C02  regions, counters and links tile the pool canonically     *)
(*   place  C03  lowest fitting region, exact blocks, upstream only if     *)
(*               nothing fits                                              *)
(*   abort  C04  correct calls never abort, misuse always does             *)
(*   route  C05  requests and blocks travel the chain exactly once         *)
(*   mono   C06  bump allocation                                           *)
(* The exhaustive model (MemoryMC) uses all rules at once; MemoryTrace     *)
(* replays recorded executions of the real code under one rule.            *)
(*                                                                         *)
(* Addresses are offsets into an arena whose base is aligned to 2^MaxExp.  *)
(* A negative size stands for a size no buffer can hold (2^32 and up).     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
LOCAL INSTANCE SequencesExt

CONSTANT Rules

VARIABLES
    cfg,    \* [lv : Seq([k, B, lb, M, base, len]), term]; never changes
    live,   \* handle -> [lv, a, sz, n, via, dead]
    nx      \* per level: next free address of a monotonic buffer

vars == <<cfg, live, nx>>

MaxExp == 22
Max2(x, y) == IF x >= y THEN x ELSE y
Min2(x, y) == IF x <= y THEN x ELSE y
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

K == Len(cfg.lv)
SysLv == K + 1
L(i) == cfg.lv[i]

CeilDiv(x, y) == (x + y - 1) \div y
SkipTo(a, al) == (-a) % (2 ^ al)
Aligned(a, al) == al <= MaxExp /\ a % (2 ^ al) = 0

(***************************************************************************)
(* Geometry of a level                                                     *)
(***************************************************************************)
HasBuf(l) == l.base >= 0 /\ l.len > 0
Skip(l) == SkipTo(l.base, l.lb)
NBlocks(l) == IF HasBuf(l) /\ Skip(l) < l.len
              THEN Min2((l.len - Skip(l)) \div l.B, l.M) ELSE 0
Org(l) == l.base + Skip(l)
LowExp(a) == IF a = 0 THEN MaxExp
             ELSE CHOOSE k \in 0..MaxExp : a % (2^k) = 0 /\ a % (2^(k+1)) # 0
\* the alignments a block area is guaranteed to contain whatever its address
Guaranteed(l, al) == /\ NBlocks(l) > 0
                     /\ al <= MaxExp
                     /\ 2^al <= 2^LowExp(Org(l)) + NBlocks(l) * l.B - 1

(***************************************************************************)
(* Occupation of a pool                                                    *)
(***************************************************************************)
At(i) == {h \in DOMAIN live : live[h].lv = i}
BlkOf(i, h) == (live[h].a - Org(L(i))) \div L(i).B
Used(i) == {<<BlkOf(i, h), live[h].n>> : h \in At(i)}
\* maximal free runs of blocks, as <<first, count>>: a gap starts where no
\* region does and ends where the next region starts.  (Both forms say that;
\* bound variables are evaluated once, which the second relies on.)
Gaps(i) ==
    LET N == NBlocks(L(i))
    IN  UNION {LET S == {u[1] : u \in U}
               IN  UNION {IF Cardinality(U) < 24
                          THEN {<<s, MinOf({x \in S : x > s} \cup {N}) - s>> : s \in C}
                          ELSE UNION {{<<q[k], q[k + 1] - q[k]>> : k \in {j \in 1..(Len(q) - 1) : q[j] \in C}}
                                      : q \in {SetToSortSeq(S \cup C \cup {N}, <)}}
                          : C \in {{c \in ({0} \cup {u[1] + u[2] : u \in U}) \ S : c < N}}}
               : U \in {Used(i)}}
Regions(i) == {<<u[1], u[2], 1>> : u \in Used(i)} \cup {<<g[1], g[2], 0>> : g \in Gaps(i)}

Null == [lv |-> 0, a |-> 0, n |-> 0]

\* where a gap g of pool i puts a request: first aligned byte of the gap
PosIn(i, g, al) == LET b == Org(L(i)) + g[1] * L(i).B IN b + SkipTo(b, al)
Fits(i, g, sz, al) ==
    /\ al <= MaxExp /\ sz > 0
    /\ SkipTo(Org(L(i)) + g[1] * L(i).B, al) + sz <= g[2] * L(i).B
PoolCands(i, sz, al) == {g \in Gaps(i) : Fits(i, g, sz, al)}

MonoFits(i, sz, al) ==
    /\ HasBuf(L(i)) /\ al <= MaxExp /\ sz > 0
    /\ nx[i] + SkipTo(nx[i], al) + sz <= L(i).base + L(i).len

(***************************************************************************)
(* Serve(r, sz, al): the results a request entering the chain at level r   *)
(* may have when every rule holds.  The only freedom is (a) the system may *)
(* fail, (b) an alignment beyond what a pool guarantees may go upstream    *)
(* although the pool happens to have room.                                 *)
(***************************************************************************)
RECURSIVE Serve(_, _, _)
Serve(r, sz, al) ==
    IF r > K
    THEN IF cfg.term = "sys"
         THEN IF sz > 0 /\ al <= MaxExp THEN {[lv |-> SysLv, a |-> -1, n |-> 0], Null} ELSE {Null}
         ELSE {Null}
    ELSE IF sz = 0 THEN {Null}
    ELSE IF L(r).k = "pool"
    THEN LET C    == PoolCands(r, sz, al)
             g    == CHOOSE x \in C : \A y \in C : x[1] <= y[1]
             here == {[lv |-> r, a |-> PosIn(r, g, al), n |-> CeilDiv(sz, L(r).B)]}
             up   == Serve(r + 1, sz, Max2(al, L(r).lb))
         IN  IF C = {} THEN up
             ELSE IF Guaranteed(L(r), al) THEN here ELSE here \cup up
    ELSE IF MonoFits(r, sz, al)
         THEN {[lv |-> r, a |-> nx[r] + SkipTo(nx[r], al), n |-> 0]}
         ELSE Serve(r + 1, sz, al)

(***************************************************************************)
(* The rules, as predicates on one allocation and its result out           *)
(***************************************************************************)
Disjoint(out, sz) ==
    \A h \in At(out.lv) : \/ out.a + sz <= live[h].a
                          \/ live[h].a + live[h].sz <= out.a
SafeAlloc(sz, al, out) ==
    /\ out.lv \in 0..SysLv
    /\ out.lv = SysLv => cfg.term = "sys"
    /\ out.lv \in 1..K =>
        /\ sz > 0
        /\ HasBuf(L(out.lv))
        /\ out.a >= L(out.lv).base
        /\ out.a + sz <= L(out.lv).base + L(out.lv).len
        /\ Aligned(out.a, al)
        /\ L(out.lv).k = "pool" => Aligned(out.a, L(out.lv).lb)
        /\ Disjoint(out, sz)

Same(o, out) == o.lv = out.lv /\ (o.lv \in 1..K => o.a = out.a /\ o.n = out.n)
PlaceAlloc(r, sz, al, out) == \E o \in Serve(r, sz, al) : Same(o, out)

\* levels above the entry that a request ending at out.lv went past
Passed(r, out) == (r + 1)..(IF out.lv = 0 THEN K ELSE out.lv - 1)

\* the alignment a request has when it reaches level i
RECURSIVE AlAt(_, _, _)
AlAt(r, i, al) == IF i <= r THEN al
                  ELSE LET x == AlAt(r, i - 1, al)
                       IN  IF L(i - 1).k = "pool" THEN Max2(x, L(i - 1).lb) ELSE x

\* level i surely serves a request of that size and alignment
Serves(i, sz, al) ==
    IF L(i).k = "pool" THEN Guaranteed(L(i), al) /\ PoolCands(i, sz, al) # {}
    ELSE MonoFits(i, sz, al)

RouteAlloc(r, sz, al, out, sys) ==
    /\ out.lv = 0 \/ out.lv \in r..SysLv
    /\ sz > 0 => \A i \in Passed(r, out) : ~Serves(i, sz, AlAt(r, i, al))
    /\ out.lv \in (r + 1)..K =>
          /\ Aligned(out.a, AlAt(r, out.lv, al))
          /\ L(out.lv).k = "pool" => out.n * L(out.lv).B >= sz
    /\ IF sz = 0 \/ cfg.term # "sys" \/ out.lv \in 1..K
       THEN sys = <<>>
       ELSE /\ Len(sys) = 1
            /\ sys[1].k = "a" /\ sys[1].cover
            /\ sys[1].ok = (out.lv = SysLv)
            /\ out.lv = SysLv => sys[1].a = out.a
    /\ out.lv = SysLv => cfg.term = "sys"

(***************************************************************************)
(* Where a block handed back at level `via` ends up                        *)
(***************************************************************************)
Absorbed(h) == \E i \in live[h].via..Min2(live[h].lv, K) : L(i).k = "mono"

RouteFree(h, sys) ==
    IF live[h].lv = SysLv /\ ~Absorbed(h)
    THEN Len(sys) = 1 /\ sys[1].k = "f" /\ sys[1].a = live[h].a
    ELSE sys = <<>>

(***************************************************************************)
(* Actions.  The caller supplies the observed (or generated) result.       *)
(***************************************************************************)
Keep(f, S) == [x \in (DOMAIN f) \cap S |-> f[x]]

DoAlloc(h, r, sz, al, out) ==
    /\ live' = IF out.lv = 0 THEN live
               ELSE (h :> [lv |-> out.lv, a |-> out.a, sz |-> sz, n |-> out.n,
                           via |-> r, dead |-> FALSE]) @@ live
    /\ nx' = IF out.lv \in 1..K /\ L(out.lv).k = "mono"
             THEN [nx EXCEPT ![out.lv] = out.a + sz] ELSE nx
    /\ UNCHANGED cfg

Alloc(h, r, sz, al, out, sys) ==
    /\ h \notin DOMAIN live
    /\ "safe"  \in Rules => SafeAlloc(sz, al, out)
    /\ "place" \in Rules => PlaceAlloc(r, sz, al, out)
    /\ "mono"  \in Rules => SafeAlloc(sz, al, out) /\ PlaceAlloc(r, sz, al, out)
    /\ "route" \in Rules => RouteAlloc(r, sz, al, out, sys)
    /\ DoAlloc(h, r, sz, al, out)

Free(h, sys) ==
    /\ h \in DOMAIN live /\ ~live[h].dead
    /\ "route" \in Rules => RouteFree(h, sys)
    /\ live' = IF Absorbed(h) THEN [live EXCEPT ![h].dead = TRUE]
               ELSE Keep(live, (DOMAIN live) \ {h})
    /\ UNCHANGED <<cfg, nx>>

\* pool: every region of this level becomes free; monotonic: start over
Release(i, sys) ==
    /\ "route" \in Rules => sys = <<>>
    /\ live' = Keep(live, (DOMAIN live) \ At(i))
    /\ nx' = IF L(i).k = "mono" THEN [nx EXCEPT ![i] = L(i).base] ELSE nx
    /\ UNCHANGED cfg

\* deallocate(nullptr): nothing happens
FreeNull(sys) ==
    /\ "route" \in Rules => sys = <<>>
    /\ UNCHANGED vars

\* destroying a resource none of whose regions is in use
CanDestroy(i) == L(i).k = "mono" \/ At(i) = {}

\* deallocating address a at pool i (whose upstream is absent) is misuse
InBlocks(i, a) == a >= Org(L(i)) /\ a < Org(L(i)) + NBlocks(L(i)) * L(i).B /\ NBlocks(L(i)) > 0
Misuse(i, a) ==
    /\ L(i).k = "pool"
    /\ \/ ~Aligned(a, L(i).lb)
       \/ InBlocks(i, a) /\ ~\E h \in At(i) : live[h].a = a
       \/ ~InBlocks(i, a) /\ i = K /\ cfg.term = "none"

Init(c) ==
    /\ cfg = c
    /\ live = <<>>
    /\ nx = [i \in 1..Len(c.lv) |-> c.lv[i].base]

(***************************************************************************)
(* State invariants                                                        *)
(***************************************************************************)
InvDisjoint ==
    \A i \in 1..K : \A g, h \in At(i) :
        g # h => \/ live[g].a + live[g].sz <= live[h].a
                 \/ live[h].a + live[h].sz <= live[g].a
InvInside ==
    \A i \in 1..K : \A h \in At(i) :
        /\ live[h].a >= L(i).base
        /\ live[h].a + live[h].sz <= L(i).base + L(i).len
InvTiling ==
    \A i \in 1..K : L(i).k = "pool" =>
        LET R == Regions(i)
            N == NBlocks(L(i))
        IN  /\ N > 0 => \A b \in 0..(N - 1) :
                  Cardinality({r \in R : r[1] <= b /\ b < r[1] + r[2]}) = 1
            /\ \A r, q \in R : r[3] = 0 /\ q[3] = 0 => r[1] + r[2] # q[1]
            /\ Cardinality({r \in R : r[3] = 1}) = Cardinality(At(i))
            /\ At(i) = {} /\ N > 0 => R = {<<0, N, 0>>}
=============================================================================
