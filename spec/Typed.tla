------------------------------- MODULE Typed --------------------------------
(***************************************************************************)
(* Typed allocators over recording resources (property C08).  An operation *)
(* on an allocator is a sequence of primitive steps pr: asking a resource  *)
(* ("alloc"), constructing ("ctor"), moving an argument ("mv"), destroying *)
(* ("dtor"), giving back ("free").  Each action below says which sequences *)
(* are right.                                                              *)
(*                                                                         *)
(* Element counts are symbolic: [f, d] stands for base(f) + d with         *)
(*   lit 0     Q  floor(MAX / element size)    p32  2^32    p63  2^63      *)
(* and requested sizes are recorded relative to base(f) * element size.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
    bound,  \* allocator -> resource
    objs,   \* block -> [T, r]   objects alive
    raw     \* block -> [r]      raw and array blocks alive
vars == <<bound, objs, raw>>

\* size and alignment of the element types of the harness
Types == << [sz |-> 1, al |-> 1], [sz |-> 2, al |-> 2], [sz |-> 3, al |-> 1],
            [sz |-> 4, al |-> 4], [sz |-> 8, al |-> 8], [sz |-> 24, al |-> 8],
            [sz |-> 64, al |-> 32], [sz |-> 256, al |-> 128] >>
\* kinds of constructor calls: 0 (), 1 Arg&, 2 const Arg&, 3 Arg&&,
\* 4 const Arg&&, 5 (Arg&&, Arg&), 6 (move-only by value), 7 const T&, 8 T&&,
\* 9 (const Arg&, Arg&&, int&), 10 (int, int) of a type that also has an
\* initializer-list constructor
Kinds == 0..10
Slots == {1, 2}
SlotType == <<4, 6>>     \* element types of the two allocators
Ress == {1, 2}

Init == /\ bound \in [Slots -> Ress]
        /\ objs = <<>> /\ raw = <<>>

Restrict(f, S) == [x \in (DOMAIN f) \cap S |-> f[x]]
Fresh(b) == b > 0 /\ b \notin (DOMAIN objs) \cup (DOMAIN raw)

Representable(c, sz) == \/ c.f \in {"lit", "p32"}
                        \/ c.f = "Q" /\ c.d <= 0
                        \/ c.f = "p63" /\ sz = 1

\* one request for at least sz bytes at alignment at least al from resource r
Asks(p, r, sz, al) == p.k = "alloc" /\ p.r = r /\ p.f = "lit" /\ p.off >= sz /\ p.al >= al
Asked(p, r, c, sz, al) == /\ p.k = "alloc" /\ p.r = r /\ p.f = c.f
                          /\ p.off = c.d * sz /\ p.al >= al

\* a block of at least that size went through: b = 0 means refused
New(s, T, kind, b, pr) ==
    LET ty == Types[T]
        mv == IF kind = 6 THEN 1 ELSE 0
    IN  /\ Len(pr) >= 1
        /\ Asks(pr[1], bound[s], ty.sz, ty.al)
        /\ pr[1].b = b
        /\ IF b = 0
           THEN Len(pr) = 1 /\ UNCHANGED vars
           ELSE /\ Fresh(b)
                /\ Len(pr) = 2 + mv
                /\ mv = 1 => pr[2].k = "mv"
                \* built at the start of that very block, from the arguments
                \* as they were passed (kind), the same objects (same)
                /\ LET q == pr[2 + mv]
                   IN q.k = "ctor" /\ q.b = b /\ q.T = T /\ q.kind = kind /\ q.same
                /\ objs' = (b :> [T |-> T, r |-> bound[s]]) @@ objs
                /\ UNCHANGED <<bound, raw>>

\* placement construction in a raw block, and destruction by hand
Construct(s, T, kind, b, pr) ==
    LET mv == IF kind = 6 THEN 1 ELSE 0
    IN  /\ Len(pr) = 1 + mv
        /\ mv = 1 => pr[1].k = "mv"
        /\ LET q == pr[1 + mv] IN q.k = "ctor" /\ q.b = b /\ q.T = T /\ q.kind = kind /\ q.same
        /\ UNCHANGED vars

Delete(s, b, pr) ==
    /\ b \in DOMAIN objs /\ objs[b].r = bound[s]
    /\ Len(pr) = 2
    /\ pr[1].k = "dtor" /\ pr[1].b = b /\ pr[1].T = objs[b].T
    /\ pr[2].k = "free" /\ pr[2].b = b /\ pr[2].r = bound[s]
    /\ objs' = Restrict(objs, DOMAIN objs \ {b})
    /\ UNCHANGED <<bound, raw>>

DeleteNull(pr) == pr = <<>> /\ UNCHANGED vars

\* count elements of type T; out is the block returned
Array(s, T, c, out, pr) ==
    LET ty == Types[T] IN
    IF Representable(c, ty.sz)
    THEN /\ Len(pr) = 1
         /\ Asked(pr[1], bound[s], c, ty.sz, ty.al)
         /\ out = pr[1].b
         /\ IF out = 0 THEN UNCHANGED vars
            ELSE /\ Fresh(out)
                 /\ raw' = (out :> [r |-> bound[s]]) @@ raw
                 /\ UNCHANGED <<bound, objs>>
    ELSE /\ out = 0
         /\ \A i \in 1..Len(pr) : pr[i].k = "alloc" /\ pr[i].b = 0
         /\ UNCHANGED vars

Bytes(s, n, al, out, pr) ==
    /\ Len(pr) = 1
    /\ pr[1].k = "alloc" /\ pr[1].r = bound[s] /\ pr[1].f = "lit" /\ pr[1].off = n /\ pr[1].al = al
    /\ out = pr[1].b
    /\ IF out = 0 THEN UNCHANGED vars
       ELSE /\ Fresh(out) /\ raw' = (out :> [r |-> bound[s]]) @@ raw
            /\ UNCHANGED <<bound, objs>>

FreeRaw(s, b, pr) ==
    /\ b \in DOMAIN raw /\ raw[b].r = bound[s]
    /\ Len(pr) = 1 /\ pr[1].k = "free" /\ pr[1].b = b /\ pr[1].r = bound[s]
    /\ raw' = Restrict(raw, DOMAIN raw \ {b})
    /\ UNCHANGED <<bound, objs>>

\* a trivial object: its value is that of the arguments
Plain(s, v, out, got, pr) ==
    /\ Len(pr) = 2
    /\ Asks(pr[1], bound[s], 4, 4)
    /\ out = 0 => pr[2].k = "none"
    /\ out # 0 => got = v /\ pr[2].k = "free" /\ pr[2].b = pr[1].b /\ pr[2].r = bound[s]
    /\ (out = 0) = (pr[1].b = 0)
    /\ UNCHANGED vars

\* copying or converting an allocator shares its resource
Share(from, to) == /\ bound' = [bound EXCEPT ![to] = bound[from]]
                   /\ UNCHANGED <<objs, raw>>
Rebind(s, r) == /\ bound' = [bound EXCEPT ![s] = r]
                /\ UNCHANGED <<objs, raw>>
Equal(a, b, eq, ne) == /\ eq = (bound[a] = bound[b])
                       /\ ne = (bound[a] # bound[b])
                       /\ UNCHANGED vars

Owned == /\ \A b \in DOMAIN objs : b \notin DOMAIN raw
         /\ \A b \in DOMAIN objs : objs[b].T \in 1..Len(Types)
=============================================================================
