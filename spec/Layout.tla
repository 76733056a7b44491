------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* Object layout of trivially copyable aggregates (property C20).  A type  *)
(* is [k, s, a, m]: "scalar" of size s and alignment a; "struct" with      *)
(* members m, over-aligned to a; "array" of s members m[1].  Its bytes are *)
(* placed one by one; padding is a byte no scalar covers.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Max(x, y) == IF x > y THEN x ELSE y
Up(x, a) == ((x + a - 1) \div a) * a
RECURSIVE Align(_)
Align(t) == CASE t.k = "scalar" -> t.a
              [] t.k = "array" -> IF t.s = 0 THEN 1 ELSE Align(t.m[1])
              [] t.k = "struct" -> LET f[i \in 0..Len(t.m)] == IF i = 0 THEN Max(1, t.a) ELSE Max(f[i - 1], Align(t.m[i]))
                                   IN  f[Len(t.m)]
RECURSIVE Size(_)
\* offset of every member and, last, the end of the last one
Offsets(t) == LET f[i \in 0..Len(t.m)] ==
                      IF i = 0 THEN <<0>>
                      ELSE LET p == f[i - 1]
                               o == Up(p[i], Align(t.m[i]))
                           IN  SubSeq(p, 1, i - 1) \o <<o, o + Size(t.m[i])>>
              IN  f[Len(t.m)]
Size(t) == CASE t.k = "scalar" -> t.s
             [] t.k = "array" -> IF t.s = 0 THEN 1 ELSE t.s * Size(t.m[1])
             [] t.k = "struct" -> LET o == Offsets(t) IN Max(Up(o[Len(o)], Align(t)), IF t.m = <<>> THEN Align(t) ELSE 1)
RECURSIVE Covered(_, _)
\* bytes of scalars in a value of the type placed at offset o
Covered(t, o) == CASE t.k = "scalar" -> o..(o + t.s - 1)
                   [] t.k = "array" -> IF t.s = 0 THEN {} ELSE UNION {Covered(t.m[1], o + i * Size(t.m[1])) : i \in 0..(t.s - 1)}
                   [] t.k = "struct" -> UNION {Covered(t.m[i], o + Offsets(t)[i]) : i \in DOMAIN t.m}
Padded(t) == Covered(t, 0) # 0..(Size(t) - 1)
=============================================================================
