------------------------------- MODULE Member -------------------------------
(***************************************************************************)
(* What a name means in a class, and what the member probes have to say    *)
(* about it (property C18).  A class is                                    *)
(*   [own, bases, shape]                                                   *)
(* own: its own declaration of the name; bases: sequence of                *)
(* [d: declaration, inh: access of the inheritance]; shape:                *)
(*   "tree" the bases are separate classes;                                *)
(*   "diamond" / "vdiamond" bases[1] is inherited twice through two        *)
(*   otherwise empty classes, non-virtually / virtually;                   *)
(*   "deep" bases[1] is inherited through an empty class;                  *)
(*   "using" the class redeclares the name of bases[1] with a              *)
(*   using-declaration of access own.acc.                                  *)
(* A declaration is [k, acc, t]: kind, access, type letter.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
None == [k |-> "none", acc |-> "public", t |-> 0]
TypeKinds == {"type", "nested"}
DataKinds == {"data", "dconst", "darray", "dfptr", "danon", "dmutable", "dclass"}
\* non-static data whose address cannot be formed
Unaddressable == {"dref", "dbits"}
StaticKinds == {"static", "sconst", "sconstexpr", "sarray", "sfptr", "sinline", "sref"}
Others == {"method", "cmethod", "smethod", "mtmpl", "ctmpl", "vtmpl", "enumr", "overloads"}
\* the same entity however often its class is inherited
Shared == TypeKinds \cup StaticKinds \cup {"smethod", "ctmpl", "vtmpl", "enumr"}
Hidden == [k |-> "hidden", acc |-> "private", t |-> 0]
Ambiguous == [k |-> "ambiguous", acc |-> "private", t |-> 0]

Through(b) == IF b.d.k = "none" THEN None
              ELSE IF b.d.acc = "public" /\ b.inh = "public" THEN b.d ELSE Hidden
\* the entity the name denotes outside the class
Lookup(c) ==
    IF c.shape = "using" THEN (IF c.own.acc = "public" THEN c.bases[1].d ELSE Hidden)
    ELSE IF c.own.k # "none" THEN (IF c.own.acc = "public" THEN c.own ELSE Hidden)
    ELSE LET found == SelectSeq(c.bases, LAMBDA b : b.d.k # "none")
         IN  IF found = <<>> THEN None
             ELSE IF Len(found) > 1 THEN Ambiguous
             ELSE IF c.shape = "diamond" /\ found[1].d.k \notin Shared THEN Ambiguous
             ELSE Through(found[1])
B(p) == IF p THEN 1 ELSE 0
HasType(c) == Lookup(c).k \in TypeKinds
HasData(c) == Lookup(c).k \in DataKinds
HasStatic(c) == Lookup(c).k \in StaticKinds
\* type letters: 1 int 2 double 3 S 4 D (derived from S) 5 void 6 int& 7 const
\* int 8 Any (constructible from everything) 9 const S& 10 bool 11 the nested
\* class itself
Letters == 1..10
Converts(a, b) ==
    \/ a \in {1, 2, 6, 7, 10} /\ b \in {1, 2, 7, 8, 10}
    \/ a = 6 /\ b = 6
    \/ a = 3 /\ b \in {3, 8, 9}
    \/ a = 4 /\ b \in {3, 4, 8, 9}
    \/ a = 5 /\ b = 5
    \/ a = 11 /\ b = 8
HasExact(c, x) == HasType(c) /\ Lookup(c).t = x
HasConvertible(c, x) == HasType(c) /\ Converts(Lookup(c).t, x)
Answers(c) == << B(HasType(c)), B(HasData(c)), B(HasStatic(c)) >>
              \o [x \in Letters |-> B(HasExact(c, x))]
              \o [x \in Letters |-> B(HasConvertible(c, x))]
=============================================================================
