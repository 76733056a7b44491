------------------------------ MODULE MemberMC ------------------------------
EXTENDS Member, Json
CONSTANT Deep
VARIABLES cls, op
vars == <<cls, op>>
Acc == {"public", "protected", "private"}
Inh == Acc
Plain == (DataKinds \cup Unaddressable \cup StaticKinds \cup Others)
Decl(acc) == {[k |-> k, acc |-> acc, t |-> 0] : k \in Plain}
     \cup {[k |-> "type", acc |-> acc, t |-> x] : x \in {1, 2, 3, 4, 5, 6, 7}}
     \cup {[k |-> "nested", acc |-> acc, t |-> 11]}
Few(acc) == {[k |-> k, acc |-> acc, t |-> 0] : k \in {"data", "static", "method", "smethod", "enumr"}} \cup {[k |-> "type", acc |-> acc, t |-> 1]}
Bas(d, i) == [d |-> d, inh |-> i]
Cls(o, b, s) == [own |-> o, bases |-> b, shape |-> s]
Single == {Cls(d, <<>>, "tree") : d \in UNION {Decl(a) : a \in Acc} \cup {None}}
Derived == {Cls(None, <<Bas(d, i)>>, s) : d \in UNION {Decl(a) : a \in Acc}, i \in Inh, s \in {"tree", "deep"}}
Hiding == {Cls(o, <<Bas(d, "public")>>, "tree") : o \in UNION {Few(a) : a \in Acc}, d \in Few("public") \cup Few("private")}
Two == {Cls(o, <<Bas(d, "public"), Bas(e, i)>>, "tree") :
           o \in {None} \cup Few("public"), d \in Few("public"), e \in (Few("public") \cup Few("private") \cup {None}), i \in {"public", "private"}}
\* two typedefs of one type are not a conflict every compiler agrees on
TwoOk == {c \in Two : ~(c.bases[1].d.k = "type" /\ c.bases[2].d.k = "type")}
Diamonds == {Cls(None, <<Bas(d, "public")>>, s) : d \in Decl("public"), s \in {"diamond", "vdiamond"}}
Usings == {Cls([k |-> "using", acc |-> a, t |-> 0], <<Bas(d, i)>>, "using") :
              a \in Acc, d \in Decl("public") \cup Decl("protected"), i \in {"public", "private"}}
All == Single \cup Derived \cup Hiding \cup TwoOk \cup Diamonds \cup Usings
Init == op = <<>> /\ cls \in All
Next == op = <<>> /\ UNCHANGED cls /\ op' = Answers(cls)
Spec == Init /\ [][Next]_vars
Emit == PrintT("E|" \o ToJson([c |-> cls, a |-> op']))
\* a name denotes one kind of thing at most, and only an accessible one counts
Exclusive == B(HasType(cls)) + B(HasData(cls)) + B(HasStatic(cls)) <= 1
Open == (HasType(cls) \/ HasData(cls) \/ HasStatic(cls)) => Lookup(cls).acc = "public" \/ cls.shape = "using"
ExactOnce == Cardinality({x \in 1..11 : HasExact(cls, x)}) = B(HasType(cls))
=============================================================================
