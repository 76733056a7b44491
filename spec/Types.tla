-------------------------------- MODULE Types -------------------------------
(***************************************************************************)
(* Types as terms, and the predicates, transformations and detection of    *)
(* the library on them (properties C25, C28).  A term is [k, q, of]: kind, *)
(* qualifiers (a subset of {"c", "v"}), and the type inside.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Bad == [k |-> "bad", q |-> {}, of |-> <<>>]
Names == {"void", "bool", "unsigned char", "char", "int", "unsigned long", "char16_t", "float", "nullptr_t", "byte", "enum", "struct",
          "function", "tuple0", "array0", "types0", "values1"}
Base(n) == [k |-> n, q |-> {}, of |-> <<>>]
IsRef(t) == t.k \in {"&", "&&"}
IsFun(t) == t.k = "function"
IsVoid(t) == t.k = "void"
IsArr(t) == t.k = "[3]"
In(t) == t.of[1]
Wrap(k, t) == [k |-> k, q |-> {}, of |-> <<t>>]
RECURSIVE Cv(_, _)
\* qualifying a reference or function type changes nothing; an array's
\* qualifiers are its elements'
Cv(c, t) == IF IsRef(t) \/ IsFun(t) THEN t
            ELSE IF IsArr(t) THEN Wrap("[3]", Cv(c, In(t)))
            ELSE [t EXCEPT !.q = @ \cup {c}]
RECURSIVE Plain(_)
Plain(t) == IF IsRef(t) THEN Plain(In(t)) ELSE IF IsArr(t) THEN Wrap("[3]", Plain(In(t))) ELSE [t EXCEPT !.q = {}]
Object(t) == ~IsRef(t) /\ ~IsFun(t) /\ ~IsVoid(t)
RECURSIVE Quals(_)
Quals(t) == IF IsArr(t) THEN Quals(In(t)) ELSE t.q
\* the constructors; Bad when there is no such type
Apply(c, t) ==
    CASE c = "const" -> Cv("c", t)
      [] c = "volatile" -> Cv("v", t)
      [] c = "&" -> IF IsVoid(t) THEN Bad ELSE IF IsRef(t) THEN Wrap("&", In(t)) ELSE Wrap("&", t)
      [] c = "&&" -> IF IsVoid(t) THEN Bad ELSE IF IsRef(t) THEN t ELSE Wrap("&&", t)
      [] c = "*" -> IF IsRef(t) THEN Bad ELSE Wrap("*", t)
      [] c = "[3]" -> IF Object(t) THEN Wrap("[3]", t) ELSE Bad
      [] c = "array" -> IF Object(t) THEN Wrap("array", t) ELSE Bad
      [] c = "tuple" -> IF IsVoid(t) \/ IsFun(t) \/ IsArr(t) THEN Bad ELSE Wrap("tuple", t)
      [] c = "wrapper" -> IF IsVoid(t) \/ IsRef(t) THEN Bad ELSE Wrap("wrapper", t)
      [] c = "types" -> Wrap("types", t)
Constructors == {"const", "volatile", "&", "&&", "*", "[3]", "array", "tuple", "wrapper", "types"}
RECURSIVE Build(_)
Build(s) == IF Len(s) = 1 THEN Base(s[1])
            ELSE LET t == Build(SubSeq(s, 1, Len(s) - 1))
                 IN  IF t = Bad THEN Bad ELSE Apply(s[Len(s)], t)
\* -------------------------------------------------------- transformations
RemoveRef(t) == IF IsRef(t) THEN In(t) ELSE t
RECURSIVE RemoveCv(_)
RemoveCv(t) == IF IsArr(t) THEN Wrap("[3]", RemoveCv(In(t))) ELSE [t EXCEPT !.q = {}]
RemoveCvRef(t) == RemoveCv(RemoveRef(t))
Decay(t) == LET u == RemoveRef(t)
            IN  IF IsArr(u) THEN Wrap("*", In(u)) ELSE IF IsFun(u) THEN Wrap("*", u) ELSE RemoveCv(u)
Unwrap(t) == IF t.k = "wrapper" /\ t.q = {} THEN Apply("&", In(t)) ELSE t
\* ------------------------------------------------------------- predicates
UInts == {"unsigned char", "unsigned long", "char16_t"}
IsUInt(t) == t.k \in UInts
\* asked of unqualified bytes only
IsUIntOrByte(t) == IsUInt(t) \/ (t.k = "byte" /\ t.q = {})
Exactly(t, ks) == t.k \in ks /\ t.q = {}
IsStdArray(t) == Exactly(t, {"array", "array0"})
IsStdArrayV(t) == IsStdArray(Decay(t))
IsTuple(t) == Exactly(t, {"tuple", "tuple0"})
IsWrapper(t) == Exactly(t, {"wrapper"})
IsTypeList(t) == Exactly(t, {"types", "types0"})
IsValueList(t) == Exactly(t, {"values1"})
\* -------------------------------------------------------------- detection
\* operations a type may or may not support, and the type they yield
Detect(o, t) ==
    CASE o = "lref" -> Apply("&", t)
      [] o = "pointer" -> Apply("*", t)
      [] o = "array" -> Apply("[3]", t)
      [] o = "element" -> IF IsStdArray(RemoveCv(t)) /\ t.k # "array0" THEN In(t) ELSE IF t.k = "array0" THEN Base("int") ELSE Bad
      [] o = "deref" -> LET u == RemoveRef(t)
                        IN  IF u.k = "*" /\ ~IsVoid(In(u)) THEN Apply("&", In(u))
                            ELSE IF IsArr(u) THEN Apply("&", In(u))
                            ELSE IF IsFun(u) THEN Wrap("&", u) ELSE Bad
      [] o = "sum" -> LET u == RemoveRef(t)       \* T + 1
                      IN  IF u.k \in {"bool", "unsigned char", "char", "int", "char16_t", "enum"} THEN Base("int")
                          ELSE IF u.k \in {"unsigned long", "float"} THEN Base(u.k)
                          ELSE IF u.k = "*" /\ Object(In(u)) THEN Wrap("*", In(u))
                          ELSE IF IsArr(u) THEN Wrap("*", In(u)) ELSE Bad
Operations == <<"lref", "pointer", "array", "element", "deref", "sum">>
Fallback == Base("struct")
DetectedOr(o, t) == LET d == Detect(o, t) IN IF d = Bad THEN Fallback ELSE d
B(x) == IF x THEN 1 ELSE 0
Answers(t) == << B(IsUInt(t)), IF t.k = "byte" /\ t.q # {} THEN 2 ELSE B(IsUIntOrByte(t)), B(IsStdArray(t)), B(IsStdArrayV(t)), B(IsTuple(t)), B(IsWrapper(t)),
                 B(IsTypeList(t)), B(IsValueList(t)) >>
ArrayOf(t) == LET d == Decay(t) IN IF ~IsStdArrayV(t) THEN <<>> ELSE IF d.k = "array0" THEN <<0, Base("int")>> ELSE <<2, In(d)>>
=============================================================================
