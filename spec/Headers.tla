------------------------------- MODULE Headers -------------------------------
(***************************************************************************)
(* The library's headers as a program sees them (property C31).  A         *)
(* translation unit includes headers in some order, any of them again and  *)
(* again; what a header offers is usable from then on.  Questions about    *)
(* what is offered have the same answer in every unit of a program, and    *)
(* the program's single objects are the same objects in all of them.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Most            \* includes of a unit
VARIABLES inc, got
vars == <<inc, got>>
\* larger units handed over by the harness
More == IF "MORE" \in DOMAIN IOEnv THEN ndJsonDeserialize(IOEnv.MORE) ELSE <<>>
Basic == {"clz", "common", "ctz", "detector", "fast_pimpl", "function_traits", "padding_checker", "timer", "type_list", "value_list", "cartesian_product",
          "memory/allocator", "memory/memory", "memory/monotonic_buffer_resource", "memory/simple_resource"}
Headers == Basic \cup {"utils"}
Own(h) ==
    CASE h = "clz" -> {"clz of 40"}
      [] h = "common" -> {"multiple of 8 from 13", "bits of 1000", "abort for no reason", "filled", "array sum", "bits table", "numbers to 5"}
      [] h = "ctz" -> {"ctz of 40"}
      [] h = "detector" -> {"detected"}
      [] h = "fast_pimpl" -> {"held"}
      [] h = "function_traits" -> {"const method", "method found"}
      [] h = "padding_checker" -> {"padding"}
      [] h = "timer" -> {"timer calls"}
      [] h = "type_list" -> {"types", "smallest type"}
      [] h = "value_list" -> {"greatest value"}
      [] h = "cartesian_product" -> {"pairs"}
      [] h = "memory/memory" -> {"alignment", "wiped", "moved", "default resource", "system resource", "null resource", "system serves"}
      [] h = "memory/allocator" -> {"typed object"}
      [] h = "memory/monotonic_buffer_resource" -> {"bumped"}
      [] h = "memory/simple_resource" -> {"pool busy"}
      [] OTHER -> {}
Offers(h) == IF h = "utils" THEN UNION {Own(x) : x \in Basic} ELSE Own(h)
\* objects there is one of in a program: a unit's answer is which object
Single == {"default resource", "system resource", "null resource"}
RECURSIVE Bits(_)
Bits(n) == IF n = 0 THEN 0 ELSE 1 + Bits(n \div 2)
RECURSIVE Low(_)
Low(n) == IF n % 2 = 1 THEN 0 ELSE 1 + Low(n \div 2)
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Answer(q) ==
    CASE q = "clz of 40" -> 32 - Bits(40)
      [] q = "ctz of 40" -> Low(40)
      [] q = "multiple of 8 from 13" -> ((13 + 7) \div 8) * 8
      [] q = "bits of 1000" -> Bits(1000)
      [] q = "abort for no reason" -> 0                      \* goes on
      [] q = "filled" -> 1
      [] q = "array sum" -> Sum(<<3, 4, 5, 3, 4, 5>>)        \* an array joined to itself
      [] q = "numbers to 5" -> Cardinality(0..5)
      [] q = "bits table" -> Bits(255)
      [] q = "detected" -> 10                                \* a member that is there, one that is not
      [] q = "held" -> 7
      [] q = "const method" -> 10
      [] q = "method found" -> 1110
      [] q = "padding" -> 10
      [] q = "timer calls" -> 1
      [] q = "types" -> Len(<<"char", "int", "char">>)
      [] q = "smallest type" -> 1
      [] q = "greatest value" -> 9
      [] q = "pairs" -> Cardinality({1} \X {1, 2})
      [] q = "alignment" -> 2 ^ Low(24)
      [] q = "wiped" -> 0
      [] q = "moved" -> 12
      [] q = "system serves" -> 1
      [] q = "typed object" -> 7
      [] q = "bumped" -> 16                                   \* 3 bytes, then 8 aligned to 16
      [] q = "pool busy" -> 2
      [] q \in Single -> -1                                   \* which one, is up to the program
Init == inc = <<>> /\ got = [q \in {} |-> 0]
Include(h) == /\ inc' = Append(inc, h)
              /\ got' = [q \in DOMAIN got \cup Offers(h) |-> IF q \in DOMAIN got THEN got[q] ELSE Answer(q)]
Next == \/ Len(inc) < Most /\ \E h \in Headers : Include(h)
        \/ \E i \in DOMAIN More :
              /\ Len(More[i]) > Len(inc)
              /\ (\A k \in DOMAIN inc : inc[k] = More[i][k])
              /\ Include(More[i][Len(inc) + 1])
Spec == Init /\ [][Next]_vars
Range(s) == {s[i] : i \in DOMAIN s}
\* the order and the number of includes do not matter
OrderFree == got = [q \in UNION {Offers(h) : h \in Range(inc)} |-> Answer(q)]
\* nothing is lost
Kept == [][\A q \in DOMAIN got : q \in DOMAIN got' /\ got'[q] = got[q]]_vars
Emit == inc # <<>> => PrintT("E|" \o ToJson([inc |-> inc, got |-> got, single |-> Single \cap DOMAIN got]))
=============================================================================
