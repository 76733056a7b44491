------------------------------- MODULE FuncMC -------------------------------
EXTENDS Func, Json, IOUtils
VARIABLE op
Shapes == LET s == ndJsonDeserialize(IOEnv.SHAPES) IN {s[i] : i \in DOMAIN s}
MCInit == /\ op = "init"
          /\ \E s \in Shapes, c, v, n \in BOOLEAN, r \in Refs :
                f = [ret |-> s.ret, ps |-> s.ps, c |-> c, v |-> v, r |-> r, n |-> n]
MCNext == \/ f' = RemoveC(f) /\ op' = "remove_const_qualifier"
          \/ f' = RemoveV(f) /\ op' = "remove_volatile_qualifier"
          \/ f' = RemoveR(f) /\ op' = "remove_reference_qualifier"
          \/ f' = RemoveN(f) /\ op' = "remove_noexcept_qualifier"
          \/ f' = Bare(f) /\ op' = "remove_all_qualifiers"
          \/ UNCHANGED f /\ op' = "query"
MCSpec == MCInit /\ [][MCNext]_<<f, op>>
View == f
Kinds == {"function", "pointer", "member", "data", "functor", "overloaded", "template", "hidden", "plain"}
Emit == PrintT("E|" \o ToJson(IF op' = "query"
           THEN [s |-> f, o |-> op', h |-> Has(f), k |-> [k \in Kinds |-> <<B(Invocable(k)), B(SimpleFunctor(k))>>]]
           ELSE [s |-> f, o |-> op', t |-> f']))
\* removing is idempotent, commutes, and all of it together leaves the bare type
Laws == /\ RemoveC(RemoveV(RemoveR(RemoveN(f)))) = Bare(f)
        /\ RemoveN(RemoveR(RemoveV(RemoveC(f)))) = Bare(f)
        /\ Has(Bare(f)) = <<0, 0, 0, 0, 0>>
        /\ ~(Has(f)[3] = 1 /\ Has(f)[4] = 1)
=============================================================================
