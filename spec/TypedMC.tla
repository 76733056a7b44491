------------------------------ MODULE TypedMC -------------------------------
EXTENDS Typed, Json
CONSTANTS TS, Objs, Raws
VARIABLE op
O(k, s, T, x, f, d, b) == [op |-> k, s |-> s, T |-> T, x |-> x, f |-> f, d |-> d, b |-> b]
NewBlk == CHOOSE n \in 1..20 : Fresh(n) /\ \A m \in 1..(n - 1) : ~Fresh(m)
Al(r, f, off, al, b) == [k |-> "alloc", r |-> r, f |-> f, off |-> off, al |-> al, b |-> b]
Counts == {[f |-> "lit", d |-> d] : d \in {0, 1, 2, 3, 7}}
     \cup {[f |-> "Q", d |-> d] : d \in {-1, 0, 1, 2}}
     \cup {[f |-> "p32", d |-> d] : d \in {-1, 0, 1}}
     \cup {[f |-> "p63", d |-> d] : d \in {-1, 0, 1}}
CanServe(c) == c.f = "lit"
Mv(kind) == IF kind = 6 THEN <<[k |-> "mv"]>> ELSE <<>>
Ct(b, T, kind) == [k |-> "ctor", b |-> b, T |-> T, kind |-> kind, same |-> TRUE]
Blk(b) == [k |-> "free", b |-> b, r |-> 0]

MCInit == Init /\ op = O("init", 0, 0, 0, "", 0, 0)
MCNext ==
  \/ \E s \in Slots, T \in TS, kind \in Kinds : \E b \in {0} \cup (IF Cardinality(DOMAIN objs) < Objs THEN {NewBlk} ELSE {}) :
        /\ New(s, T, kind, b, <<Al(bound[s], "lit", Types[T].sz, Types[T].al, b)>> \o (IF b = 0 THEN <<>> ELSE Mv(kind) \o <<Ct(b, T, kind)>>))
        /\ op' = O("new", s, T, kind, "", IF b = 0 THEN 1 ELSE 0, b)
  \/ \E s \in Slots, b \in DOMAIN objs : objs[b].r = bound[s]
        /\ Delete(s, b, <<[k |-> "dtor", b |-> b, T |-> objs[b].T], [k |-> "free", b |-> b, r |-> bound[s]]>>)
        /\ op' = O("del", s, objs[b].T, 0, "", 0, b)
  \/ \E s \in Slots, T \in TS : DeleteNull(<<>>) /\ op' = O("delnull", s, T, 0, "", 0, 0)
  \/ \E s \in Slots, c \in Counts : \E T \in TS \cup {0} :
        LET TT == IF T = 0 THEN SlotType[s] ELSE T
            rep == Representable(c, Types[TT].sz)
        IN  \E b \in {0} \cup (IF rep /\ CanServe(c) /\ Cardinality(DOMAIN raw) < Raws THEN {NewBlk} ELSE {}) :
            /\ Array(s, TT, c, b, IF rep THEN <<Al(bound[s], c.f, c.d * Types[TT].sz, Types[TT].al, b)>> ELSE <<>>)
            /\ op' = O("array", s, T, IF b = 0 THEN 1 ELSE 0, c.f, c.d, b)
  \/ \E s \in Slots, n \in {0, 1, 24}, al \in {0, 1, 64} : \E b \in {0} \cup (IF Cardinality(DOMAIN raw) < Raws THEN {NewBlk} ELSE {}) :
        /\ Bytes(s, n, IF al = 0 THEN 16 ELSE al, b, <<Al(bound[s], "lit", n, IF al = 0 THEN 16 ELSE al, b)>>)
        /\ op' = O("bytes", s, al, IF b = 0 THEN 1 ELSE 0, "", n, b)
  \/ \E s \in Slots, b \in DOMAIN raw, how \in 0..2 : raw[b].r = bound[s]
        /\ FreeRaw(s, b, <<[k |-> "free", b |-> b, r |-> bound[s]]>>)
        /\ op' = O("freeraw", s, 0, how, "", 0, b)
  \/ \E s \in Slots, v \in {0, 7}, f \in {0, 1} :
        /\ UNCHANGED vars
        /\ op' = O("plain", s, 0, v, "", f, 0)
  \/ \E s \in Slots, T \in TS, kind \in Kinds : UNCHANGED vars /\ op' = O("construct", s, T, kind, "", 0, 0)
  \/ \E a, b \in Slots, how \in 0..2 : Share(a, b) /\ op' = O("share", a, 0, how, "", 0, b)
  \/ \E s \in Slots, r \in Ress : Rebind(s, r) /\ op' = O("rebind", s, 0, r, "", 0, 0)
  \/ \E a, b \in Slots : Equal(a, b, bound[a] = bound[b], bound[a] # bound[b]) /\ op' = O("equal", a, 0, 0, "", 0, b)
MCSpec == MCInit /\ [][MCNext]_<<vars, op>>
\* which block carries an object does not matter, only that the harness can
\* name it
View == <<bound, {<<b, objs[b].T, objs[b].r>> : b \in DOMAIN objs}, {<<b, raw[b].r>> : b \in DOMAIN raw}>>
Emit == PrintT("E|" \o ToJson([s |-> View, o |-> op', t |-> View']))
=============================================================================
