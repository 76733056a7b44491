------------------------------ MODULE TimerMC -------------------------------
EXTENDS Timer, Json
CONSTANTS Kinds, MaxTick
VARIABLE op
O(k, d, s, x, y) == [op |-> k, d |-> d, s |-> s, x |-> x, y |-> y]
Cbs == {obj[i].cb : i \in Slots}
NewCb == CHOOSE c \in 1..(Cardinality(Slots) + 1) : c \notin Cbs /\ \A b \in 1..(c - 1) : b \in Cbs
Call(i) == IF obj[i].cb = 0 THEN <<>>
           ELSE <<[id |-> obj[i].cb, at |-> i, start |-> obj[i].start, leaked |-> Diff(now, obj[i].start)]>>
MCInit == Init /\ op = O("init", 0, 0, 0, 0)
MCNext ==
  \/ \E i \in Slots, k \in Kinds : Construct(i, NewCb, <<>>) /\ op' = O("new", i, 0, k, NewCb)
  \/ \E d, s \in Slots : MoveNew(d, s, <<>>) /\ op' = O("movenew", d, s, 0, 0)
  \/ \E d, s \in Slots : MoveAssign(d, s, <<>>) /\ op' = O("assign", d, s, 0, 0)
  \/ \E i \in Slots : Reset(i, <<>>) /\ op' = O("reset", i, 0, 0, 0)
  \/ \E i \in Slots : Destroy(i, Call(i)) /\ op' = O("del", i, 0, 0, 0)
  \/ \E i \in Slots : obj[i].on /\ UNCHANGED vars /\ op' = O("read", i, 0, 0, 0)
  \/ now[1] < MaxTick /\ Tick(<<now[1] + 1, 0>>) /\ op' = O("tick", 0, 0, 0, 0)
MCSpec == MCInit /\ [][MCNext]_<<vars, op>>
View == <<[i \in Slots |-> <<IF obj[i].on THEN 1 ELSE 0, obj[i].cb, obj[i].start[1]>>], now[1]>>
Emit == PrintT("E|" \o ToJson([s |-> View, o |-> op', t |-> View']))
=============================================================================
