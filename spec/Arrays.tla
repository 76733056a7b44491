------------------------------- MODULE Arrays -------------------------------
(***************************************************************************)
(* Building arrays (property C23).  A request is executed step by step:    *)
(* each step appends one element to `out`; `src` is what the objects the   *)
(* request was made from look like ("kept" or possibly "moved").           *)
(*  args    objects passed as expressions 1 lvalue 2 const lvalue 3 rvalue *)
(*          4 const rvalue                                                 *)
(*  mixed   numbers of several types, converted to the common type         *)
(*  repeat  one value n times                                              *)
(*  lead    the first n characters of a view, converted to a type          *)
(*  pick    the characters of a view at given positions                    *)
(*  range   from .. to by step                                             *)
(*  values  every value first..last                                        *)
(*  concat  whole arrays, each passed as such an expression                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Deep
VARIABLES req, out, src
vars == <<req, out, src>>
More == IF "MORE" \in DOMAIN IOEnv THEN ndJsonDeserialize(IOEnv.MORE) ELSE <<>>
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}

\* ---- number types
Types == {"i8", "u8", "i16", "u16", "i32"}
Width(t) == CASE t \in {"i8", "u8"} -> 8 [] t \in {"i16", "u16"} -> 16 [] OTHER -> 32
Signed(t) == t \in {"i8", "i16", "i32"}
Convert(v, t) == IF Width(t) = 32 THEN v
                 ELSE LET m == v % (2^Width(t)) IN IF Signed(t) /\ m >= 2^(Width(t) - 1) THEN m - 2^Width(t) ELSE m
Rank(t) == CASE t = "i32" -> 1 [] t = "i64" -> 2 [] t = "f32" -> 1 [] t = "f64" -> 2 [] OTHER -> 0
Floats == {"f32", "f64"}
Two(a, b) == IF a = b THEN a ELSE IF Rank(a) = 0 /\ Rank(b) = 0 THEN "i32" ELSE IF Rank(a) > Rank(b) THEN a ELSE b
RECURSIVE Common(_)
Common(s) == IF Len(s) = 1 THEN s[1] ELSE Two(Common(SubSeq(s, 1, Len(s) - 1)), s[Len(s)])

\* ---- the elements a request asks for, in order
Ints == Types \cup {"i64"}
Small == -3..4
Requests ==
      {[kind |-> "args", els |-> s] : s \in Seqs(1..4, 3) \ {<<>>}}
 \cup {[kind |-> "mixed", els |-> s] : s \in Seqs(Ints, IF Deep THEN 3 ELSE 2) \ {<<>>}}
 \cup {[kind |-> "mixed", els |-> s] : s \in Seqs(Floats, 3) \ {<<>>}}
 \cup {[kind |-> "repeat", els |-> <<n>>] : n \in (0..6) \cup {9, 16, 17, 33, 64, 100}}
 \cup {[kind |-> "lead", view |-> v, n |-> n, to |-> t] : v \in {<<>>, <<97, 0, -1>>, <<-128, 127, 1>>}, n \in 0..3, t \in Types}
 \cup {[kind |-> "pick", view |-> <<99, -2, 0, 98>>, els |-> s] : s \in Seqs(0..3, IF Deep THEN 4 ELSE 3)}
 \cup {[kind |-> "range", ty |-> t, from |-> b, to |-> e, step |-> s] : t \in Types, b \in Small, e \in Small, s \in 1..4}
 \* one value needs no step
 \cup {[kind |-> "range", ty |-> t, from |-> b, to |-> b, step |-> s] : t \in Types, b \in {0, 3, 100}, s \in {0, -1, -7}}
 \cup {[kind |-> "values", ty |-> t, from |-> b, to |-> e] : t \in Types, b \in Small, e \in Small}
 \cup {[kind |-> "concat", els |-> s] : s \in Seqs([n : 0..2, via : 1..4], 2) \ {<<>>}}
Fits(v, t) == Convert(v, t) = v
Asked(r) == /\ r.kind \in {"range", "values"} => r.from <= r.to /\ Fits(r.from, r.ty) /\ Fits(r.to, r.ty)
            /\ r.kind = "lead" => r.n <= Len(r.view)
RECURSIVE Upto(_, _, _)
\* (no difference of bounds: it may be wider than a number)
MaxNum == 2147483647
Upto(v, e, s) == IF v < e /\ (v <= 0 \/ s <= MaxNum - v) /\ v + s <= e THEN <<v>> \o Upto(v + s, e, s) ELSE <<v>>
RECURSIVE Names(_, _)
\* element names of arrays: array i holds i * 10 + position
Names(s, i) == IF s = <<>> THEN <<>> ELSE [k \in 1..Head(s).n |-> i * 10 + k] \o Names(Tail(s), i + 1)
Want(r) ==
    CASE r.kind = "args" -> [i \in DOMAIN r.els |-> i]
      [] r.kind = "mixed" -> [i \in DOMAIN r.els |-> i]
      [] r.kind = "repeat" -> [i \in 1..r.els[1] |-> 1]
      [] r.kind = "lead" -> [i \in 1..r.n |-> Convert(r.view[i], r.to)]
      [] r.kind = "pick" -> [i \in DOMAIN r.els |-> r.view[r.els[i] + 1]]
      [] r.kind = "range" -> Upto(r.from, r.to, r.step)
      [] r.kind = "values" -> Upto(r.from, r.to, 1)
      [] r.kind = "concat" -> Names(r.els, 1)
\* objects that must be as they were: everything not passed as a mutable rvalue
Keep(r) ==
    CASE r.kind = "args" -> [i \in DOMAIN r.els |-> IF r.els[i] = 3 THEN 0 ELSE 1]
      [] r.kind = "concat" -> [i \in DOMAIN r.els |-> IF r.els[i].via = 3 THEN 0 ELSE 1]
      [] r.kind = "repeat" -> <<1>>
      [] OTHER -> <<>>

Init == /\ req \in {r \in Requests : Asked(r)} \cup {More[i] : i \in DOMAIN More}
        /\ out = <<>> /\ src = Keep(req)
Add == /\ Len(out) < Len(Want(req))
       /\ out' = Append(out, Want(req)[Len(out) + 1])
       /\ UNCHANGED <<req, src>>
Spec == Init /\ [][Add]_vars
Done == Len(out) = Len(Want(req))
\* what the requests mean, said again without recursion
RangeRight == Done /\ req.kind \in {"range", "values"} =>
    LET st == IF req.kind = "range" THEN req.step ELSE 1
        wide == \E m \in {-1000000, 1000000} : req.from < m /\ req.to > m
    IN  /\ req.from = req.to => out = <<req.from>>
        /\ ~wide /\ st > 0 => {out[i] : i \in DOMAIN out} = {req.from + d : d \in {x \in 0..(req.to - req.from) : x % st = 0}}
        /\ \A i \in 2..Len(out) : out[i] = out[i - 1] + st
ConcatRight == Done /\ req.kind = "concat" =>
    /\ \A i \in DOMAIN out, j \in DOMAIN out : i < j => out[i] < out[j]
    /\ {out[i] : i \in DOMAIN out} = UNION {{i * 10 + k : k \in 1..req.els[i].n} : i \in DOMAIN req.els}
NarrowFits == Done /\ req.kind = "lead" => \A i \in DOMAIN out : Fits(out[i], req.to) /\ (Fits(req.view[i], req.to) => out[i] = req.view[i])
CommonHolds == req.kind = "mixed" => LET c == Common(req.els) IN \A i \in DOMAIN req.els : Two(c, req.els[i]) = c
Emit == Done => PrintT("E|" \o ToJson([req |-> req, out |-> out, keep |-> src, common |-> IF req.kind = "mixed" THEN Common(req.els) ELSE ""]))

=============================================================================
