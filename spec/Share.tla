------------------------------- MODULE Share --------------------------------
(* A response and its copies share one hand-over: each message of the family *)
(* can create the endpoints that were not created when it was made, every    *)
(* value sent by any of them is received once, by one receiver, in the order *)
(* of sending, and a sender finding the hand-over occupied waits its turn.   *)
(* Copies of a request share nothing.                                        *)
EXTENDS Text
CONSTANTS Kinds, Vals, Most
VARIABLES s, op
New(snd, rcv) == [alive |-> TRUE, snd |-> snd, rcv |-> rcv, has |-> FALSE, wait |-> FALSE]
InitFrom(i) == [fresh |-> 1, kind |-> i.kind, m |-> << New("in", "in") >>, q |-> <<>>]
Up(st) == st.kind = "upgrade"
Senders(st) == {i \in 1..Len(st.m) : st.m[i].snd = "held" \/ (st.m[i].snd = "in" /\ st.m[i].alive)}
Receivers(st) == {i \in 1..Len(st.m) : st.m[i].rcv = "held" \/ (st.m[i].rcv = "in" /\ st.m[i].alive)}
Waiting(st) == {i \in 1..Len(st.m) : st.m[i].rcv = "held" /\ st.m[i].wait}
\* what nobody is left to receive is gone
Settle(st) == IF Receivers(st) = {} THEN [st EXCEPT !.q = <<>>] ELSE st
Panics == [k |-> "panics"]
\* some waiting receiver has been woken when there is a value, every one when there will be none
Res(st1, r) == LET st == Settle(st1) IN
  [s |-> st, r |-> [k |-> "sh", r |-> r, any |-> IF Waiting(st) # {} /\ st.q # <<>> THEN Ok(TRUE) ELSE DontCare,
                                         all |-> IF Waiting(st) # {} /\ st.q = <<>> /\ Senders(st) = {} THEN Ok(TRUE) ELSE DontCare]]
Apply(st0, o) ==
  LET st == [st0 EXCEPT !.fresh = 0]  i == o.i IN
  CASE o.n = "clone" -> Res([st EXCEPT !.m = Append(@, IF st.kind = "req" THEN New("lost", "lost")
                              ELSE New(IF st.m[i].snd = "in" THEN "in" ELSE "lost", IF st.m[i].rcv = "in" THEN "in" ELSE "lost"))], Unit)
    [] o.n = "mksender" -> IF st.m[i].snd = "in" THEN Res([st EXCEPT !.m[i].snd = "held", !.m[i].has = TRUE], Unit) ELSE Res(st, Panics)
    [] o.n = "mkreceiver" -> IF st.m[i].rcv = "in" THEN Res([st EXCEPT !.m[i].rcv = "held", !.m[i].has = @ \/ Up(st)], Unit) ELSE Res(st, Panics)
    \* what a further copy can make, on the side
    [] o.n = "try" -> Res(st, Ok(<< st.kind # "req" /\ st.m[i].snd = "in", st.kind # "req" /\ st.m[i].rcv = "in" >>))
    [] o.n = "dropmsg" -> Res([st EXCEPT !.m[i].alive = FALSE], Unit)
    [] o.n = "send" -> Res([st EXCEPT !.m[i].snd = "gone", !.q = Append(@, o.v)], Unit)
    [] o.n = "dropsender" -> Res([st EXCEPT !.m[i].snd = "gone"], Unit)
    [] o.n = "dropreceiver" -> Res([st EXCEPT !.m[i].rcv = "gone", !.m[i].wait = FALSE], Unit)
    [] o.n = "poll" -> IF st.q # <<>> THEN Res([st EXCEPT !.q = Tail(@), !.m[i].wait = FALSE], Ok(Head(st.q)))
                       ELSE IF Senders(st) = {} THEN Res([st EXCEPT !.m[i].wait = FALSE], None)
                       ELSE Res([st EXCEPT !.m[i].wait = TRUE], [k |-> "pending"])
    [] OTHER -> Res(st, Unit)
Proj(st) == [i \in 1..Len(st.m) |-> IF st.m[i].alive THEN << st.m[i].has >> ELSE <<>>]
Ops(st) ==
  UNION {(IF st.m[i].alive THEN {[n |-> x, i |-> i] : x \in {"dropmsg", "try"} \cup (IF st.m[i].snd # "lost" THEN {"mksender"} ELSE {}) \cup (IF st.m[i].rcv # "lost" THEN {"mkreceiver"} ELSE {}) \cup (IF Len(st.m) < Most THEN {"clone"} ELSE {})} ELSE {})
         \cup (IF st.m[i].snd = "held" THEN {[n |-> "dropsender", i |-> i]} \cup {[n |-> "send", i |-> i, v |-> v] : v \in Vals} ELSE {})
         \cup (IF st.m[i].rcv = "held" THEN {[n |-> x, i |-> i] : x \in {"poll", "dropreceiver"}} ELSE {}) : i \in 1..Len(st.m)}
\* free-running: every value sent reaches the one receiver, then it learns that there are no more
Expected(rec) == Ok([got |-> SelectSeq(rec.in.vs, LAMBDA v : TRUE), last |-> None])
NoOp == [o |-> [n |-> "init", i |-> 1], r |-> Unit]
Init == \E k \in Kinds : s = InitFrom([kind |-> k]) /\ op = NoOp
Next == \E o \in Ops(s) : LET a == Apply(s, o) IN s' = a.s /\ op' = [o |-> o, r |-> a.r]
vars == << s, op >>
View == s
Emit == PrintT(ToJson([f |-> s, t |-> s', o |-> op'.o, r |-> op'.r, p |-> Proj(s')]))
\* a copy makes no endpoint that was made before it, and a request's copy none at all
Kin == \A i \in 1..Len(s.m) : i > 1 /\ s.kind = "req" => s.m[i].snd = "lost" /\ s.m[i].rcv = "lost"
\* values leave in order, by being received or for want of a receiver
Ordered == [][s'.q = s.q \/ s'.q = <<>> \/ (op'.o.n = "send" /\ s'.q = Append(s.q, op'.o.v)) \/ (op'.o.n = "poll" /\ op'.r.r = Ok(Head(s.q)) /\ s'.q = Tail(s.q))]_vars
NoneMeansNone == [][op'.o.n = "poll" /\ op'.r.r = None => s.q = <<>> /\ Senders(s) = {}]_vars
=============================================================================
