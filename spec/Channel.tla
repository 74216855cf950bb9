------------------------------ MODULE Channel -------------------------------
(* The hand-over of trailers, or of an upgraded connection, from the sender  *)
(* of a message to its receiver. The message itself keeps whichever endpoint *)
(* has not been created yet, so it counts as a sender until then.            *)
EXTENDS Text
CONSTANTS Kinds, Vals
VARIABLES s, op

\* msg: alive or gone.  snd: in the message, held, a send started but not run, or gone.
\* rcv likewise. cell: the value in flight. waiting: the receiver's last poll was told to wait.
InitFrom(i) == [fresh |-> 1, kind |-> i.kind, msg |-> "alive", snd |-> "in", rcv |-> "in", pend |-> <<>>, cell |-> <<>>,
                got |-> 0, waiting |-> FALSE, has |-> FALSE, cops |-> FALSE, copr |-> FALSE]
Up(st) == st.kind = "upgrade"
\* a copy of a response counts as the response itself: it keeps the endpoints not created yet (cops, copr);
\* a copy of a request keeps none
SenderGone(st) == (st.snd = "gone" \/ (st.snd = "in" /\ st.msg = "gone")) /\ ~st.cops
ReceiverGone(st) == (st.rcv = "gone" \/ (st.rcv = "in" /\ st.msg = "gone")) /\ ~st.copr
\* the receiver must not be left waiting
Due(st) == st.waiting /\ (st.cell # <<>> \/ SenderGone(st))
Panics == [k |-> "panics"]
Res(st, r) == [s |-> st, r |-> [k |-> "ch", r |-> r, woken |-> IF Due(st) THEN Ok(TRUE) ELSE DontCare]]

Apply(st0, o) ==
  LET st == [st0 EXCEPT !.fresh = 0] IN
  CASE o.n = "mksender" -> IF st.snd = "in" THEN Res([st EXCEPT !.snd = "held", !.has = TRUE], Unit) ELSE Res(st, Panics)
    [] o.n = "mkreceiver" -> IF st.rcv = "in" THEN Res([st EXCEPT !.rcv = "held", !.has = @ \/ Up(st)], Unit) ELSE Res(st, Panics)
    [] o.n = "send" -> Res([st EXCEPT !.snd = "gone", !.cell = IF ReceiverGone(st) THEN <<>> ELSE << o.v >>], Unit)
    [] o.n = "start" -> Res([st EXCEPT !.snd = "started", !.pend = << o.v >>], Unit)
    [] o.n = "run" -> Res([st EXCEPT !.snd = "gone", !.pend = <<>>, !.cell = IF ReceiverGone(st) THEN <<>> ELSE st.pend], Unit)
    [] o.n = "dropsender" -> Res([st EXCEPT !.snd = "gone", !.pend = <<>>], Unit)
    [] o.n = "dropreceiver" -> Res([st EXCEPT !.rcv = "gone", !.waiting = FALSE, !.cell = <<>>], Unit)
    [] o.n = "dropmsg" -> Res([st EXCEPT !.msg = "gone", !.cell = IF st.rcv = "in" THEN <<>> ELSE @], Unit)
    [] o.n = "poll" ->
         IF st.cell # <<>> THEN Res([st EXCEPT !.cell = <<>>, !.waiting = FALSE, !.got = 1], Ok(st.cell[1]))
         ELSE IF SenderGone(st) THEN Res([st EXCEPT !.waiting = FALSE], None)
         ELSE Res([st EXCEPT !.waiting = TRUE], [k |-> "pending"])
    \* a copy of the message has made no endpoint of its own
    [] o.n = "clone" -> Res([st EXCEPT !.cops = @ \/ (st.kind # "req" /\ st.snd = "in"), !.copr = @ \/ (st.kind # "req" /\ st.rcv = "in")], Ok("no"))
    [] o.n = "dropcopies" -> Res([st EXCEPT !.cops = FALSE, !.copr = FALSE], Unit)
    [] OTHER -> Res(st, Unit)
Proj(st) == IF st.msg = "alive" THEN [has |-> << st.has >>] ELSE [has |-> <<>>]

\* what can be done next
Ops(st) ==
  (IF st.msg = "alive" THEN {[n |-> "mksender"], [n |-> "mkreceiver"], [n |-> "dropmsg"], [n |-> "clone"]} ELSE {})
  \cup (IF st.cops \/ st.copr THEN {[n |-> "dropcopies"]} ELSE {})
  \cup (IF st.snd = "held" THEN {[n |-> "dropsender"]} \cup {[n |-> x, v |-> v] : x \in {"send", "start"}, v \in Vals} ELSE {})
  \cup (IF st.snd = "started" THEN {[n |-> "run"], [n |-> "dropsender"]} ELSE {})
  \cup (IF st.rcv = "held" THEN {[n |-> "poll"], [n |-> "dropreceiver"]} ELSE {})

\* free-running threads: whatever the schedule, the outcome is determined
Expected(rec) == IF rec.in.send THEN Ok(rec.in.v) ELSE None

NoOp == [o |-> [n |-> "init"], r |-> Unit]
Init == \E k \in Kinds : s = InitFrom([kind |-> k]) /\ op = NoOp
Next == \E o \in Ops(s) : LET a == Apply(s, o) IN s' = a.s /\ op' = [o |-> o, r |-> a.r]
vars == << s, op >>
Spec == Init /\ [][Next]_vars
View == s
Emit == PrintT(ToJson([f |-> s, t |-> s', o |-> op'.o, r |-> op'.r, p |-> Proj(s')]))

\* at most one value is ever received, and only after it was sent
AtMostOnce == [][op'.r.k = "ch" /\ op'.o.n = "poll" /\ op'.r.r.k = "ok" => s.got = 0 /\ s.snd = "gone"]_vars
NothingEarly == [][op'.o.n = "poll" /\ op'.r.r.k = "none" => SenderGone(s)]_vars
\* a sent value is not lost while the receiver is there
Kept == [][(s.cell # <<>> /\ op'.o.n \notin {"poll", "dropreceiver", "dropmsg"}) => s'.cell = s.cell]_vars
Reports == s.msg = "alive" => (s.has <=> (s.snd # "in" \/ (Up(s) /\ s.rcv # "in")))
\* fairly scheduled, a waiting receiver gets its answer
FairNext == Next /\ op'.o.n # "dropreceiver"
Polls == s.rcv = "held" /\ \E o \in {[n |-> "poll"]} : LET a == Apply(s, o) IN s' = a.s /\ op' = [o |-> o, r |-> a.r]
Settles == s.snd \in {"held", "started"} /\ LET a == Apply(s, [n |-> "dropsender"]) IN s' = a.s /\ op' = [o |-> [n |-> "dropsender"], r |-> a.r]
LetsGo == s.msg = "alive" /\ LET a == Apply(s, [n |-> "dropmsg"]) IN s' = a.s /\ op' = [o |-> [n |-> "dropmsg"], r |-> a.r]
Forgets == s.cops /\ LET a == Apply(s, [n |-> "dropcopies"]) IN s' = a.s /\ op' = [o |-> [n |-> "dropcopies"], r |-> a.r]
FairSpec == Init /\ [][Next]_vars /\ WF_vars(Polls) /\ WF_vars(Settles) /\ WF_vars(LetsGo) /\ WF_vars(Forgets)
Answered == s.waiting ~> (~s.waiting)
=============================================================================
