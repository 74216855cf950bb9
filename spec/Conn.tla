-------------------------------- MODULE Conn --------------------------------
(* An upgraded connection passes everything through to its transport.        *)
(* The transport is a script: r = results of its reads, w = of its writes,   *)
(* f = of its flushes and closes.                                            *)
EXTENDS Text
CONSTANTS RScripts, WScripts, Lens
VARIABLES s, op
\* events: [t |-> "d", n |-> k] k bytes can be moved; "p" pending; "e" an error
InitFrom(i) == [fresh |-> 1, r |-> i.r, w |-> i.w, f |-> i.f, rpos |-> 0, sent |-> <<>>, calls |-> 0, closes |-> 0]
Lo(a, b) == IF a < b THEN a ELSE b
Fail(e) == [k |-> "ioerr", v |-> "scripted", kind |-> e.n]  \* the transport's own error, of kind n
Pending == [k |-> "pending"]
Apply(st0, o) ==
  LET st == [st0 EXCEPT !.fresh = 0, !.calls = @ + 1, !.closes = IF o.n = "close" THEN @ + 1 ELSE @] IN
  CASE o.n = "read" ->
         IF st.r = <<>> THEN [s |-> st, r |-> [k |-> "data", v |-> <<>>]]
         ELSE LET e == Head(st.r) IN
              CASE e.t = "p" -> [s |-> [st EXCEPT !.r = Tail(@)], r |-> Pending]
                [] e.t = "e" -> [s |-> [st EXCEPT !.r = Tail(@)], r |-> Fail(e)]
                [] OTHER -> LET k == Lo(e.n, o.len) IN
                     [s |-> [st EXCEPT !.r = IF k = e.n THEN Tail(@) ELSE [@ EXCEPT ![1] = [t |-> "d", n |-> e.n - k]], !.rpos = @ + k],
                      r |-> [k |-> "data", v |-> [j \in 1..k |-> (st.rpos + j) % 251]]]
    [] o.n = "write" ->
         IF st.w = <<>> THEN [s |-> [st EXCEPT !.sent = @ \o o.v], r |-> Ok(Len(o.v))]
         ELSE LET e == Head(st.w) IN
              CASE e.t = "p" -> [s |-> [st EXCEPT !.w = Tail(@)], r |-> Pending]
                [] e.t = "e" -> [s |-> [st EXCEPT !.w = Tail(@)], r |-> Fail(e)]
                [] OTHER -> LET k == Lo(e.n, Len(o.v)) IN
                     [s |-> [st EXCEPT !.w = Tail(@), !.sent = @ \o Take(o.v, k)], r |-> Ok(k)]
    [] o.n \in {"flush", "close"} ->
         IF st.f = <<>> THEN [s |-> st, r |-> [k |-> "done", v |-> o.n]]
         ELSE LET e == Head(st.f) IN
              [s |-> [st EXCEPT !.f = Tail(@)], r |-> CASE e.t = "p" -> Pending [] e.t = "e" -> Fail(e) [] OTHER -> [k |-> "done", v |-> o.n]]
\* the transport saw exactly the calls made
Proj(st) == [sent |-> st.sent, calls |-> st.calls, closes |-> st.closes]
NoOp == [o |-> [n |-> "init"], r |-> Unit]
Ops == {[n |-> "read", len |-> k] : k \in Lens} \cup {[n |-> "write", v |-> [j \in 1..k |-> 100 + j]] : k \in Lens}
       \cup {[n |-> "flush"], [n |-> "close"]}
FScripts == {<<>>, << [t |-> "p", n |-> 0], [t |-> "e", n |-> 1] >>, << [t |-> "e", n |-> 0], [t |-> "d", n |-> 0] >>}
D(n) == [t |-> "d", n |-> n]  PD == [t |-> "p", n |-> 0]  ER == [t |-> "e", n |-> 2]
RS1 == {<<>>, << D(3) >>, << PD, D(2) >>, << D(1), ER, D(1) >>}
WS1 == {<<>>, << D(1), PD >>, << ER, D(2) >>, << D(0) >>}
Init == \E r \in RScripts, w \in WScripts, f \in FScripts : s = InitFrom([r |-> r, w |-> w, f |-> f]) /\ op = NoOp
Next == \E o \in Ops : LET a == Apply(s, o) IN s' = a.s /\ op' = [o |-> o, r |-> a.r]
vars == << s, op >>
View == s
Emit == s'.calls <= 3 /\ PrintT(ToJson([f |-> s, t |-> s', o |-> op'.o, r |-> op'.r, p |-> Proj(s')]))
Grows == [][StartsWith(s'.sent, s.sent) /\ s'.rpos >= s.rpos]_vars
=============================================================================
