------------------------------- MODULE Message ------------------------------
(* Requests and responses as records of independent fields, with the        *)
(* coupling between body and Content-Type, two live messages and cloning,   *)
(* and a body held by the user.                                              *)
EXTENDS Text

CONSTANTS OpSet, MaxDepth
VARIABLES s, op

\* name -> length and media type of each kind of body the user can supply
BodyLen == [empty |-> << 0 >>, text |-> << 1 >>, bin |-> << 2 >>, stream |-> <<>>, nomime |-> << 3 >>, html |-> << 4 >>, json |-> << 7 >>, form |-> << 3 >>]
BodyMime == [empty |-> "application/octet-stream", text |-> "text/plain;charset=utf-8", bin |-> "application/octet-stream",
             stream |-> "application/octet-stream", nomime |-> "", html |-> "text/html;charset=utf-8", json |-> "application/json",
             form |-> "application/x-www-form-urlencoded"]
BodyNames == DOMAIN BodyLen
\* what a Content-Type header value reads as (absent: not a media type)
ParsesAs == [v \in {"application/octet-stream", "text/plain;charset=utf-8", "text/html;charset=utf-8", "application/json",
                    "application/x-www-form-urlencoded", "image/png", "x-custom/y;k=v"} |-> v]
ReadsAs(v) == IF v \in DOMAIN ParsesAs THEN << ParsesAs[v] >>
              ELSE IF v = "TEXT/HTML" THEN << "text/html" >> ELSE <<>>

New(kind) == [kind |-> kind, method |-> "GET", status |-> 200, url |-> "http://a.example/", ver |-> <<>>, peer |-> <<>>, local |-> <<>>,
              ct |-> <<>>, xa |-> <<>>, body |-> "empty", ext |-> <<>>]
Fresh(kind) == [fresh |-> 1, kind |-> kind, m |-> << New(kind), New(kind) >>, held |-> "empty", depth |-> 0]

List(vs) == IF vs = <<>> THEN None ELSE Ok(vs)
Fill(m) == IF m.ct = <<>> /\ BodyMime[m.body] # "" THEN [m EXCEPT !.ct = << BodyMime[m.body] >>] ELSE m
WithBody(m, b) == Fill([m EXCEPT !.body = b])

\* one operation on one message: new message, result, body afterwards held by the user
On(m, held, o) ==
  CASE o.n = "set" -> [m |-> WithBody(m, o.b), r |-> Unit, h |-> held]
    [] o.n = "replace" -> [m |-> WithBody(m, o.b), r |-> [k |-> "body", v |-> m.body], h |-> held]
    [] o.n = "take" -> [m |-> WithBody(m, "empty"), r |-> [k |-> "body", v |-> m.body], h |-> held]
    [] o.n = "swap" -> [m |-> WithBody(m, held), r |-> [k |-> "held", v |-> BodyLen[m.body]], h |-> m.body]
    [] o.n = "setct" -> [m |-> [m EXCEPT !.ct = << o.v >>], r |-> List(m.ct), h |-> held]
    [] o.n = "ins" -> [m |-> IF o.h = "ct" THEN [m EXCEPT !.ct = << o.v >>] ELSE [m EXCEPT !.xa = << o.v >>],
                       r |-> List(IF o.h = "ct" THEN m.ct ELSE m.xa), h |-> held]
    [] o.n = "app" -> [m |-> IF o.h = "ct" THEN [m EXCEPT !.ct = Append(@, o.v)] ELSE [m EXCEPT !.xa = Append(@, o.v)],
                       r |-> Unit, h |-> held]
    [] o.n = "push" -> \* in place, through the mutable view; nothing to edit if absent
         [m |-> IF o.h = "ct" THEN (IF m.ct = <<>> THEN m ELSE [m EXCEPT !.ct = Append(@, o.v)])
                ELSE (IF m.xa = <<>> THEN m ELSE [m EXCEPT !.xa = Append(@, o.v)]), r |-> Unit, h |-> held]
    [] o.n = "rm" -> [m |-> IF o.h = "ct" THEN [m EXCEPT !.ct = <<>>] ELSE [m EXCEPT !.xa = <<>>],
                      r |-> List(IF o.h = "ct" THEN m.ct ELSE m.xa), h |-> held]
    [] o.n = "method" -> [m |-> IF m.kind = "req" THEN [m EXCEPT !.method = o.v] ELSE m, r |-> Unit, h |-> held]
    [] o.n = "status" -> [m |-> IF m.kind = "res" THEN [m EXCEPT !.status = o.c] ELSE m, r |-> Unit, h |-> held]
    [] o.n = "url" -> [m |-> IF m.kind = "req" THEN [m EXCEPT !.url = o.v] ELSE m, r |-> Unit, h |-> held]
    [] o.n = "ver" -> [m |-> [m EXCEPT !.ver = o.l], r |-> Unit, h |-> held]
    [] o.n = "peer" -> [m |-> [m EXCEPT !.peer = o.l], r |-> Unit, h |-> held]
    [] o.n = "local" -> [m |-> [m EXCEPT !.local = o.l], r |-> Unit, h |-> held]
    [] o.n = "ext" -> [m |-> [m EXCEPT !.ext = << o.x >>], r |-> IF m.ext = <<>> THEN None ELSE Ok(m.ext), h |-> held]
    [] o.n = "extrm" -> [m |-> [m EXCEPT !.ext = <<>>], r |-> IF m.ext = <<>> THEN None ELSE Ok(m.ext), h |-> held]

CloneOf(m) == [m EXCEPT !.body = "empty", !.ext = <<>>]
Other(i) == 3 - i

Apply(st0, o) ==
  LET st == [st0 EXCEPT !.fresh = 0, !.depth = IF MaxDepth = 0 THEN 0 ELSE @ + 1] IN
  CASE o.n = "clone" -> [s |-> [st EXCEPT !.m[Other(o.i)] = CloneOf(st.m[o.i])], r |-> Unit]
    [] o.n = "hold" -> [s |-> [st EXCEPT !.held = o.b], r |-> Unit]
    [] o.n = "setmsg" -> \* the other message (emptied by that) becomes the body
         [s |-> [st EXCEPT !.m[o.i] = WithBody(@, st.m[Other(o.i)].body), !.m[Other(o.i)] = New(st.kind)], r |-> Unit]
    [] o.n = "make" -> \* a new message in place of the old, by any of its constructors
         LET m0 == New(st.kind)
             m == IF st.kind = "req" THEN [m0 EXCEPT !.method = o.v, !.url = o.url]
                  ELSE CASE o.from = "unit" -> [m0 EXCEPT !.status = 204] [] o.from = "body" -> WithBody(m0, o.b) [] OTHER -> [m0 EXCEPT !.status = o.c]
         IN [s |-> [st EXCEPT !.m[o.i] = m], r |-> Unit]
    [] OTHER -> LET a == On(st.m[o.i], st.held, o) IN [s |-> [st EXCEPT !.m[o.i] = a.m, !.held = a.h], r |-> a.r]

ProjM(m) == [method |-> m.method, status |-> m.status, url |-> m.url, ver |-> m.ver, peer |-> m.peer, local |-> m.local,
             ct |-> m.ct, xa |-> m.xa, nh |-> (IF m.ct = <<>> THEN 0 ELSE 1) + (IF m.xa = <<>> THEN 0 ELSE 1),
             ext |-> m.ext, len |-> BodyLen[m.body],
             empty |-> IF BodyLen[m.body] = <<>> THEN <<>> ELSE << BodyLen[m.body] = << 0 >> >>,
             ctype |-> IF m.ct = <<>> THEN <<>> ELSE ReadsAs(m.ct[Len(m.ct)])]
Proj(st) == << ProjM(st.m[1]), ProjM(st.m[2]) >>

--------------------------------------------------------------------------------
InitFrom(i) == Fresh(i.kind)
NoOp == [o |-> [n |-> "init"], r |-> Unit]
Init == \E k \in {"req", "res"} : s = Fresh(k) /\ op = NoOp
Next == \E o \in OpSet : LET a == Apply(s, o) IN s' = a.s /\ op' = [o |-> o, r |-> a.r]
vars == << s, op >>
Spec == Init /\ [][Next]_vars
View == s
Depth == s.depth < MaxDepth \/ MaxDepth = 0
DepthC == MaxDepth = 0 \/ s.depth <= MaxDepth
Bound == Len(s.m[1].ct) <= 2 /\ Len(s.m[1].xa) <= 2 /\ Len(s.m[2].ct) <= 2 /\ Len(s.m[2].xa) <= 2
Emit == /\ Bound' /\ (MaxDepth = 0 \/ s'.depth <= MaxDepth)
        /\ PrintT(ToJson([f |-> s, t |-> s', o |-> op'.o, r |-> op'.r, p |-> Proj(s')]))

BodyOps == {"set", "replace", "take", "swap", "setmsg"}
\* a Content-Type that is present survives every body operation
ExplicitKept == [][op'.o.n \in BodyOps => LET i == op'.o.i IN s.m[i].ct # <<>> => s'.m[i].ct = s.m[i].ct]_vars
\* an absent one is filled from the new body, or stays absent if that has no media type
Filled == [][op'.o.n \in BodyOps => LET i == op'.o.i IN
               s.m[i].ct = <<>> => s'.m[i].ct = IF BodyMime[s'.m[i].body] = "" THEN <<>> ELSE << BodyMime[s'.m[i].body] >>]_vars
\* body operations change nothing but body and Content-Type
BodyFrame == [][op'.o.n \in BodyOps => LET i == op'.o.i IN
                [s'.m[i] EXCEPT !.body = "empty", !.ct = <<>>] = [s.m[i] EXCEPT !.body = "empty", !.ct = <<>>]]_vars
\* operations on one message are invisible through the other
Isolated == [][op'.o.n \notin {"clone", "setmsg", "hold"} => s'.m[Other(op'.o.i)] = s.m[Other(op'.o.i)]]_vars
CloneLaw == [][op'.o.n = "clone" => LET a == s'.m[op'.o.i]  b == s'.m[Other(op'.o.i)] IN
                 a = s.m[op'.o.i] /\ b.body = "empty" /\ b.ext = <<>> /\ [b EXCEPT !.body = a.body, !.ext = a.ext] = a]_vars

\* operation alphabets
O(n, i) == [n |-> n, i |-> i]
BodyOps0 == {[n |-> x, i |-> 1, b |-> b] : x \in {"set", "replace"}, b \in {"text", "bin", "stream", "nomime", "html"}}
            \cup {O("take", 1), O("swap", 1)} \cup {[n |-> "hold", b |-> b] : b \in {"text", "nomime", "stream"}}
            \cup {[n |-> "setct", i |-> 1, v |-> "image/png"], [n |-> "rm", i |-> 1, h |-> "ct"]}
            \cup {[n |-> x, i |-> 1, h |-> "ct", v |-> v] : x \in {"ins", "app"}, v \in {"garbage", "TEXT/HTML"}}
BodyOps1 == {[n |-> x, i |-> 1, b |-> b] : x \in {"set", "replace"}, b \in BodyNames}
            \cup {O("take", 1), O("swap", 1)} \cup {[n |-> "hold", b |-> b] : b \in {"text", "nomime", "stream"}}
            \cup {[n |-> "setct", i |-> 1, v |-> v] : v \in {"image/png", "x-custom/y;k=v"}}
            \cup {[n |-> x, i |-> 1, h |-> "ct", v |-> v] : x \in {"ins", "app"}, v \in {"garbage", "TEXT/HTML", "application/json"}}
            \cup {[n |-> "rm", i |-> 1, h |-> "ct"]}
Makes == {[n |-> "make", i |-> 1, how |-> h, v |-> "DELETE", url |-> "http://b.example/p?q=1", from |-> f, c |-> 404, b |-> "text"] : h \in {"verb", "new"}, f \in {"unit", "status", "new", "body"}}
\* a constructor leaves nothing of the message it replaces
MadeFresh == [][op'.o.n = "make" => LET m == s'.m[op'.o.i] IN m.ver = <<>> /\ m.peer = <<>> /\ m.local = <<>> /\ m.xa = <<>> /\ m.ext = <<>> /\ (m.body = "empty" => m.ct = <<>>)]_vars
FieldOps1 == Makes \cup UNION {
   {[n |-> "method", i |-> i, v |-> "POST"], [n |-> "status", i |-> i, c |-> 404], [n |-> "url", i |-> i, v |-> "http://b.example/p?q=1"],
    [n |-> "ver", i |-> i, l |-> << "HTTP/1.1" >>], [n |-> "ver", i |-> i, l |-> <<>>],
    [n |-> "peer", i |-> i, l |-> << "p:1" >>], [n |-> "local", i |-> i, l |-> << "l:2" >>], [n |-> "peer", i |-> i, l |-> <<>>],
    [n |-> "ins", i |-> i, h |-> "xa", v |-> "1"], [n |-> "app", i |-> i, h |-> "xa", v |-> "2"], [n |-> "push", i |-> i, h |-> "xa", v |-> "3"],
    [n |-> "rm", i |-> i, h |-> "xa"],
    [n |-> "set", i |-> i, b |-> "text"], [n |-> "take", i |-> i], [n |-> "ext", i |-> i, x |-> 7], [n |-> "extrm", i |-> i],
    [n |-> "clone", i |-> i], [n |-> "setmsg", i |-> i]} : i \in {1, 2}}
=============================================================================
