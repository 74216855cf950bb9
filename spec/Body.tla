-------------------------------- MODULE Body --------------------------------
(* A message body as a state machine.                                        *)
(*                                                                           *)
(* A body wraps a source of bytes.  The source is a script of events: a      *)
(* chunk of n bytes becomes available, the source is pending once, or it     *)
(* fails once; at the end of the script the source is at end of file.  A     *)
(* body may declare a length.  Bodies can be chained; a chain is a sequence  *)
(* of segments, each with the part of its declared length still unread.      *)
(* Lengths are scaled: BIG stands for 2^64-1 (the harness maps BIG-k to      *)
(* 2^64-1-k) and j*GIG+k, for 0 < j < 95, for j*2^32+k.                      *)
EXTENDS Text

CONSTANTS Scripts, Lims, Others, BufSizes, MaxChains
VARIABLES s, op

BIG == 10000000
GIG == 100000
Unknown == -1
Min2(a, b) == IF a < b THEN a ELSE b
D(n) == [t |-> "d", n |-> n]   \* n bytes become available
PD == [t |-> "p", n |-> 0]     \* Poll::Pending once
ER == [t |-> "e", n |-> 0]     \* an I/O error once, of kind n
EK(n) == [t |-> "e", n |-> n]

\* byte number o of source id
Byte(id, o) == (id * 40 + o) % 251
Bytes(seg, n) == [j \in 1..n |-> Byte(seg.id, seg.off + j - 1)]

\* cnt: the harness can tell whether this source was asked (scripted sources only)
Seg(c) == [ev |-> c.ev, lim |-> c.lim, off |-> 0, id |-> c.id, cnt |-> c.ctor = "reader"]
Create(c) == [fresh |-> 1, segs |-> << Seg(c) >>, len |-> c.lim, rd |-> 0, avail |-> 0,
              mime |-> c.mime, chains |-> 0]

AdvanceEv(seg, n) == \* n bytes of the current chunk are gone
  IF n = 0 THEN seg
  ELSE LET h == Head(seg.ev) IN
       [seg EXCEPT !.ev = IF h.n = n THEN Tail(@) ELSE << D(h.n - n) >> \o Tail(@),
                   !.off = @ + n,
                   !.lim = IF @ = Unknown THEN Unknown ELSE @ - n]
PopEv(seg) == [seg EXCEPT !.ev = Tail(@)]
SetHead(segs, h) == << h >> \o Tail(segs)

\* The first segment able to produce something; segments that are spent are left behind
\* (the last one is kept).  touched: some source had to be asked.
RECURSIVE Settle(_, _)
Settle(segs, touched) ==
  LET h == Head(segs) IN
  IF h.lim = 0 \/ h.ev = <<>>
  THEN IF Len(segs) = 1 THEN [segs |-> segs, t |-> touched \/ (h.lim # 0 /\ h.cnt), end |-> TRUE]
       ELSE Settle(Tail(segs), touched \/ (h.lim # 0 /\ h.cnt))
  ELSE [segs |-> segs, t |-> touched \/ h.cnt, end |-> FALSE]

Window(seg, n) == IF seg.lim = Unknown THEN n ELSE Min2(n, seg.lim)

Data(bs, t) == [k |-> "data", v |-> bs, touched |-> t]
Pending == [k |-> "pending"]
Failed == [k |-> "ioerr"]

DoRead(st, n) ==
  LET z == Settle(st.segs, FALSE)
      h == Head(z.segs)
      s0 == [st EXCEPT !.fresh = 0, !.avail = 0, !.segs = z.segs]
  IN IF z.end THEN [s |-> s0, r |-> Data(<<>>, z.t)]
     ELSE LET e == Head(h.ev) IN
       CASE e.t = "p" -> [s |-> [s0 EXCEPT !.segs = SetHead(@, PopEv(h))], r |-> Pending]
         [] e.t = "e" -> [s |-> [s0 EXCEPT !.segs = SetHead(@, PopEv(h))], r |-> Failed]
         [] e.t = "d" -> LET g == Min2(e.n, Window(h, n)) IN
              [s |-> [s0 EXCEPT !.segs = SetHead(@, AdvanceEv(h, g)), !.rd = @ + g],
               r |-> Data(Bytes(h, g), z.t)]

DoFill(st) ==
  LET z == Settle(st.segs, FALSE)
      h == Head(z.segs)
      s0 == [st EXCEPT !.fresh = 0, !.avail = 0, !.segs = z.segs]
  IN IF z.end THEN [s |-> s0, r |-> Data(<<>>, z.t)]
     ELSE LET e == Head(h.ev) IN
       CASE e.t = "p" -> [s |-> [s0 EXCEPT !.segs = SetHead(@, PopEv(h))], r |-> Pending]
         [] e.t = "e" -> [s |-> [s0 EXCEPT !.segs = SetHead(@, PopEv(h))], r |-> Failed]
         [] e.t = "d" -> LET g == Window(h, e.n) IN
              [s |-> [s0 EXCEPT !.avail = g], r |-> Data(Bytes(h, g), z.t)]

DoConsume(st, k) ==
  [s |-> [st EXCEPT !.fresh = 0, !.segs = IF k = 0 THEN @ ELSE SetHead(@, AdvanceEv(Head(@), k)), !.rd = @ + k, !.avail = @ - k],
   r |-> Unit]

Remain(st) == IF st.len = Unknown THEN Unknown ELSE st.len - st.rd
SumLen(a, b) == IF a = Unknown \/ b = Unknown \/ a + b > BIG THEN Unknown ELSE a + b
ChainOf(a, b) ==
  [fresh |-> 0, segs |-> a.segs \o b.segs, len |-> SumLen(Remain(a), Remain(b)), rd |-> 0, avail |-> 0,
   mime |-> IF a.mime = b.mime THEN a.mime ELSE "bin", chains |-> a.chains + b.chains + 1]
\* the other body of a chain: created, then optionally read from (plain or buffered)
Prepared(o) ==
  LET b == Create(o) IN
  IF o.pre = 0 THEN b
  ELSE IF o.how = "read" THEN DoRead(b, o.pre).s
  ELSE LET f == DoFill(b).s IN DoConsume(f, Min2(o.pre, f.avail)).s
DoChain(st, o) ==
  LET b == Prepared(o.other) IN
  [s |-> IF o.side = "after" THEN ChainOf(st, b) ELSE ChainOf(b, st), r |-> Unit]

Apply(st, o) ==
  CASE o.n = "read" -> DoRead(st, o.len)
    [] o.n = "fill" -> DoFill(st)
    [] o.n = "consume" -> DoConsume(st, o.len)
    [] o.n = "chain" -> DoChain(st, o)
    [] o.n = "mime" -> [s |-> [st EXCEPT !.fresh = 0, !.mime = o.v], r |-> Unit]

Opt(n) == IF n = Unknown THEN <<>> ELSE << n >>
Proj(st) == [len |-> Opt(st.len), empty |-> IF st.len = Unknown THEN <<>> ELSE << st.len = 0 >>, mime |-> st.mime]

--------------------------------------------------------------------------------
InitFrom(c) == Create(c)
NoOp == [o |-> [n |-> "init"], r |-> Unit]
Init == \E ev \in Scripts, l \in Lims :
          s = Create([ev |-> ev, lim |-> l, id |-> 1, mime |-> "bin", ctor |-> "reader"]) /\ op = NoOp
Ops(st) ==
  {[n |-> "read", len |-> n] : n \in BufSizes} \cup {[n |-> "fill"]}
  \cup {[n |-> "consume", len |-> n] : n \in 0..st.avail}
  \cup (IF st.chains < MaxChains THEN {[n |-> "chain", side |-> sd, other |-> o] : sd \in {"after", "before"}, o \in Others} ELSE {})
Next == \E o \in Ops(s) : LET a == Apply(s, o) IN s' = a.s /\ op' = [o |-> o, r |-> a.r]
vars == << s, op >>
Spec == Init /\ [][Next]_vars
View == s
Emit == PrintT(ToJson([f |-> s, t |-> s', o |-> op'.o, r |-> op'.r, p |-> Proj(s')]))

\* Everything the body will still hand out, ignoring pending results and errors.
SegRest(g) == LET tot == FoldLeft(LAMBDA a, e : IF e.t = "d" THEN a + e.n ELSE a, 0, g.ev) IN Bytes(g, Window(g, tot))
Rest(st) == Flatten(MapSeq(st.segs, SegRest))

\* C: never more than declared
Bounded == s.len # Unknown => s.rd <= s.len /\ Len(Rest(s)) <= s.len - s.rd
\* every byte handed out is the next one of the remaining content, and only handing out shortens it
InOrder == [][
  LET o == op'.o  r == op'.r IN
  CASE o.n = "read" -> Rest(s) = (IF r.k = "data" THEN r.v ELSE <<>>) \o Rest(s')
    [] o.n = "fill" -> Rest(s') = Rest(s) /\ (r.k = "data" => StartsWith(Rest(s), r.v))
    [] o.n = "consume" -> Rest(s') = Drop(Rest(s), o.len)
    [] o.n = "chain" -> Rest(s') = IF o.side = "after" THEN Rest(s) \o Rest(Prepared(o.other))
                                   ELSE Rest(Prepared(o.other)) \o Rest(s)
    [] OTHER -> TRUE]_vars
\* end of stream is only reported when nothing is left
EofMeansDone == [][op'.o.n \in {"read", "fill"} /\ op'.r.k = "data" /\ op'.r.v = <<>> => Rest(s) = <<>>]_vars
\* the declared length is only changed by chaining
LenStable == [][op'.o.n # "chain" => s'.len = s.len]_vars
\* a body that has handed out its declared length does not touch its source
NoTouch == [][op'.o.n \in {"read", "fill"} /\ s.len # Unknown /\ s.len = s.rd => op'.r = Data(<<>>, FALSE)]_vars

\* model values
EvSet == {D(1), D(2), PD, ER}
Scripts1 == {<<>>} \cup {<< EK(n), D(1) >> : n \in 1..8} \cup {<<a>> : a \in EvSet} \cup {<<a, b>> : a \in EvSet, b \in EvSet}
Scripts2 == Scripts1 \cup {<<a, b, c>> : a \in EvSet, b \in EvSet, c \in EvSet}
LimsB == {Unknown, 2}
Lims0 == {Unknown, 0, 2, GIG, BIG}
Lims1 == {Unknown, 0, 1, 2, 3, GIG, GIG + 1, BIG}
Oth(ev, lim, mime, pre, how) == [ev |-> ev, lim |-> lim, id |-> 2, mime |-> mime, pre |-> pre, how |-> how, ctor |-> "reader"]
Others1 == {Oth(<<D(2)>>, 2, "bin", 0, "read"), Oth(<<D(2), D(1)>>, 2, "text", 1, "buf"),
            Oth(<<PD, D(2)>>, Unknown, "bin", 0, "read"), Oth(<<D(3)>>, BIG, "none", 1, "read"), Oth(<<D(1)>>, GIG, "text16", 0, "read")}
Others2 == Others1 \cup {Oth(<<>>, 0, "bin", 0, "read"), Oth(<<ER, D(1)>>, 3, "bin", 0, "read"), Oth(<<D(2)>>, BIG, "bin", 2, "buf")}
NoOthers == {}
=============================================================================
