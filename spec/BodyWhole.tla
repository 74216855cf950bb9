----------------------------- MODULE BodyWhole ------------------------------
(* Reading a whole body: the remaining content within the declared length,   *)
(* then decoding it as text, JSON or a form.                                  *)
EXTENDS Body

\* Drain a body; indices of the content handed out, or a failure.
RECURSIVE Drain(_, _)
Drain(st, acc) ==
  LET a == DoRead(st, BIG) IN
  CASE a.r.k = "pending" -> Drain(a.s, acc)
    [] a.r.k = "ioerr" -> [k |-> "ioerr"]
    [] OTHER -> IF a.r.v = <<>> THEN [k |-> "data", v |-> acc] ELSE Drain(a.s, acc \o a.r.v)
\* source 0 numbers its bytes 0, 1, 2, ... so that they index the content
Start(in) == LET b == Create([ev |-> in.ev, lim |-> in.lim, id |-> 0, mime |-> "bin", ctor |-> "reader"]) IN
             IF in.pre = 0 THEN b ELSE DoRead(b, in.pre).s
Delivered(in) == LET z == Drain(Start(in), <<>>) IN
                 IF z.k = "ioerr" THEN z ELSE [k |-> "data", v |-> MapSeq(z.v, LAMBDA i : in.content[i + 1])]

(* JSON recogniser: the position after one value, or 0 if there is none.      *)
IsJWs(c) == c \in {32, 9, 10, 13}
RECURSIVE SkipWs(_, _)
SkipWs(b, i) == IF i <= Len(b) /\ IsJWs(b[i]) THEN SkipWs(b, i + 1) ELSE i
At(b, i) == IF i <= Len(b) THEN b[i] ELSE -1
Lit(b, i, w) == IF i + Len(w) - 1 <= Len(b) /\ SubSeq(b, i, i + Len(w) - 1) = w THEN i + Len(w) ELSE 0
RECURSIVE JDigits(_, _)
JDigits(b, i) == IF IsDigit(At(b, i)) THEN JDigits(b, i + 1) ELSE i
JNumber(b, i0) ==
  LET i == IF At(b, i0) = 45 THEN i0 + 1 ELSE i0
      j == IF At(b, i) = 48 THEN i + 1 ELSE JDigits(b, i)
  IN IF j = i THEN 0
     ELSE LET k == IF At(b, j) = 46 THEN JDigits(b, j + 1) ELSE j IN
          IF At(b, j) = 46 /\ k = j + 1 THEN 0
          ELSE IF At(b, k) \in {101, 69}
          THEN LET m == IF At(b, k + 1) \in {43, 45} THEN k + 2 ELSE k + 1
                   x == JDigits(b, m) IN IF x = m THEN 0 ELSE x
          ELSE k
RECURSIVE JString(_, _)
JString(b, i) == \* i: just after the opening quote
  LET c == At(b, i) IN
  CASE c = -1 -> 0
    [] c = 34 -> i + 1
    [] c = 92 -> IF At(b, i + 1) \in {34, 92, 47, 98, 102, 110, 114, 116} THEN JString(b, i + 2)
                 ELSE IF At(b, i + 1) = 117 /\ \A d \in 2..5 : IsHexDigit(At(b, i + d)) THEN JString(b, i + 6) ELSE 0
    [] c < 32 -> 0
    [] OTHER -> JString(b, i + 1)
RECURSIVE JValue(_, _), JItems(_, _), JMembers(_, _)
JItems(b, i) == \* at the first value of a non-empty array
  LET j == JValue(b, i) IN
  IF j = 0 THEN 0 ELSE LET k == SkipWs(b, j) IN
    IF At(b, k) = 44 THEN JItems(b, k + 1) ELSE IF At(b, k) = 93 THEN k + 1 ELSE 0
JMembers(b, i0) ==
  LET i == SkipWs(b, i0) IN
  IF At(b, i) # 34 THEN 0
  ELSE LET j == JString(b, i + 1) IN
       IF j = 0 THEN 0 ELSE LET k == SkipWs(b, j) IN
         IF At(b, k) # 58 THEN 0
         ELSE LET m == JValue(b, k + 1) IN
              IF m = 0 THEN 0 ELSE LET x == SkipWs(b, m) IN
                IF At(b, x) = 44 THEN JMembers(b, x + 1) ELSE IF At(b, x) = 125 THEN x + 1 ELSE 0
JValue(b, i0) ==
  LET i == SkipWs(b, i0)  c == At(b, i) IN
  CASE c = 123 -> IF At(b, SkipWs(b, i + 1)) = 125 THEN SkipWs(b, i + 1) + 1 ELSE JMembers(b, i + 1)
    [] c = 91 -> IF At(b, SkipWs(b, i + 1)) = 93 THEN SkipWs(b, i + 1) + 1 ELSE JItems(b, i + 1)
    [] c = 34 -> JString(b, i + 1)
    [] c = 116 -> Lit(b, i, S("true"))
    [] c = 102 -> Lit(b, i, S("false"))
    [] c = 110 -> Lit(b, i, S("null"))
    [] OTHER -> JNumber(b, i)
\* serde_json checks UTF-8 inside strings; outside strings non-ASCII bytes are not JSON anyway
IsJson(b) == Utf8Valid(b) /\ LET j == JValue(b, 1) IN j # 0 /\ SkipWs(b, j) = Len(b) + 1

\* percent-escapes that do not decode to UTF-8 are replaced, not modelled
PairsClean(b) == \A i \in 1..Len(FormPairs(b)) : Utf8Valid(FormPairs(b)[i][1]) /\ Utf8Valid(FormPairs(b)[i][2])
Decode(kind, b, compact) ==
  CASE kind = "bytes" -> Ok(b)
    [] kind = "string" -> IF Utf8Valid(b) THEN Ok(b) ELSE Err(422)
    [] kind = "json" -> IF ~IsJson(b) THEN Err(422) ELSE IF compact THEN Ok(b) ELSE [k |-> "someok"]
    [] kind = "form" -> IF ~Utf8Valid(b) THEN Err(422) ELSE IF PairsClean(b) THEN Ok(FormPairs(b)) ELSE [k |-> "someok"]
    [] kind = "formstruct" -> \* a form with exactly one field named a
         IF ~Utf8Valid(b) THEN Err(422)
         ELSE IF ~PairsClean(b) THEN DontCare
         ELSE LET as == SelectSeq(FormPairs(b), LAMBDA kv : kv[1] = S("a")) IN
              IF Len(as) = 1 THEN Ok(as[1][2]) ELSE Err(422)

\* After reading through a message its body is empty.
After == [len |-> << 0 >>, rest |-> <<>>]
\* A body made from a value: its text, length and media type; and the value read back.
JsonType == S("application/json")
FormType == S("application/x-www-form-urlencoded")
JoinPairs(ps) == Flatten([i \in 1..Len(ps) |-> (IF i = 1 THEN <<>> ELSE <<38>>) \o FormEnc(Utf8(ps[i][1])) \o <<61>> \o FormEnc(Utf8(ps[i][2]))])
Built(in) == LET t == IF in.how = "form" THEN JoinPairs(in.pairs) ELSE in.content IN
             Ok([text |-> t, len |-> Len(t), mime |-> IF in.how = "form" THEN FormType ELSE JsonType, empty |-> t = <<>>, back |-> TRUE])
\* Bulk: content pre, unit many times, post.  What one and two units decode to settles what any number does:
\* in names the parts vp, vu, vq of the value; the harness says how often vu was found between vp and vq.
Pump(in, k) == in.pre \o Flatten([i \in 1..k |-> in.unit]) \o (IF in.cut THEN <<>> ELSE in.post)
BulkOf(in) ==
  LET d1 == Decode(in.kind, Pump(in, 1), in.compact)  d2 == Decode(in.kind, Pump(in, 2), in.compact) IN
  IF d1.k = "ok" /\ d2.k = "ok"
  THEN IF d1.v = in.vp \o in.vu \o in.vq /\ d2.v = in.vp \o in.vu \o in.vu \o in.vq
       THEN Ok([p |-> in.vp, u |-> in.vu, t |-> IF in.vu = <<>> THEN 0 ELSE in.times, q |-> in.vq]) ELSE DontCare
  ELSE IF d1.k = d2.k /\ d1.k # "ok" THEN d1 ELSE DontCare
Expected(rec) ==
  IF "op" \in DOMAIN rec /\ rec.op = "build" THEN Built(rec.in) ELSE
  IF "op" \in DOMAIN rec /\ rec.op = "bulk" THEN (IF rec.in.via = "body" THEN BulkOf(rec.in) ELSE [k |-> "msg", r |-> BulkOf(rec.in), after |-> After]) ELSE
  LET in == rec.in
      z == Delivered(in)
      r == IF z.k = "ioerr" THEN Err(0) ELSE Decode(in.kind, z.v, in.compact /\ z.v = in.content)
  IN IF in.via = "reader" THEN (IF in.lim # Unknown /\ (in.lim < Len(in.content) \/ (in.lim = Len(in.content) /\ \E i \in 1..Len(in.ev) : in.ev[i].t = "e")) THEN DontCare ELSE r) \* the source itself knows no length
     ELSE IF in.via = "body" THEN r
     ELSE [k |-> "msg", r |-> r, after |-> After]
\* outcome matching descends into the message wrapper
WMatch(e, o) == IF e.k = "msg" THEN o.k = "msg" /\ Match(e.r, o.r) /\ o.after = e.after ELSE Match(e, o)

--------------------------------------------------------------------------------
(* Bounded enumeration *)
CONSTANTS Contents, Vias, Kinds, Pres
VARIABLE cs
Chunkings(n) == IF n = 0 THEN {<<>>, <<PD>>, <<ER>>}
                ELSE {<<D(n)>>, <<PD, D(n)>>, <<D(n), ER>>, <<EK(1), D(n)>>, <<D(n), EK(2)>>} \cup (IF n > 1 THEN {<<D(1), PD, D(n - 1)>>, <<D(1), ER, D(n - 1)>>} ELSE {})
None0 == [content |-> <<>>]
WInit == cs = None0 /\ s = 0 /\ op = 0
WNext == /\ cs = None0
         /\ \E x \in Contents, v \in Vias, kd \in Kinds, p \in Pres : \E ev \in Chunkings(Len(x)), l \in {Unknown, 0, Len(x) - 1, Len(x), Len(x) + 1, GIG, BIG - 50000, BIG} :
              /\ l >= -1 /\ (v = "reader" => kd = "bytes")
              /\ cs' = [content |-> x, ev |-> ev, lim |-> l, pre |-> p, kind |-> kd, via |-> v, compact |-> FALSE]
         /\ UNCHANGED << s, op >>
WEmit == PrintT(ToJson([op |-> "whole", in |-> cs', exp |-> Expected([in |-> cs'])]))
\* the recogniser and the UTF-8 automaton agree with the encoder
Utf8Law == \A cp \in {0, 65, 127, 128, 233, 2047, 2048, 55295, 57344, 65535, 65536, 1114111} :
             Utf8Valid(Utf8Of(cp)) /\ ~Utf8Valid(Front(Utf8Of(cp)) \o <<255>>) /\ (cp >= 128 => ~Utf8Valid(Tail(Utf8Of(cp))))
LenLaw == cs # None0 =>
  LET z == Delivered(cs) IN
  z.k = "data" => /\ (cs.lim # Unknown => Len(z.v) <= cs.lim)
                  /\ (EndsWith(cs.content, z.v) \/ StartsWith(cs.content, z.v) \/ cs.lim < Len(cs.content))
Contents1 == {<<>>, S("{}"), S("a=1"), <<195, 169>>, <<195>>, <<255, 65>>, S("[1,2]"), S("a=%41&a=+"),
               <<239, 187, 191, 49>>, S(" 1\n"), <<194, 160, 97, 0>>, S("?a=1"), S("a=1#b"), S("a=1;a=2"), <<49, 239, 187, 191>>}
=============================================================================
