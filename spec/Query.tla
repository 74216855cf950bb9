------------------------------ MODULE Query ------------------------------
(* Query strings: values of a few shapes written to the query of a request's URL    *)
(* and read from it.  A shape says which keys a value has:                           *)
(*   flat  s: text, n: 32-bit number, b: flag, o: optional text, d: number (default 0)*)
(*   list  l: texts (default empty)        map  m: text -> text (default empty)      *)
(*   nest  a: [x: signed number, y: numbers], e: Red or Green                        *)
(*   opt   a: optional text, n: optional number                                      *)
EXTENDS UrlText
U32MAX == S("4294967295")
Txt(t) == Utf8(t)
\* the (name, value) pairs of a value
Pairs(shape, v) ==
  CASE shape = "flat" -> << << S("s"), v.s >>, << S("n"), v.n >>, << S("b"), IF v.b THEN S("true") ELSE S("false") >> >> \o (IF v.o = <<>> THEN <<>> ELSE << << S("o"), v.o[1] >> >>) \o << << S("d"), v.d >> >>
    [] shape = "list" -> [i \in 1..Len(v.l) |-> << S("l[") \o DecOf(i - 1) \o S("]"), v.l[i] >>]
    [] shape = "map" -> MapSeq(v.m, LAMBDA e : << S("m[") \o e[1] \o S("]"), e[2] >>)
    [] shape = "nest" -> << << S("a[x]"), v.x >> >> \o [i \in 1..Len(v.y) |-> << S("a[y][") \o DecOf(i - 1) \o S("]"), v.y[i] >>] \o << << S("e"), v.e >> >>
    [] shape = "opt" -> (IF v.a = <<>> THEN <<>> ELSE << << S("a"), v.a[1] >> >>) \o (IF v.n = <<>> THEN <<>> ELSE << << S("n"), v.n[1] >> >>)
\* keys that the notation cannot carry: empty ones and those that look like list positions
Carries(shape, v) == shape = "map" => \A i \in 1..Len(v.m) : v.m[i][1] # <<>> /\ ~IsDigit(v.m[i][1][1])
--------------------------------------------------------------------------------
(* reading: only keys without brackets are specified                               *)
\* everything else is left to the notation, but it must be a value or a client error
Odd(q) == \E i \in 1..Len(q) : q[i] \in {C("["), C("]"), C("#"), 0, TAB, LF, CR} \/ q[i] > 126 \/ q[i] < 32
PctOk(t) == \A i \in 1..Len(t) : t[i] = 37 => i + 2 <= Len(t) /\ IsHexDigit(t[i + 1]) /\ IsHexDigit(t[i + 2])
Dec(t) == PctDecode(t)
Bad == [k |-> "bad"]
Val(v) == [k |-> "val", v |-> v]
Unclear == [k |-> "unclear"]
ReadNum(t, max) == IF IsDigits(t) THEN (IF NumLE(Canon(t), max) THEN Val(Canon(t)) ELSE Bad) ELSE IF t # <<>> /\ t[1] = 43 THEN Unclear ELSE Bad
ReadFlat(ps) ==
  LET Of(k) == SelectSeq(ps, LAMBDA p : p[1] = k)  One(k) == Of(k)[1][2]
      n == ReadNum(One(S("n")), U32MAX)  d == IF Of(S("d")) = <<>> THEN Val(S("0")) ELSE ReadNum(One(S("d")), S("255"))
      b == IF One(S("b")) = S("true") THEN Val(TRUE) ELSE IF One(S("b")) = S("false") THEN Val(FALSE) ELSE Bad
      o == Of(S("o")) IN
  CASE \E k \in {S("s"), S("n"), S("b")} : Of(k) = <<>> -> Err(400)
    [] \E k \in {S("s"), S("n"), S("b"), S("o"), S("d")} : Len(Of(k)) > 1 -> Sane
    [] n.k = "bad" \/ d.k = "bad" \/ b.k = "bad" -> Err(400)
    [] n.k = "unclear" \/ d.k = "unclear" -> Sane
    [] o # <<>> /\ One(S("o")) = <<>> -> Sane
    [] OTHER -> Ok([s |-> One(S("s")), n |-> n.v, b |-> b.v, o |-> IF o = <<>> THEN <<>> ELSE << One(S("o")) >>, d |-> d.v])
ReadOpt(ps) ==
  LET Of(k) == SelectSeq(ps, LAMBDA p : p[1] = k)  One(k) == Of(k)[1][2]  n == ReadNum(One(S("n")), U32MAX) IN
  CASE \E k \in {S("a"), S("n")} : Len(Of(k)) > 1 \/ (Of(k) # <<>> /\ One(k) = <<>>) -> Sane
    [] Of(S("n")) # <<>> /\ n.k = "bad" -> Err(400)
    [] Of(S("n")) # <<>> /\ n.k = "unclear" -> Sane
    [] OTHER -> Ok([a |-> IF Of(S("a")) = <<>> THEN <<>> ELSE << One(S("a")) >>, n |-> IF Of(S("n")) = <<>> THEN <<>> ELSE << n.v >>])
ReadQuery(q0, shape) ==
  LET q == IF q0 = <<>> THEN <<>> ELSE q0[1]  raw == SplitOn(q, 38)
      ps == MapSeq(SelectSeq(raw, LAMBDA x : x # <<>>), LAMBDA x : MapSeq(SplitOnce(x, EQ), Dec)) IN
  CASE Odd(q) \/ ~PctOk(q) \/ (q # <<>> /\ (\E i \in 1..Len(raw) : raw[i] = <<>> \/ Len(SplitOnce(raw[i], EQ)) = 1 \/ SplitOnce(raw[i], EQ)[1] = <<>>)) -> Sane
    [] \E i \in 1..Len(ps) : ~AllAscii(ps[i][1] \o ps[i][2]) \/ \E j \in 1..Len(ps[i][1]) : ps[i][1][j] \in {C("["), C("]")} -> Sane
    \* a name given twice, even one the shape does not have
    [] \E i, j \in 1..Len(ps) : i # j /\ ps[i][1] = ps[j][1] -> Sane
    [] shape = "flat" -> ReadFlat(ps)
    [] shape = "opt" -> ReadOpt(ps)
    [] OTHER -> Sane
EmptyOf(shape) ==
  CASE shape = "flat" -> Err(400) [] shape = "nest" -> Err(400)
    [] shape = "list" -> Ok([l |-> <<>>]) [] shape = "map" -> Ok([m |-> <<>>]) [] OTHER -> Ok([a |-> <<>>, n |-> <<>>])
HasEmpty(shape, v) == \/ (shape = "flat" /\ v.o = << <<>> >>) \/ (shape = "opt" /\ v.a = << <<>> >>)
Expected(rec) ==
  LET in == rec.in IN
  CASE rec.op = "qread" -> IF in.q \in {<<>>, << <<>> >>} THEN EmptyOf(in.shape) ELSE ReadQuery(in.q, in.shape)
    [] rec.op = "qset" ->
         IF ~Carries(in.shape, in.v) \/ HasEmpty(in.shape, in.v) THEN DontCare
         ELSE Ok([same |-> TRUE, pairs |-> Pairs(in.shape, in.v), back |-> Ok(in.v)])
--------------------------------------------------------------------------------
CONSTANTS NChars, NPieces
VARIABLE cs
Start == [op |-> "none", in |-> [q |-> <<>>, shape |-> "flat"]]
Strings(A, n) == UNION {[1..k -> A] : k \in 0..n}
Shapes == {"flat", "list", "map", "nest", "opt"}
Urls == {S("http://h/p"), S("https://a.b:8443/x/?old=1&s=2#frag"), S("mailto:me"), S("http://h?l[0]=z")}
Chars == {C("a"), C("&"), C("="), C("+"), C("%"), C(" "), C("["), C("]"), C("#"), C("'"), 233, 8364, 128512, 0, C("?"), C("5"), C("B")}
RawChars == {C("s"), C("="), C("&"), C("+"), C("%"), C("4"), C("1"), C("["), C("]")}
Pieces == {S("s=a"), S("n=5"), S("b=true"), S("b=1"), S("o=x"), S("o="), S("o"), S("d=7"), S("d=256"), S("n=4294967296"), S("n=-1"), S("n="), S("n=x"), S("s="), S("x=1"), S("s=%41+b"), S("s=%ff"), S("s=%"), S(""), S("=1"), S("a=q"), S("s[x]=1"), S("n=%2B5")}
QRead(q, sh) == cs' = [op |-> "qread", in |-> [q |-> q, shape |-> sh]]
QSet(u, sh, v) == cs' = [op |-> "qset", in |-> [url |-> u, shape |-> sh, v |-> v]]
Nums == {S("0"), S("1"), S("4294967295")}
Init == cs = Start
Next ==
  /\ cs = Start
  /\ \/ \E sh \in Shapes : QRead(<<>>, sh) \/ QRead(<< <<>> >>, sh)
     \/ \E q \in Strings(Pieces, NPieces), sh \in {"flat", "opt"} : QRead(<< JoinWith(q, S("&")) >>, sh)
     \/ \E q \in Strings(Pieces, NPieces) : QRead(<< S("s=a&n=5&b=false&") \o JoinWith(q, S("&")) >>, "flat")
     \/ \E t \in Strings(RawChars, NChars + 1), sh \in {"list", "map", "nest", "opt"} : QRead(<< t >>, sh)
     \/ \E t \in Strings({S("l"), S("m"), S("["), S("]"), S("a"), S("y"), S("0"), S("="), S("&")}, 5), sh \in {"list", "map", "nest"} : QRead(<< Flatten(t) >>, sh)
     \/ \E t \in Strings(Chars, NChars), u \in Urls : QSet(u, "flat", [s |-> t, n |-> S("7"), b |-> TRUE, o |-> << t >>, d |-> S("0")]) \/ QSet(u, "list", [l |-> << t, t >>]) \/ QSet(u, "map", [m |-> << << t, t >> >>]) \/ QSet(u, "opt", [a |-> << t >>, n |-> <<>>])
     \/ \E n \in Nums, b \in BOOLEAN, d \in {S("0"), S("255")}, o \in {<<>>, << S("x") >>}, u \in Urls : QSet(u, "flat", [s |-> S("t"), n |-> n, b |-> b, o |-> o, d |-> d])
     \/ \E l \in Strings({S(""), S("b"), S("c d")}, 3), u \in Urls : QSet(u, "list", [l |-> l])
     \/ \E ks \in SUBSET {S("a"), S("b[c]"), S("d=e"), << 233 >>}, u \in Urls : QSet(u, "map", [m |-> MapSeq(SetToSortSeq(ks, LexLT), LAMBDA x : << x, S("v") >>)])
     \/ \E x \in {S("0"), S("-9223372036854775808"), S("9223372036854775807")}, y \in Strings(Nums, 2), e \in {S("Red"), S("Green")}, u \in Urls : QSet(u, "nest", [x |-> x, y |-> y, e |-> e])
     \/ \E y \in {12, 25}, u \in Urls : QSet(u, "list", [l |-> [i \in 1..y |-> DecOf(i)]])
     \/ \E n \in {<<>>, << S("9") >>}, u \in Urls : QSet(u, "opt", [a |-> <<>>, n |-> n])
Emit == PrintT(ToJson([op |-> cs'.op, in |-> cs'.in, exp |-> Expected(cs')]))
\* reading what the pairs spell, percent-encoded, gives the value back
EncPair(p) == FormEnc(p[1]) \o << EQ >> \o FormEnc(p[2])
RoundTrip == cs.op = "qset" /\ cs.in.shape \in {"flat", "opt"} /\ Expected(cs).k = "ok" /\ AllAscii(Flatten(MapSeq(Pairs(cs.in.shape, cs.in.v), LAMBDA p : p[2]))) =>
   LET q == JoinWith(MapSeq(Pairs(cs.in.shape, cs.in.v), EncPair), S("&")) IN
   IF q = <<>> THEN EmptyOf(cs.in.shape) = Ok(cs.in.v) ELSE ReadQuery(<< q >>, cs.in.shape) = Ok(cs.in.v)
=============================================================================
