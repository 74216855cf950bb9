-------------------------------- MODULE Timing --------------------------------
(* Server-Timing: a list of metrics, each a name with an optional duration and    *)
(* description.  A metric is [n, dur, desc]; dur holds whole nanoseconds in       *)
(* decimal, the header spells milliseconds.                                       *)
EXTENDS Text
\* split at sep outside quoted strings, in which a backslash escapes the next character
SplitOut(t, sep) ==
  FoldLeft(LAMBDA z, x : IF x = sep /\ ~z.q THEN [z EXCEPT !.out = Append(@, <<>>)]
             ELSE [q |-> IF z.e THEN z.q ELSE IF x = DQ THEN ~z.q ELSE z.q, e |-> ~z.e /\ z.q /\ x = BSLASH, out |-> [z.out EXCEPT ![Len(z.out)] = Append(@, x)]],
           [q |-> FALSE, e |-> FALSE, out |-> << <<>> >>], t).out
IsQText(x) == x = 9 \/ (x >= 32 /\ x < 127)
\* the text of a quoted string: << text >>, or << >> if it is not one
Unquote(t) ==
  IF Len(t) < 2 \/ t[1] # DQ THEN <<>>
  ELSE LET z == FoldLeft(LAMBDA a, x : IF a.bad THEN a ELSE IF a.done \/ ~IsQText(x) THEN [a EXCEPT !.bad = TRUE]
                          ELSE IF a.e THEN [a EXCEPT !.e = FALSE, !.out = Append(@, x)]
                          ELSE IF x = BSLASH THEN [a EXCEPT !.e = TRUE]
                          ELSE IF x = DQ THEN [a EXCEPT !.done = TRUE] ELSE [a EXCEPT !.out = Append(@, x)],
                        [bad |-> FALSE, done |-> FALSE, e |-> FALSE, out |-> <<>>], Tail(t))
       IN IF z.done /\ ~z.bad THEN << z.out >> ELSE <<>>
QuoteText(t) == << DQ >> \o Flatten(MapSeq(t, LAMBDA x : IF x \in {DQ, BSLASH} THEN << BSLASH, x >> ELSE << x >>)) \o << DQ >>
IsToken(t) == t # <<>> /\ All(t, IsTChar)
Zeros(n) == [i \in 1..n |-> 48]
--------------------------------------------------------------------------------
(* a duration in milliseconds                                                     *)
Val(v) == [k |-> "val", v |-> v]
Open0 == [k |-> "any"]      \* error or not, left open
Good == [k |-> "good"]    \* read, but to a precision left open
Bad == [k |-> "bad"]
IsDec(t) == LET p == SplitOnce(t, DOT) IN IsDigits(p[1]) /\ (Len(p) = 1 \/ IsDigits(p[2]))
ReadDur(t) ==
  IF IsDec(t)
  THEN LET p == SplitOnce(t, DOT)  w == Canon(p[1])  f0 == IF Len(p) = 1 THEN <<>> ELSE p[2]  f == TrimR(f0, LAMBDA x : x = 48) IN
    CASE Len(f) <= 6 /\ (Len(w) <= 7 \/ (Len(w) <= 12 /\ f = <<>>)) -> Val(Canon(w \o f \o Zeros(6 - Len(f))))
      [] Len(w) <= 19 -> Good
      [] Len(w) > 23 -> Bad
      [] OTHER -> Open0
  ELSE IF t = <<>> THEN Bad
  ELSE LET u == IF t[1] \in {43, MINUS} THEN Tail(t) ELSE t IN
    CASE t[1] = MINUS /\ IsDec(u) /\ (\E i \in 1..Len(u) : u[i] \in 49..57) -> Bad
      [] Lower(u) \in {S("nan"), S("inf"), S("infinity")} -> Bad
      [] t[1] = DQ /\ Unquote(t) # <<>> -> Open0
      [] IsDec(u) \/ \E i \in 1..Len(u) : u[i] \in {DOT, 69, 101} -> IF \A i \in 1..Len(u) : u[i] \in (48..57) \cup {DOT, 69, 101, 43, MINUS} THEN Open0 ELSE Bad
      [] OTHER -> Bad
ReadDesc(t) == CASE t # <<>> /\ t[1] = DQ -> (IF Unquote(t) = <<>> THEN Bad ELSE Val(Unquote(t)[1]))
                 [] IsToken(t) -> Val(t)
                 [] t # <<>> /\ Last(t) = DQ -> Bad
                 [] OTHER -> Open0
\* one parameter: name and value
ReadParam(t0) ==
  LET p == SplitOnce(t0, EQ)  n == TrimWS(p[1])  v == TrimWS(IF Len(p) = 1 THEN <<>> ELSE p[2]) IN
  CASE Len(p) = 1 -> [n |-> "x", r |-> Bad]
    [] n = S("dur") -> [n |-> "dur", r |-> ReadDur(v)]
    [] n = S("desc") -> [n |-> "desc", r |-> ReadDesc(v)]
    [] IsToken(n) /\ Lower(n) \notin {S("dur"), S("desc")} /\ (IsToken(v) \/ Unquote(v) # <<>>) -> [n |-> "x", r |-> Val(<<>>)]
    [] OTHER -> [n |-> "x", r |-> Open0]
ReadMetric(t) ==
  LET parts == SplitOut(TrimWS(t), SEMI)  name == TrimWS(parts[1])  ps == MapSeq(Tail(parts), ReadParam)
      Of(n) == SelectSeq(ps, LAMBDA x : x.n = n)  Arg(n) == IF Of(n) = <<>> THEN <<>> ELSE << Of(n)[1].r.v >> IN
  CASE name = <<>> \/ \E i \in 1..Len(ps) : ps[i].r.k = "bad" -> Bad
    [] ~IsToken(name) \/ Len(Of("dur")) > 1 \/ Len(Of("desc")) > 1 \/ \E i \in 1..Len(ps) : ps[i].r.k = "any" -> Open0
    [] \E i \in 1..Len(ps) : ps[i].r.k = "good" -> Good
    [] OTHER -> Val([n |-> name, dur |-> Arg("dur"), desc |-> Arg("desc")])
ReadTiming(vals) ==
  IF vals = <<>> THEN None
  ELSE LET es == SelectSeq(Flatten(MapSeq(vals, LAMBDA t : SplitOut(t, COMMA))), LAMBDA t : TrimWS(t) # <<>>)  rs == MapSeq(es, ReadMetric)
           Has(k) == \E i \in 1..Len(rs) : rs[i].k = k IN
    CASE Has("bad") -> Err(400)
      [] Has("any") -> DontCare
      [] Has("good") -> [k |-> "someok"]
      [] OTHER -> Ok(MapSeq(rs, LAMBDA x : x.v))
\* a name and description as written; the spelling of the duration is left open
WriteHead(m) == m.n
Millis(ns) == LET p == PadLeft(ns, 7, 48)  w == Take(p, Len(p) - 6)  f == TrimR(Drop(p, Len(p) - 6), LAMBDA x : x = 48) IN w \o (IF f = <<>> THEN <<>> ELSE << DOT >> \o f)
WriteMetric(m) == m.n \o (IF m.dur = <<>> THEN <<>> ELSE S("; dur=") \o Millis(m.dur[1])) \o (IF m.desc = <<>> THEN <<>> ELSE S("; desc=") \o QuoteText(m.desc[1]))
WriteTiming(ms) == JoinWith(MapSeq(ms, WriteMetric), S(", "))
\* durations that survive exactly: to the nanosecond below 10000 s, whole milliseconds below 10^12
Exact(ns) == Len(ns) <= 13 \/ (Len(ns) <= 18 /\ EndsWith(ns, Zeros(6)))
Expected(rec) ==
  LET in == rec.in IN
  CASE rec.op = "stread" -> ReadTiming(in.vals)
    [] rec.op = "stwrite" -> IF \A i \in 1..Len(in.ms) : in.ms[i].dur = <<>> \/ Exact(in.ms[i].dur[1])
                             THEN Ok([back |-> Ok(in.ms), bare |-> IF \A i \in 1..Len(in.ms) : in.ms[i].dur = <<>> THEN << WriteTiming(in.ms) >> ELSE <<>>]) ELSE DontCare
    [] rec.op = "stnew" -> IF AllAscii(in.m.n) /\ (in.m.desc = <<>> \/ AllAscii(in.m.desc[1])) THEN Ok(in.m) ELSE Err(0)
--------------------------------------------------------------------------------
CONSTANTS NChars, NPieces, NWrite
VARIABLE cs
Start == [op |-> "none", in |-> [vals |-> <<>>]]
Strings(A, n) == UNION {[1..k -> A] : k \in 0..n}
Read(vals) == cs' = [op |-> "stread", in |-> [vals |-> vals]]
M(n, dur, desc) == [n |-> n, dur |-> dur, desc |-> desc]
DescChars == {C("a"), C("\""), C("\\"), C(","), C(";"), C("="), C(" ")}
DurTexts == {S("++5"), S("+-5"), S("-+5"), S("--5"), S("5+"), S("5-"), S("5ms"), S("0x5"), S("5,5"), S("5f"), S("1_000"), S("0"), S("0.000001"), S("1"), S("47.2"), S("1000.999999"), S("9999999.999999"), S("999999999999"), S("007"), S("1.0000000"), S("1.0000001"), S("18446744073709551615"), S("18446744073709551616"), S("9999999999999999999999"), S("18446744073709551616000"), S("1000000000000000000000000"),
             S("-1"), S("-0"), S("+1"), S("nan"), S("NaN"), S("inf"), S("-inf"), S("infinity"), S("1e3"), S("1e400"), S(".5"), S("5."), S("."), S(""), S("x"), S("1x"), S("1 2"), S("0x1"), S("\"5\""), S("1,5"), S("--1"), S("1.2.3"), S("-0.0001"), S("1e-400")}
Nss == {S("0"), S("1"), S("1001000000"), S("999999999"), S("47200000"), S("9999999999999"), S("1000000001"), S("123456789012000000"), S("999999999999000000"), S("18446744073709551615999999999")}
Params == {S("dur=1"), S(" dur = 2.5 "), S("desc=a"), S("desc=\"a, b; c=d\""), S("desc=\"\\\"\\\\\""), S("desc=\""), S("desc=\"a\"b"), S("desc=a\""), S("desc="), S("x=1"), S("x=\"q,;\""), S("x"), S(""), S(" "), S("=1"), S("DUR=1"), S("dur=-1")}
Names == {S("db"), S("a b"), S(""), S(" x\t"), S("c\"d"), S("!#$%&'*+-.^_`|~")}
Metrics == {M(n, dur, desc) : n \in {S("db"), S("a.b")}, dur \in {<<>>, << S("1001000000") >>, << S("0") >>}, desc \in {<<>>, << S("") >>, << S("x, y; dur=5") >>, << S("\"\\") >>}}
Init == cs = Start
Next ==
  /\ cs = Start
  /\ \/ Read(<<>>)
     \/ \E d \in DurTexts : Read(<< S("a;dur=") \o d >>) \/ Read(<< S("a; desc=b; dur=") \o d \o S(" , b") >>)
     \/ \E n \in Names, q \in Strings(Params, NPieces) : Read(<< JoinWith(<< n >> \o q, S(";")) >>)
     \/ \E q \in Strings({S("a;dur=1"), S("b;desc=\"x,y\""), S(""), S(" "), S("c"), S("d;desc=\"u"), S("e;")}, 3) : Read(q) \/ Read(<< JoinWith(q, S(",")) >>)
     \/ \E t \in Strings(DescChars, NChars) : Read(<< S("a;desc=\"") \o t \o S("\", b") >>) \/ Read(<< S("a;desc=") \o t >>) \/ cs' = [op |-> "stwrite", in |-> [ms |-> << M(S("a"), <<>>, << t >>), M(S("b"), << S("5000000") >>, << t >>) >>]]
     \/ \E x \in 0..127 : Read(<< << x >> >>) \/ Read(<< << 97, x >> \o S("; desc=c") >>) \/ Read(<< S("a;desc=\"") \o << x, DQ >> >>)
     \/ \E d \in Nss : cs' = [op |-> "stwrite", in |-> [ms |-> << M(S("a"), << d >>, <<>>), M(S("b"), << d >>, << S("d") >>) >>]]
     \/ \E ms \in Strings(Metrics, NWrite) : cs' = [op |-> "stwrite", in |-> [ms |-> ms]]
     \/ \E n \in {S("a"), << 233 >>, S("")}, d \in {<<>>, << S("b") >>, << << 97, 128 >> >>} : cs' = [op |-> "stnew", in |-> [m |-> M(n, << S("7") >>, d)]]
Emit == PrintT(ToJson([op |-> cs'.op, in |-> cs'.in, exp |-> Expected(cs')]))
RoundTrip == (cs.op = "stwrite" /\ \A i \in 1..Len(cs.in.ms) : cs.in.ms[i].dur = <<>> \/ Exact(cs.in.ms[i].dur[1])) => ReadTiming(<< WriteTiming(cs.in.ms) >>) = Ok(cs.in.ms)
QuoteLaw == cs.op = "stwrite" => \A i \in 1..Len(cs.in.ms) : cs.in.ms[i].desc # <<>> => Unquote(QuoteText(cs.in.ms[i].desc[1])) = cs.in.ms[i].desc
=============================================================================
