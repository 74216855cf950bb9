-------------------------------- MODULE Mime --------------------------------
(* Parsing and formatting of media types as a function of the text.           *)
EXTENDS MimeText
View0(m) == [base |-> m.base, sub |-> m.sub, essence |-> Essence(m), shown |-> FormatMime(m)]
Expected(rec) ==
  LET in == rec.in IN
  CASE rec.op = "mime" ->
         LET m == ParseMime(in.t) IN
         IF m = <<>> THEN Err(0)
         ELSE Ok([m |-> View0(m[1]), params |-> [i \in 1..Len(in.names) |-> Param(m[1], in.names[i])], again |-> TRUE])
    \* a message's media type is what the last of its Content-Type values says
    [] rec.op = "ctype" ->
         LET m == IF in.vals = <<>> THEN <<>> ELSE ParseMime(Last(in.vals))
             shown == IF m = <<>> THEN None ELSE Ok(FormatMime(m[1])) IN
         IF in.how = "typed" /\ in.vals # <<>> /\ m = <<>> THEN Err(4) ELSE shown
--------------------------------------------------------------------------------
CONSTANTS HeadChars, HeadLen, TailChars, TailLen, Pieces, NPieces
VARIABLE cs
Start == [op |-> "none", in |-> [t |-> <<>>, names |-> <<>>]]
Names0 == << S("a"), S("charset"), S("CharSet"), S("b") >>
Strings(A, n) == UNION {[1..k -> A] : k \in 0..n}
Case(t) == cs' = [op |-> "mime", in |-> [t |-> t, names |-> Names0]]
Values == {S("text/html"), S("a/b;c=\"d e\""), S("a/b, c/d"), S("x"), S(""), S(" TEXT/Plain ; Charset=utf-8 "), S("*/*")}
Init == cs = Start
Next == /\ cs = Start
        /\ \/ \E t \in Strings(HeadChars, HeadLen) : Case(t)
           \/ \E v \in UNION {[1..k -> Values] : k \in 0..2}, h \in {"typed", "req", "res"} : cs' = [op |-> "ctype", in |-> [vals |-> v, how |-> h]]
           \/ \E t \in Strings(TailChars, TailLen) : Case(S("a/b;") \o t)
           \/ \E p \in Strings(Pieces, NPieces), x \in {S(""), S(" ")} : Case(S("x/y") \o Flatten(MapSeq(p, LAMBDA q : << SEMI >> \o x \o q)))
           \/ \E b \in 0..600 : \/ Case(S("a/b;a=") \o << b >>) \/ Case(S("a/b;a=\"") \o << b, DQ >>) \/ Case(S("a/b;a") \o <<b>> \o S("=c;b=d"))
                                \/ Case(S("a/b") \o <<b>> \o S(";a=d")) \/ Case(<<b>> \o S("a/b;a=d")) \/ Case(S("a/b;a=c") \o <<b>> \o S(";b=d"))
Emit == PrintT(ToJson([op |-> cs'.op, in |-> cs'.in, exp |-> Expected(cs')]))
Parsed == ParseMime(cs.in.t)
RoundTrip == cs.op = "mime" /\ Parsed # <<>> => ParseMime(FormatMime(Parsed[1])) = Parsed
UniqueLower == cs.op = "mime" /\ Parsed # <<>> =>
  LET ps == Parsed[1].ps IN \A i \in 1..Len(ps) : ps[i][1] = Lower(ps[i][1]) /\ \A j \in 1..Len(ps) : ps[i][1] = ps[j][1] => i = j
Reflexive == cs.op = "mime" /\ Parsed # <<>> => SubsetEq(Parsed[1], Parsed[1])
HeadChars1 == {97, 47, 59, 32, 10, 11, 65, 233}
TailChars1 == {59, 61, 34, 92, 97, 32, 233, 300}
TailChars2 == TailChars1 \cup {65, 10, 127}
Pieces1 == {S("charset=utf-8"), S("CHARSET=\"utf-8\""), S("charset=UTF-8"), S("charset=gbk"), S("charset=\"utf\\-8\""), S("a=b"), S("A=\"\""), S("b=x y"), S("a=\"q\\\"r\" junk"), S("=v"), S("charset=")}
=============================================================================
