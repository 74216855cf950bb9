------------------------------ MODULE Conditional ------------------------------
(* Entity tags (RFC 7232 2.3), the If-Match and If-None-Match lists and Vary.     *)
EXTENDS Text, ListText
IsETagC(x) == x = 33 \/ (x >= 35 /\ x <= 126)
\* quote, opaque tag, quote, after an optional W/
IsQuoted(t) == Len(t) >= 2 /\ t[1] = DQ /\ Last(t) = DQ /\ All(Drop(Front(t), 1), IsETagC)
Opaque(t) == Drop(Front(t), 1)
WeakMark == S("W/")
Tag(w, t) == [w |-> w, t |-> t]
ReadTag(t) == CASE IsQuoted(t) -> Ok(Tag(FALSE, Opaque(t)))
                [] StartsWith(t, WeakMark) /\ IsQuoted(Drop(t, 2)) -> Ok(Tag(TRUE, Opaque(Drop(t, 2))))
                [] OTHER -> Err(400)
WriteTag(g) == (IF g.w THEN WeakMark ELSE <<>>) \o << DQ >> \o g.t \o << DQ >>
ReadETag(vals) ==
  IF vals = <<>> THEN None
  ELSE LET v == Last(vals) IN
    IF TrimWS(v) # v /\ ReadTag(TrimWS(v)).k = "ok" THEN Maybe(ReadTag(TrimWS(v)).v) ELSE ReadTag(v)
--------------------------------------------------------------------------------
(* The three list headers hold entries and a wildcard flag.                       *)
Wild == << STAR >>
Parts(vals) == SelectSeq(MapSeq(Flatten(MapSeq(vals, Elements)), TrimWS), LAMBDA x : x # <<>>)
ReadTags(vals) ==
  LET ps == Parts(vals)  ts == MapSeq(SelectSeq(ps, LAMBDA x : x # Wild), ReadTag) IN
  IF \E i \in 1..Len(ts) : ts[i].k = "err" THEN Err(400)
  ELSE Ok([es |-> MapSeq(ts, LAMBDA x : x.v), wild |-> \E i \in 1..Len(ps) : ps[i] = Wild])
ReadNames(vals) ==
  LET ps == SelectSeq(MapSeq(Flatten(MapSeq(vals, LAMBDA x : SplitOn(x, COMMA))), TrimWS), LAMBDA x : x # <<>>)  ns == SelectSeq(ps, LAMBDA x : x # Wild) IN
  IF \E i \in 1..Len(ns) : ~All(ns[i], IsTChar) THEN DontCare
  ELSE Ok([es |-> MapSeq(ns, Lower), wild |-> \E i \in 1..Len(ps) : ps[i] = Wild])
ReadList(h, vals) == IF vals = <<>> THEN None ELSE IF h = "vary" THEN ReadNames(vals) ELSE ReadTags(vals)
WriteEntry(h, e) == IF h = "vary" THEN Lower(e) ELSE WriteTag(e)
WriteList(h, l) == JoinWith(MapSeq(l.es, LAMBDA e : WriteEntry(h, e)) \o (IF l.wild THEN << Wild >> ELSE <<>>), S(", "))
Same(h, l) == IF h = "vary" THEN [l EXCEPT !.es = MapSeq(@, Lower)] ELSE l
Expected(rec) ==
  LET in == rec.in IN
  CASE rec.op = "etagread" -> ReadETag(in.vals)
    [] rec.op = "etagwrite" -> Ok([t |-> WriteTag(in.g), back |-> Ok(in.g)])
    [] rec.op = "condread" -> ReadList(in.h, in.vals)
    [] rec.op = "condwrite" -> Ok([t |-> WriteList(in.h, in.l), back |-> Ok(Same(in.h, in.l))])
--------------------------------------------------------------------------------
CONSTANTS NChars, NParts, NWrite
VARIABLE cs
Start == [op |-> "none", in |-> [vals |-> <<>>]]
Strings(A, n) == UNION {[1..k -> A] : k \in 0..n}
Chars == {C("\""), C("W"), C("/"), C("a"), C(" "), C("w"), C(","), C("*"), C("\\")}
Odd == {C("!"), C("#"), C("~"), C(","), C("\\"), C("/"), C("W"), C(" "), C("*"), C("\""), 127, 0, 31, 9}
Tags == {Tag(w, t) : w \in BOOLEAN, t \in {S(""), S("a"), S("x,y"), S("W/"), S("*"), S("a\\"), S(",")}}
TagPieces == {S("\"\""), S("\"a\""), S("W/\"b,c\""), S("*"), S(""), S(" \t"), S(" \"d\" "), S("\"e"), S("f"), S("W/"), S("\", W/\""), S("\"*\""), S("\"a b\"")}
NamePieces == {S("Accept"), S("x-y"), S("*"), S(""), S(" \t"), S(" USER-Agent "), S("**"), S("a b"), S("!#$%&'+.^_`|~")}
VNames == {S("Accept"), S("x"), S("User-AGENT"), S("a1"), S("**")}
Hs == {"if-match", "if-none-match"}
Init == cs = Start
Next ==
  /\ cs = Start
  /\ \/ \E t \in Strings(Chars, NChars) : cs' = [op |-> "etagread", in |-> [vals |-> << t >>]]
     \/ \E a \in {S("\"a\""), S("W/\"b\""), S("x"), S("")}, b \in {S("\"c\""), S("W/\"d\""), S("x"), S("")} : cs' = [op |-> "etagread", in |-> [vals |-> << a, b >>]]
     \/ cs' = [op |-> "etagread", in |-> [vals |-> <<>>]]
     \/ \E h \in Hs \cup {"vary"} : cs' = [op |-> "condread", in |-> [h |-> h, vals |-> <<>>]]
     \/ \E x \in 0..127, w \in {<<>>, WeakMark} : cs' = [op |-> "etagread", in |-> [vals |-> << w \o << DQ, 97, x, DQ >> >>]]
     \/ \E x \in (33..126) \ {DQ}, w \in BOOLEAN : cs' = [op |-> "etagwrite", in |-> [g |-> Tag(w, << 97, x >>)]] \/ cs' = [op |-> "etagwrite", in |-> [g |-> Tag(w, << x >>)]]
     \/ \E g \in Tags : cs' = [op |-> "etagwrite", in |-> [g |-> g]]
     \/ \E h \in Hs, q \in Strings(TagPieces, NParts) : cs' = [op |-> "condread", in |-> [h |-> h, vals |-> << JoinWith(q, S(",")) >>]]
     \/ \E h \in Hs, q \in Strings(TagPieces, 2), z \in TagPieces : cs' = [op |-> "condread", in |-> [h |-> h, vals |-> Append(q, z)]]
     \/ \E q \in Strings(NamePieces, NParts + 1) : cs' = [op |-> "condread", in |-> [h |-> "vary", vals |-> << JoinWith(q, S(",")) >>]]
     \/ \E q \in Strings(NamePieces, 3) : cs' = [op |-> "condread", in |-> [h |-> "vary", vals |-> q]]
     \/ \E h \in Hs, q \in Strings(Tags, NWrite), w \in BOOLEAN : cs' = [op |-> "condwrite", in |-> [h |-> h, l |-> [es |-> q, wild |-> w]]]
     \/ \E q \in Strings(VNames, NWrite + 1), w \in BOOLEAN : cs' = [op |-> "condwrite", in |-> [h |-> "vary", l |-> [es |-> q, wild |-> w]]]
Emit == PrintT(ToJson([op |-> cs'.op, in |-> cs'.in, exp |-> Expected(cs')]))
TagRoundTrip == cs.op = "etagwrite" => ReadETag(<< WriteTag(cs.in.g) >>) = Ok(cs.in.g)
ListRoundTrip == cs.op = "condwrite" => ReadList(cs.in.h, << WriteList(cs.in.h, cs.in.l) >>) = Ok(Same(cs.in.h, cs.in.l))
\* the same elements over one value or several mean the same
SplitLaw == (cs.op = "condread" /\ Len(cs.in.vals) > 1 /\ \A i \in 1..Len(cs.in.vals) : Cardinality({j \in 1..Len(cs.in.vals[i]) : cs.in.vals[i][j] = DQ}) % 2 = 0) =>
              ReadList(cs.in.h, << JoinWith(cs.in.vals, S(",")) >>) = ReadList(cs.in.h, cs.in.vals)
=============================================================================
