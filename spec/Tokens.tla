--------------------------------- MODULE Tokens ---------------------------------
(* Headers made of registered tokens: Allow, Clear-Site-Data, Content-Encoding,   *)
(* Transfer-Encoding and Expect.                                                  *)
EXTENDS Registry0, ListText
Clears == {"cache", "cookies", "storage", "executionContexts"}
Quote(n) == << DQ >> \o S(n) \o << DQ >>
ClearText == [n \in Clears |-> Quote(n)]
ClearWild == Quote("*")
Content == {"gzip", "deflate", "br", "zstd", "identity"}
Transfer == Content \cup {"chunked"}
CodingText == [n \in Transfer |-> S(n)]
Codings(h) == IF h = "content-encoding" THEN Content ELSE Transfer
Continue100 == S("100-continue")
MethodText == [m \in Methods |-> S(m)]
\* the non-empty elements of a list header over all its values
Parts(vals) == SelectSeq(MapSeq(Flatten(MapSeq(vals, Elements)), TrimWS), LAMBDA x : x # <<>>)
ReadAllow(vals) ==
  IF vals = <<>> THEN None
  ELSE LET ps == Parts(vals)  us == {Upper(ps[i]) : i \in 1..Len(ps)} IN
    IF \E u \in us : \A m \in Methods : MethodText[m] # u THEN Err(4)
    ELSE Ok([m \in Methods |-> MethodText[m] \in us])
ReadClear(vals) ==
  IF vals = <<>> THEN None
  ELSE LET ps == Parts(vals)  ts == SelectSeq(ps, LAMBDA x : x # ClearWild) IN
    IF \E i \in 1..Len(ts) : \A n \in Clears : ClearText[n] # ts[i] THEN Err(4)
    ELSE Ok([es |-> MapSeq(ts, LAMBDA x : CHOOSE n \in Clears : ClearText[n] = x), wild |-> \E i \in 1..Len(ps) : ps[i] = ClearWild])
WriteClear(l) == JoinWith(MapSeq(l.es, LAMBDA n : ClearText[n]) \o (IF l.wild THEN << ClearWild >> ELSE <<>>), S(", "))
\* a single coding: the last value counts; one that is not registered is an error, or is passed over for an earlier one
CodingOf(h, t) == {n \in Codings(h) : CodingText[n] = Lower(TrimWS(t))}
ReadCoding(h, vals) ==
  LET Known == {i \in 1..Len(vals) : CodingOf(h, vals[i]) # {}}  At(i) == CHOOSE n \in CodingOf(h, vals[i]) : TRUE IN
  CASE vals = <<>> -> None
    [] Known = {} -> Err(4)
    [] Len(vals) \in Known -> Ok(At(Len(vals)))
    [] OTHER -> Maybe(At(CHOOSE i \in Known : \A j \in Known : j <= i))
ReadExpect(vals) ==
  IF vals = <<>> THEN None
  ELSE LET v == Last(vals) IN
    CASE Lower(v) = Continue100 -> Ok("100-continue")
      [] Lower(TrimWS(v)) = Continue100 -> Maybe("100-continue")
      [] OTHER -> Err(4)
ReadTok(h, vals) == CASE h = "allow" -> ReadAllow(vals)
                      [] h = "clear-site-data" -> ReadClear(vals)
                      [] h = "expect" -> ReadExpect(vals)
                      [] OTHER -> ReadCoding(h, vals)
\* Allow is a set: the order it is written in is open, so only the elements are stated
WriteTok(h, v) == CASE h = "allow" -> [els |-> [m \in Methods |-> v[m]], n |-> Cardinality({m \in Methods : v[m]})]
                    [] h = "clear-site-data" -> WriteClear(v)
                    [] h = "expect" -> Continue100
                    [] OTHER -> CodingText[v]
Expected(rec) ==
  LET in == rec.in IN
  CASE rec.op = "tokread" -> ReadTok(in.h, in.vals)
    [] rec.op = "tokwrite" -> Ok([t |-> WriteTok(in.h, in.v), back |-> Ok(in.v)])
--------------------------------------------------------------------------------
CONSTANTS NParts, NWrite
VARIABLE cs
Start == [op |-> "none", in |-> [vals |-> <<>>]]
Strings(A, n) == UNION {[1..k -> A] : k \in 0..n}
Read(h, vals) == cs' = [op |-> "tokread", in |-> [h |-> h, vals |-> vals]]
Write(h, v) == cs' = [op |-> "tokwrite", in |-> [h |-> h, v |-> v]]
Hs == {"allow", "clear-site-data", "content-encoding", "transfer-encoding", "expect"}
Shared == {S(""), S(" \t"), S("x"), S("*"), S("\""), S("\"x"), S("gzip"), S(",")}
AllowPieces == Shared \cup {S("GET"), S(" post"), S("Version-Control "), S("GE T"), S("GETS"), S("M-SEARCH")}
ClearPieces == Shared \cup {ClearText[n] : n \in Clears} \cup {ClearWild, S("cache"), S("\"Cache\""), S("\"executioncontexts\""), S(" \"cookies\"\t"), S("\"cache,cookies\""), S("\"cache\"\"cookies\"")}
OneVals == Shared \cup {S("deflate"), S("GZIP"), S("Br"), S(" zstd "), S("identity"), S("chunked"), S("CHUNKED"), S("gzip, br"), S("gzi"), S("gzipp"), S("x-gzip"), S("gzip;q=1"),
           S("100-continue"), S("100-Continue"), S(" 100-continue"), S("100-continu"), S("100-continuee"), S("100"), S("100-continue,x")}
Subsets == {{}, Methods} \cup {{a, b} : a \in Methods, b \in Methods} \cup {Methods \ {a} : a \in Methods}
Clear(es, w) == [es |-> es, wild |-> w]
Init == cs = Start
Next ==
  /\ cs = Start
  /\ \/ \E h \in Hs : Read(h, <<>>)
     \/ \E h \in Hs, x \in 0..127 : Read(h, << << x >> >>)
     \/ \E q \in Strings(AllowPieces, NParts) : Read("allow", << JoinWith(q, S(",")) >>)
     \/ \E q \in Strings(AllowPieces, 2) : Read("allow", q)
     \/ \E m \in Methods, f \in 0..3 : LET t == MethodText[m] IN Read("allow", << CASE f = 0 -> t [] f = 1 -> Lower(t) [] f = 2 -> << t[1] >> \o Lower(Tail(t)) [] f = 3 -> Lower(Front(t)) \o << Last(t) >> >>)
     \/ \E m \in Methods : \E i \in 1..Len(MethodText[m]) : LET t == MethodText[m] IN Read("allow", << Take(t, i - 1) \o Drop(t, i) >>) \/ Read("allow", << Take(t, i - 1) \o S("X") \o Drop(t, i) >>)
     \/ \E M \in Subsets : Write("allow", [m \in Methods |-> m \in M])
     \/ \E q \in Strings(ClearPieces, NParts) : Read("clear-site-data", << JoinWith(q, S(",")) >>)
     \/ \E q \in Strings(ClearPieces, 2) : Read("clear-site-data", q)
     \/ \E q \in Strings(Clears, NWrite), w \in BOOLEAN : Write("clear-site-data", Clear(q, w))
     \/ \E n \in Clears : \E i \in 1..Len(ClearText[n]) : LET t == ClearText[n]  ch == t[i] IN Read("clear-site-data", << [t EXCEPT ![i] = IF IsLower(ch) THEN UpperC(ch) ELSE LowerC(ch)] >>) \/ Read("clear-site-data", << Take(t, i - 1) \o Drop(t, i) >>) \/ Read("clear-site-data", << Take(t, i) \o << ch >> \o Drop(t, i) >>)
     \/ \E n \in Clears : Read("clear-site-data", << Upper(ClearText[n]) >>) \/ Read("clear-site-data", << Lower(ClearText[n]) >>)
     \/ \E h \in {"content-encoding", "transfer-encoding", "expect"}, q \in Strings(OneVals, 2) : Read(h, q)
     \/ \E h \in {"content-encoding", "transfer-encoding"}, n \in Transfer : \E i \in 1..Len(CodingText[n]) : LET t == CodingText[n] IN Read(h, << Take(t, i) >>) \/ Read(h, << Take(t, i - 1) \o Upper(Drop(t, i - 1)) >>) \/ Read(h, << Take(t, i - 1) \o Drop(t, i) >>)
     \/ \E x \in 0..127 : Read("expect", << Continue100 \o << x >> >>) \/ Read("expect", << << x >> \o Continue100 >>) \/ \E i \in {3, 4} : Read("expect", << Take(Continue100, i) \o << x >> \o Drop(Continue100, 4) >>)
     \/ \E x \in 0..127, h \in {"content-encoding", "transfer-encoding"}, n \in {"gzip", "identity", "br"} : Read(h, << CodingText[n] \o << x >> >>) \/ Read(h, << << x >> \o CodingText[n] >>)
     \/ \E x \in 0..127, m \in {"GET", "PRI"} : Read("allow", << MethodText[m] \o << x >> >>) \/ Read("allow", << << x >> \o MethodText[m] >>)
     \/ \E x \in 0..127 : Read("clear-site-data", << ClearText["cache"] \o << x >> >>) \/ Read("clear-site-data", << << x >> \o ClearText["cache"] >>) \/ Read("clear-site-data", << ClearWild \o << x >> >>)
     \/ \E h \in {"content-encoding", "transfer-encoding"} : \E n \in Codings(h) : Write(h, n)
     \/ Write("expect", "100-continue")
Emit == PrintT(ToJson([op |-> cs'.op, in |-> cs'.in, exp |-> Expected(cs')]))
RoundTrip == (cs.op = "tokwrite" /\ cs.in.h # "allow") => ReadTok(cs.in.h, << WriteTok(cs.in.h, cs.in.v) >>) = Ok(cs.in.v)
AllowRoundTrip == (cs.op = "tokwrite" /\ cs.in.h = "allow") =>
   LET seq == SetToSeq({m \in Methods : cs.in.v[m]}) IN ReadAllow(<< JoinWith(MapSeq(seq, LAMBDA m : MethodText[m]), S(", ")) >>) = Ok(cs.in.v)
SplitLaw == (cs.op = "tokread" /\ cs.in.h \in {"allow", "clear-site-data"} /\ Len(cs.in.vals) > 1 /\ \A i \in 1..Len(cs.in.vals) : Cardinality({j \in 1..Len(cs.in.vals[i]) : cs.in.vals[i][j] = DQ}) % 2 = 0) =>
              ReadTok(cs.in.h, << JoinWith(cs.in.vals, S(",")) >>) = ReadTok(cs.in.h, cs.in.vals)
=============================================================================
