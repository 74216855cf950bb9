--------------------------------- MODULE Cache ---------------------------------
(* Cache-Control: RFC 7234 directives, `immutable` (RFC 8246) and the stale-*     *)
(* extensions (RFC 5861).                                                         *)
EXTENDS Text, ListText
Flags == {"immutable", "no-cache", "no-store", "no-transform", "only-if-cached", "must-revalidate", "public", "private", "proxy-revalidate"}
Needs == {"max-age", "min-fresh", "s-maxage", "stale-if-error", "stale-while-revalidate"}
Optional == {"max-stale"}
Names == Flags \cup Needs \cup Optional
NameText == [n \in Names |-> S(n)]
D(n, a) == [n |-> n, a |-> a]
\* one element: skip, any (what it means is left open), err, or a directive
ReadOne(t0) ==
  LET t == TrimWS(t0)  p == SplitOnce(t, EQ)  l == Lower(p[1])
      Hit == {n \in Names : NameText[n] = l}  n == CHOOSE n \in Hit : TRUE
      arg == p[2]
  IN IF t = <<>> THEN [k |-> "skip"]
     ELSE IF TrimWS(p[1]) # p[1] THEN [k |-> "any"]
     ELSE IF Hit = {} THEN [k |-> "skip"]
     ELSE CASE n \in Flags -> IF Len(p) = 1 THEN [k |-> "d", d |-> D(n, <<>>)]
                              ELSE IF n \in {"no-cache", "private"} /\ arg # <<>> /\ (All(arg, IsTChar) \/ (Len(arg) >= 2 /\ arg[1] = DQ /\ Last(arg) = DQ)) THEN [k |-> "d", d |-> D(n, <<>>)]
                              ELSE [k |-> "any"]
            [] n \in Optional /\ Len(p) = 1 -> [k |-> "d", d |-> D(n, <<>>)]
            [] Len(p) = 1 -> [k |-> "err"]
            [] IsDigits(arg) /\ NumLE(Canon(arg), U64MAX) -> [k |-> "d", d |-> D(n, << Canon(arg) >>)]
            [] IsDigits(arg) \/ IsDigits(Trim(arg, LAMBDA x : x \in {SP, TAB, DQ})) -> [k |-> "any"]
            [] OTHER -> [k |-> "err"]
Balanced(t) == Cardinality({i \in 1..Len(t) : t[i] = DQ}) % 2 = 0 /\ ~Contains0(t, BSLASH)
ReadCC(vals) ==
  IF vals = <<>> THEN None
  ELSE IF \E i \in 1..Len(vals) : ~Balanced(vals[i]) THEN DontCare
  ELSE LET rs == MapSeq(Flatten(MapSeq(vals, Elements)), ReadOne) IN
    IF \E i \in 1..Len(rs) : rs[i].k = "any" THEN DontCare
    ELSE IF \E i \in 1..Len(rs) : rs[i].k = "err" THEN Err(400)
    ELSE Ok(MapSeq(SelectSeq(rs, LAMBDA x : x.k = "d"), LAMBDA x : x.d))
WriteOne(d) == IF d.a = <<>> THEN NameText[d.n] ELSE NameText[d.n] \o << EQ >> \o d.a[1]
WriteCC(ds) == JoinWith(MapSeq(ds, WriteOne), S(", "))
InRequests == {"max-age", "max-stale", "min-fresh", "no-cache", "no-store", "no-transform", "only-if-cached"}
InResponses == {"must-revalidate", "no-cache", "no-store", "no-transform", "public", "private", "proxy-revalidate", "max-age", "s-maxage", "immutable", "stale-if-error", "stale-while-revalidate"}
Expected(rec) ==
  LET in == rec.in IN
  CASE rec.op = "ccread" -> ReadCC(in.vals)
    [] rec.op = "ccwrite" -> LET w == WriteCC(in.ds) IN Ok([t |-> w, back |-> Ok(in.ds)])
    [] rec.op = "ccvalid" -> IF in.n = "stale-if-error" THEN DontCare ELSE Ok([req |-> in.n \in InRequests, res |-> in.n \in InResponses])
--------------------------------------------------------------------------------
CONSTANTS NPieces, NWrite
VARIABLE cs
Start == [op |-> "none", in |-> [vals |-> <<>>]]
Strings(A, n) == UNION {[1..k -> A] : k \in 0..n}
Read(vals) == cs' = [op |-> "ccread", in |-> [vals |-> vals]]
Pieces == {S("max-age=0"), S("MAX-AGE=18446744073709551615"), S("max-stale"), S("Max-Stale=5"), S("no-cache=\"a,no-store\""), S("s-maxage=010"), S("s-max-age=1"), S("foo=\"bar, public\""), S("private"), S(""), S(" "),
           S("max-age"), S("max-age="), S("stale-if-error=x"), S("IMMUTABLE"), S("unknown"), S("=1"), S("\t no-transform ")}
Args == {<<>>, S("="), S("=0"), S("=007"), S("=+1"), S("=-1"), S("=1=2"), S("=1 2"), S("=1.5"), S("=18446744073709551615"), S("=99999999999999999999"), S("=\"1\""), S("= 1"), S("=a"), S("=1s"), S(" =1"), S("=\"a, b\"")}
Dirs == {D(n, <<>>) : n \in Flags \cup Optional} \cup {D(n, << a >>) : n \in Needs \cup Optional, a \in {S("0"), S("3600"), S("18446744073709551615")}}
Init == cs = Start
Next ==
  /\ cs = Start
  /\ \/ \E q \in Strings(Pieces, NPieces) : Read(<< JoinWith(q, S(",")) >>)
     \/ \E q \in Strings(Pieces, 2) : Read(q)
     \/ \E n \in Names, a \in Args, f \in 0..2 : LET t == CASE f = 0 -> NameText[n] [] f = 1 -> Upper(NameText[n]) [] f = 2 -> << UpperC(NameText[n][1]) >> \o Tail(NameText[n]) IN Read(<< t \o a >>) \/ Read(<< S("no-store, ") \o t \o a \o S(" ,public") >>)
     \/ \E n \in Names : \E i \in 1..Len(NameText[n]) : Read(<< Take(NameText[n], i) \o S("=3") >>) \/ Read(<< SubSeq(NameText[n], 1, i - 1) \o << 120 >> \o Drop(NameText[n], i) \o S("=3") >>) \/ Read(<< SubSeq(NameText[n], 1, i - 1) \o Drop(NameText[n], i) >>)
     \/ \E ds \in Strings(Dirs, NWrite) : cs' = [op |-> "ccwrite", in |-> [ds |-> ds]]
     \/ \* a lifetime is written in whole seconds, never rounded up
        \E n \in Needs \cup Optional, a \in {S("0"), S("3600"), S("18446744073709551615")}, ns \in {S("1"), S("499999999"), S("500000000"), S("999999999")} : cs' = [op |-> "ccwrite", in |-> [ds |-> << D(n, << a >>) >>, ns |-> ns]]
     \/ \E n \in Names : cs' = [op |-> "ccvalid", in |-> [n |-> n]]
Emit == PrintT(ToJson([op |-> cs'.op, in |-> cs'.in, exp |-> Expected(cs')]))
RoundTrip == cs.op = "ccwrite" => ReadCC(<< WriteCC(cs.in.ds) >>) = Ok(cs.in.ds)
SomewhereValid == \A n \in Names : n \in InRequests \cup InResponses
=============================================================================
