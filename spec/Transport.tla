------------------------------ MODULE Transport ------------------------------
(* Strict-Transport-Security and Timing-Allow-Origin.                               *)
EXTENDS UrlText
--------------------------------------------------------------------------------
(* Strict-Transport-Security: [age: seconds, sub, pre]; the last value decides      *)
Names == {S("max-age"), S("includesubdomains"), S("preload")}
ReadDirective(t0) ==
  LET t == Trim(t0, IsOWS)  p == SplitOnce(t, EQ)  n == Lower(p[1])  nt == Trim(n, IsOWS)  v == p[2] IN
  CASE \E i \in 1..Len(t) : t[i] < 32 /\ t[i] # TAB -> [n |-> "open", v |-> <<>>]
    [] Contains0(t, DQ) -> [n |-> "open", v |-> <<>>]        \* quoted values
    [] nt \in Names /\ (n # nt \/ (Len(p) > 1 /\ v # Trim(v, IsOWS))) -> [n |-> "open", v |-> <<>>]
    [] n \in {S("includesubdomains"), S("preload")} -> IF Len(p) > 1 THEN [n |-> "open", v |-> <<>>] ELSE [n |-> Str(n), v |-> <<>>]
    [] n = S("max-age") -> CASE Len(p) = 1 \/ ~IsDigits(v) -> [n |-> "bad", v |-> <<>>]
                             [] NumLT(U64MAX, Canon(v)) -> [n |-> "open", v |-> <<>>]
                             [] OTHER -> [n |-> "max-age", v |-> Canon(v)]
    [] OTHER -> [n |-> "other", v |-> <<>>]
ReadHsts(vals) ==
  IF vals = <<>> THEN None
  ELSE LET ds == MapSeq(SplitOn(Last(vals), SEMI), ReadDirective)  N(k) == Cardinality({i \in 1..Len(ds) : ds[i].n = k}) IN
    CASE N("bad") > 0 /\ N("max-age") = 0 /\ N("open") = 0 -> Err(400)
      [] N("open") > 0 \/ N("bad") > 0 \/ N("max-age") > 1 \/ N("includesubdomains") > 1 \/ N("preload") > 1 -> DontCare
      [] N("max-age") = 0 -> Err(400)
      [] OTHER -> Ok([age |-> ds[CHOOSE i \in 1..Len(ds) : ds[i].n = "max-age"].v, sub |-> N("includesubdomains") = 1, pre |-> N("preload") = 1])
\* the directives written, in alphabetical order and lower case
HstsDirectives(h) == (IF h.sub THEN << S("includesubdomains") >> ELSE <<>>) \o << S("max-age=") \o h.age >> \o (IF h.pre THEN << S("preload") >> ELSE <<>>)
--------------------------------------------------------------------------------
(* Timing-Allow-Origin: [origins: URLs, any]                                        *)
Null == {S("null"), S("\"null\"")}
ReadOrigins(vals) ==
  IF vals = <<>> THEN None
  ELSE LET es == SelectSeq(Flatten(MapSeq(vals, LAMBDA t : MapSeq(SplitOn(t, COMMA), TrimWS))), LAMBDA t : t # <<>>)
           us == MapSeq(SelectSeq(es, LAMBDA t : t # S("*")), LAMBDA t : ReadUrl(t, <<>>)) IN
    CASE \E i \in 1..Len(es) : es[i] \in Null -> DontCare
      [] \E i \in 1..Len(us) : us[i].k = "bad" -> IF \E i \in 1..Len(us) : us[i].k = "open" THEN DontCare ELSE Err(400)
      [] \E i \in 1..Len(us) : us[i].k = "open" -> DontCare
      [] OTHER -> Ok([origins |-> MapSeq(us, LAMBDA r : WriteUrl(r.u)), any |-> \E i \in 1..Len(es) : es[i] = S("*")])
WriteOrigins(us, any) == JoinWith(us \o (IF any THEN << S("*") >> ELSE <<>>), S(", "))
Expected(rec) ==
  LET in == rec.in IN
  CASE rec.op = "hstsread" -> ReadHsts(in.vals)
    [] rec.op = "hstswrite" -> Ok([back |-> Ok([age |-> in.age, sub |-> in.sub, pre |-> in.pre]), ds |-> HstsDirectives(in)])
    [] rec.op = "hstsnew" -> Ok([new |-> Ok([age |-> in.age, sub |-> FALSE, pre |-> FALSE]), default |-> Ok([age |-> S("31536000"), sub |-> FALSE, pre |-> TRUE])])
    [] rec.op = "taoread" -> ReadOrigins(in.vals)
    [] rec.op = "taowrite" ->
         LET us == MapSeq(in.us, LAMBDA t : ReadUrl(t, <<>>)) IN
         IF \E i \in 1..Len(us) : us[i].k # "ok" \/ Contains0(WriteUrl(us[i].u), COMMA) THEN DontCare
         ELSE LET ws == MapSeq(us, LAMBDA r : WriteUrl(r.u)) IN Ok([v |-> WriteOrigins(ws, in.any), back |-> Ok([origins |-> ws, any |-> in.any])])
--------------------------------------------------------------------------------
CONSTANTS NPieces, NList
VARIABLE cs
Start == [op |-> "none", in |-> [vals |-> <<>>]]
Strings(A, n) == UNION {[1..k -> A] : k \in 0..n}
Ages == {S("0"), S("1"), S("30"), S("007"), S("31536000"), S("4294967296"), S("18446744073709551615")}
Directives == {S("max-age=") \o a : a \in {S("0"), S("31536000"), S("18446744073709551616"), S("-1"), S("+1"), S(""), S("x"), S("1x"), S("1.5"), S("\"5\""), S(" 5")}} \cup
  {S("MAX-AGE=7"), S("max-age"), S("Max-Age = 7"), S("includeSubDomains"), S("includesubdomains"), S("INCLUDESUBDOMAINS"), S("includeSubdomainsX"), S("preload"), S("Preload"), S("preload=1"), S("preloadx"), S("xpreload"), S("pre-load"), S("preloa"), S("sub"), S("includesubdomain"), S("max-ag=3"), S("xmax-age=3"), S("include-subdomains"), S("report=max-age=3"), S("x"), S("max-agex=5"), S(""), S("=")}
Seps == {S(";"), S("; "), S(" ;\t")}
Origins == {S("https://example.com"), S("http://a.b:8080/"), S("HTTPS://X.Y:443"), S("*"), S("null"), S("\"null\""), S(""), S("example.com"), S("http://"), S("http://a b"), S("**"), S("https://a/p?q#f"), S("http://u@h:1")}
Good == {S("https://example.com"), S("http://a.b:8080/"), S("https://a/p?q#f"), S("http://[::1]:81/"), S("http://10.0.0.1")}
Init == cs = Start
Next ==
  /\ cs = Start
  /\ \/ cs' = [op |-> "hstsread", in |-> [vals |-> <<>>]] \/ cs' = [op |-> "taoread", in |-> [vals |-> <<>>]]
     \/ \E q \in Strings(Directives, NPieces), sep \in Seps : cs' = [op |-> "hstsread", in |-> [vals |-> << JoinWith(q, sep) >>]]
     \/ \E a \in Directives, b \in Directives : cs' = [op |-> "hstsread", in |-> [vals |-> << a, b >>]]
     \/ \* a fraction of a second is not written
        \E age \in Ages \ {S("007")}, sub \in BOOLEAN, x \in {1, 499999999, 500000000, 999500000, 999999999} : cs' = [op |-> "hstswrite", in |-> [age |-> age, sub |-> sub, pre |-> ~sub, ns |-> x]]
     \/ \E age \in Ages \ {S("007")}, sub \in BOOLEAN, pre \in BOOLEAN : cs' = [op |-> "hstswrite", in |-> [age |-> age, sub |-> sub, pre |-> pre]]
     \/ \E age \in Ages \ {S("007")} : cs' = [op |-> "hstsnew", in |-> [age |-> age]]
     \/ \E x \in 0..127 : cs' = [op |-> "hstsread", in |-> [vals |-> << S("max-age=1") \o << x >> >>]] \/ cs' = [op |-> "hstsread", in |-> [vals |-> << << x >> \o S("; max-age=1") >>]] \/ cs' = [op |-> "taoread", in |-> [vals |-> << S("http://a") \o << x >> \o S("b") >>]]
     \/ \E q \in Strings(Origins, NList), sep \in {S(","), S(", "), S(" , ")} : cs' = [op |-> "taoread", in |-> [vals |-> << JoinWith(q, sep) >>]]
     \/ \E q \in Strings(Origins, NList) : cs' = [op |-> "taoread", in |-> [vals |-> q]]
     \/ \E q \in Strings(Good, NList), any \in BOOLEAN : cs' = [op |-> "taowrite", in |-> [us |-> q, any |-> any]]
Emit == PrintT(ToJson([op |-> cs'.op, in |-> cs'.in, exp |-> Expected(cs')]))
HstsRoundTrip == cs.op = "hstswrite" => ReadHsts(<< JoinWith(HstsDirectives(cs.in), S(";")) >>) = Ok([age |-> cs.in.age, sub |-> cs.in.sub, pre |-> cs.in.pre])
\* letter case makes no difference, nor does the order of the directives
HstsOrder == cs.op = "hstsread" /\ cs.in.vals # <<>> => /\ ReadHsts(<< Upper(Last(cs.in.vals)) >>) = ReadHsts(cs.in.vals)
                                    /\ ReadHsts(<< JoinWith(Reverse(SplitOn(Last(cs.in.vals), SEMI)), << SEMI >>) >>) = ReadHsts(cs.in.vals)
TaoSplit == cs.op = "taoread" /\ Len(cs.in.vals) > 1 => ReadOrigins(<< JoinWith(cs.in.vals, << COMMA >>) >>) = ReadOrigins(cs.in.vals)
TaoRoundTrip == cs.op = "taowrite" => LET e == Expected(cs) IN e.k = "ok" => ReadOrigins(<< e.v.v >>) = e.v.back
=============================================================================
