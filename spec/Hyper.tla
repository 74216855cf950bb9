------------------------------- MODULE Hyper --------------------------------
(* Conversions to and from the types of the `http` crate.  A header collection is     *)
(* compared as the list of its names in order, each with its values in order.         *)
EXTENDS Registry0
\* pairs in the order they were added -> the collection
Names(ps) == {Lower(ps[i][1]) : i \in 1..Len(ps)}
Grouped(ps) == MapSeq(SetToSortSeq(Names(ps), LexLT), LAMBDA x : [h |-> x, vs |-> MapSeq(SelectSeq(ps, LAMBDA p : Lower(p[1]) = x), LAMBDA p : p[2])])
AllOf(t, P(_)) == \A i \in 1..Len(t) : P(t[i])
\* what each side can hold
OurName(t) == AllAscii(t)
OurValue(t) == AllAscii(t)
\* (version 0.2 of the crate takes a double quote as a name character)
TheirName(t) == t # <<>> /\ AllOf(t, LAMBDA x : IsTChar(x) \/ x = 34)
TheirValue(t) == AllOf(t, LAMBDA x : x = TAB \/ (x >= 32 /\ x # 127))
OurMethod(t) == t \in {S(m) : m \in Methods}
OurStatus(n) == n \in StatusNums
OurUrl(t) == StartsWith(t, S("http://")) \/ StartsWith(t, S("https://"))
Holds(ps, N(_), V(_)) == \A i \in 1..Len(ps) : N(ps[i][1]) /\ V(ps[i][2])
DropFragment(t) == SplitOnce(t, C("#"))[1]
Msg(in, url, ver) == [method |-> IF in.kind = "req" THEN in.method ELSE <<>>, url |-> IF in.kind = "req" THEN url ELSE <<>>, status |-> IF in.kind = "res" THEN in.status ELSE 0,
                      ver |-> ver, hs |-> Grouped(in.hs), body |-> in.body]
Expected(rec) ==
  LET in == rec.in IN
  CASE rec.op = "hfrom" -> \* their message becomes ours
         IF in.kind = "req" /\ ~OurMethod(in.method) /\ OurMethod(Upper(in.method)) THEN Maybe(Msg([in EXCEPT !.method = Upper(@)], in.url, << in.ver >>)) \* case is significant to them
         ELSE IF (in.kind = "req" /\ (~OurMethod(in.method) \/ ~OurUrl(in.url))) \/ (in.kind = "res" /\ ~OurStatus(in.status)) \/ ~Holds(in.hs, OurName, OurValue) THEN Err(0)
         ELSE Ok(Msg(in, in.url, << in.ver >>))
    [] rec.op = "hto" -> \* ours becomes theirs; no version is their default
         Ok(Msg(in, DropFragment(in.url), IF in.ver = <<>> THEN << "HTTP/1.1" >> ELSE in.ver))
    [] rec.op = "hboth" -> \* there and back again
         Ok(Msg(in, DropFragment(in.url), IF in.ver = <<>> THEN << "HTTP/1.1" >> ELSE in.ver))
    [] rec.op = "hfrommap" -> IF Holds(in.hs, OurName, OurValue) THEN Ok(Grouped(in.hs)) ELSE Err(0)
    [] rec.op = "htomap" -> IF Holds(in.hs, TheirName, TheirValue) THEN Ok(Grouped(in.hs)) ELSE Err(0)
    [] rec.op = "hname" -> Ok([to |-> IF TheirName(in.t) THEN Ok(Lower(in.t)) ELSE Err(0), back |-> IF TheirName(in.t) THEN Ok(Lower(in.t)) ELSE Err(0)])
    [] rec.op = "hvalue" -> \* from our text to theirs, and from their bytes to ours
         Ok([to |-> IF ~AllAscii(in.t) THEN None ELSE IF TheirValue(in.t) THEN Ok(in.t) ELSE Err(0), from |-> IF ~TheirValue(in.t) THEN None ELSE IF OurValue(in.t) THEN Ok(in.t) ELSE Err(0)])
    [] rec.op = "hmethod" -> Ok([to |-> in.m, back |-> in.m])
    [] rec.op = "hstatus" -> Ok([to |-> in.n, back |-> in.n])
    [] rec.op = "hversion" -> Ok([to |-> in.v, back |-> in.v])
--------------------------------------------------------------------------------
CONSTANTS NPairs, NChars
VARIABLE cs
Start == [op |-> "none", in |-> [m |-> "GET"]]
Strings(A, n) == UNION {[1..k -> A] : k \in 0..n}
BodySet == {"empty", "text", "bin", "stream", "nomime", "html", "json", "form"}
NameSet == {S("content-type"), S("x-a"), S("set-cookie")}
TxtSet == {S(""), S("text/plain"), S("b, c")}
PairSet == NameSet \X TxtSet
OddPairs == {<< S("x-b"), << 233 >> >>, << S("x-b"), << 255, 254 >> >>, << S("x-b"), << 195, 169 >> >>, << S("x-b"), << 9, 97 >> >>, << S("x-c"), S("ok") >>}
OddNames == {S("x y"), S(""), S("a:b"), S("x-a"), << 0 >>, << 127 >>, S("X-A"), S("a\nb"), S("{")}
OddVals == {S("a\nb"), << 0 >>, << 127 >>, S("ok"), S("\t"), S("")}
Urls == {S("http://a.example/"), S("https://u:p@h.example:8443/a/b;c?x=1&y=%20"), S("http://[::1]:81/?"), S("http://h.example/%E2%82%AC?q=[]#frag"), S("http://1.2.3.4/a//b/?a?b"), S("http://h/|~@!$&'()*+,;=:?^`{}|")}
TheirUrls == {S("/path"), S("/"), S("*"), S("/a?b=c"), S("http://h/p?q"), S("http://h:81/"), S("https://h/")}
XMethods == {S("FOO"), S("get"), S("X-Y"), S("Get"), S("GET1")}
Req(m, u, v, hs, b) == [kind |-> "req", method |-> m, url |-> u, status |-> 0, ver |-> v, hs |-> hs, body |-> b]
Res(n, v, hs, b) == [kind |-> "res", method |-> <<>>, url |-> <<>>, status |-> n, ver |-> v, hs |-> hs, body |-> b]
Do(op, in) == cs' = [op |-> op, in |-> in]
Out == {"hto", "hboth"}
Vs == {<<>>} \cup {<< v >> : v \in VersionSet}
HexUp(n) == IF n < 10 THEN 48 + n ELSE 55 + n
PctOctet(b) == << 37, HexUp(b \div 16), HexUp(b % 16) >>
Init == cs = Start
Next ==
  /\ cs = Start
  /\ \/ \E m \in Methods : Do("hmethod", [m |-> m])
     \/ \E n \in StatusNums : Do("hstatus", [n |-> n])
     \/ \E v \in VersionSet : Do("hversion", [v |-> v])
     \/ \E m \in {S(x) : x \in Methods} \cup XMethods, u \in TheirUrls : Do("hfrom", Req(m, u, "HTTP/1.1", <<>>, "text"))
     \/ \E n \in 100..999 : Do("hfrom", Res(n, "HTTP/2", <<>>, "bin"))
     \/ \E m \in Methods, u \in Urls, v \in Vs, op \in Out : Do(op, Req(S(m), u, v, << << S("x-a"), S("v") >> >>, "json"))
     \/ \E n \in StatusNums, v \in Vs, op \in Out : Do(op, Res(n, v, <<>>, "text"))
     \/ \E ps \in Strings(PairSet, NPairs), b \in BodySet, k \in {"req", "res"} :
          LET M(v) == IF k = "req" THEN Req(S("POST"), S("http://a.example/"), v, ps, b) ELSE Res(206, v, ps, b) IN
          Do("hfrom", M("HTTP/3")) \/ Do("hto", M(<< "HTTP/0.9" >>)) \/ Do("hboth", M(<< "HTTP/2" >>))
     \/ \E ps \in Strings(PairSet, NPairs + 1) : Do("hfrommap", [hs |-> ps]) \/ Do("htomap", [hs |-> ps])
     \/ \E ps \in Strings(OddPairs, 3) : Do("hfrommap", [hs |-> ps]) \/ Do("hfrom", Req(S("GET"), S("http://a.example/"), "HTTP/1.0", ps, "html")) \/ Do("hfrom", Res(404, "HTTP/0.9", ps, "form"))
     \/ \E ps \in Strings(OddNames \X OddVals, 2) : Do("htomap", [hs |-> ps])
     \/ \E t \in Strings(0..127, 1) \cup Strings({C("a"), C("Z"), C("-"), C(" "), C(":"), 0, 127, C("_"), C("{"), C("~")}, NChars) : Do("hname", [t |-> t])
     \/ \E t \in Strings(0..255, 1) \cup Strings({C("a"), C(" "), 9, 10, 13, 0, 127, 128, 255, 31}, NChars) : Do("hvalue", [t |-> t])
     \/ \* every octet escaped, in capitals and not, in each part of a URL; every character that may stand for itself
        \E b \in 0..255, lo \in BOOLEAN : LET e == IF lo THEN MapSeq(PctOctet(b), LowerC) ELSE PctOctet(b) IN
          \E u \in {S("http://h/a") \o e \o S("b"), S("http://h/?") \o e \o S("=") \o e, S("http://u") \o e \o S("@h/") } : Do("hfrom", Req(S("GET"), u, "HTTP/1.1", <<>>, "empty")) \/ Do("hboth", Req(S("GET"), u, <<>>, <<>>, "empty"))
     \/ \E x \in {C("!"), C("$"), C("&"), C("("), C(")"), C("*"), C("+"), C(","), C("-"), C("."), C("/"), C(":"), C(";"), C("="), C("@"), C("_"), C("~")}, y \in {C("a"), C("/"), C("+"), C(";"), C("Z")} :
          \E u \in {S("http://h/a") \o << x, y, x >> \o S("b"), S("https://h:1/?") \o << x, y, x >>, S("http://h/?") \o << y, x >> \o S("&&") \o << x >>} : Do("hfrom", Req(S("GET"), u, "HTTP/1.1", <<>>, "empty")) \/ Do("hboth", Req(S("GET"), u, <<>>, <<>>, "empty"))
Emit == PrintT(ToJson([op |-> cs'.op, in |-> cs'.in, exp |-> Expected(cs')]))
\* no value is lost and none invented
Conserved == "hs" \in DOMAIN cs.in => FoldFunction(LAMBDA e, n : n + Len(e.vs), 0, Grouped(cs.in.hs)) = Len(cs.in.hs)
\* what theirs converted from ours holds, ours can hold again
Returns == (cs.op = "hboth" /\ OurUrl(cs.in.url)) => Expected([op |-> "hfrom", in |-> [cs.in EXCEPT !.url = DropFragment(@), !.ver = IF @ = <<>> THEN "HTTP/1.1" ELSE @[1]]]) = Expected(cs)
=============================================================================
