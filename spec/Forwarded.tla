------------------------------- MODULE Forwarded -------------------------------
(* RFC 7239 forwarding information, its historical X- headers, and what a       *)
(* request reports as its remote address and host.                              *)
EXTENDS Text, Ip
Nothing == [fors |-> <<>>, by |-> <<>>, host |-> <<>>, proto |-> <<>>]
IsQuotable(x) == x = TAB \/ x \in 32..126
IsQText(x) == IsQuotable(x) /\ x # DQ /\ x # BSLASH
\* text of a quoted string whose opening quote has been passed: << value, rest >>, or <<>> if it does not end
RECURSIVE InQuotes(_, _)
InQuotes(tx, acc) ==
  IF tx = <<>> THEN <<>>
  ELSE IF tx[1] = DQ THEN << acc, Tail(tx) >>
  ELSE IF tx[1] = BSLASH THEN (IF Len(tx) >= 2 /\ IsQuotable(tx[2]) THEN InQuotes(Drop(tx, 2), Append(acc, tx[2])) ELSE <<>>)
  ELSE IF IsQText(tx[1]) THEN InQuotes(Tail(tx), Append(acc, tx[1])) ELSE <<>>
TokenEnd(tx) == FindFrom(tx, 1, LAMBDA x : ~IsTChar(x)) - 1
ValueAt(tx) == LET k == TokenEnd(tx) IN
  IF k > 0 THEN << Take(tx, k), Drop(tx, k) >>
  ELSE IF tx # <<>> /\ tx[1] = DQ THEN InQuotes(Tail(tx), <<>>) ELSE <<>>
\* a: what has been read; odd: something only a lenient reader accepts; bad; dup: the same parameter in two elements
\* seen: parameters of this element; n: number of the element; at: "start", "semi", "comma"
RECURSIVE Pairs(_, _)
Pairs(tx0, a) ==
  LET tx == TrimL(tx0, IsOWS)
      b == IF tx # tx0 /\ a.at # "comma" THEN [a EXCEPT !.odd = TRUE] ELSE a
  IN IF tx = <<>> THEN (IF b.at = "start" THEN b ELSE [b EXCEPT !.odd = TRUE])
     ELSE IF tx[1] = SEMI THEN Pairs(Tail(tx), [b EXCEPT !.odd = TRUE, !.at = "semi"])
     ELSE IF tx[1] = COMMA THEN Pairs(Tail(tx), [b EXCEPT !.odd = TRUE, !.at = "comma", !.seen = {}, !.n = @ + 1])
     ELSE LET k == TokenEnd(tx)  name == Lower(Take(tx, k)) IN
       IF k = 0 \/ Len(tx) = k \/ tx[k + 1] # EQ THEN [b EXCEPT !.bad = TRUE]
       ELSE LET v == ValueAt(Drop(tx, k + 1)) IN
         IF v = <<>> THEN [b EXCEPT !.bad = TRUE]
         ELSE LET again == name \in b.seen
                  Keep(old) == IF old = <<>> THEN << v[1] >> ELSE old
                  r0 == CASE name = S("for") -> [b EXCEPT !.v.fors = Append(@, v[1]), !.odd = @ \/ again]
                          [] name = S("by") -> [b EXCEPT !.v.by = Keep(@), !.bad = @ \/ again, !.dup = @ \/ b.v.by # <<>>]
                          [] name = S("host") -> [b EXCEPT !.v.host = Keep(@), !.bad = @ \/ again, !.dup = @ \/ b.v.host # <<>>]
                          [] name = S("proto") -> [b EXCEPT !.v.proto = Keep(@), !.bad = @ \/ again, !.dup = @ \/ b.v.proto # <<>>]
                          [] OTHER -> [b EXCEPT !.odd = @ \/ again]
                  r1 == [r0 EXCEPT !.seen = @ \cup {name}, !.odd = @ \/ (b.n > 1 /\ b.seen = {} /\ name # S("for"))]
                  rest == TrimL(v[2], IsOWS)
                  r2 == IF rest # v[2] THEN [r1 EXCEPT !.odd = TRUE] ELSE r1
              IN IF rest = <<>> THEN r2
                 ELSE IF rest[1] = SEMI THEN Pairs(Tail(rest), [r2 EXCEPT !.at = "semi"])
                 ELSE IF rest[1] = COMMA THEN Pairs(Tail(rest), [r2 EXCEPT !.at = "comma", !.seen = {}, !.n = @ + 1])
                 ELSE [r2 EXCEPT !.bad = TRUE]
Fwd(tx) == Pairs(tx, [v |-> Nothing, odd |-> FALSE, bad |-> FALSE, dup |-> FALSE, seen |-> {}, n |-> 1, at |-> "start"])
ParseFwd(tx) == LET z == Fwd(tx) IN
  IF ~AllAscii(tx) THEN DontCare ELSE IF z.bad THEN Err(0) ELSE IF z.dup THEN DontCare ELSE IF z.odd THEN Maybe(z.v) ELSE Ok(z.v)
WellFormed(tx) == AllAscii(tx) /\ LET z == Fwd(tx) IN ~z.bad /\ ~z.dup /\ ~z.odd
Quote(tx) == IF tx # <<>> /\ All(tx, IsTChar) THEN tx
             ELSE << DQ >> \o Flatten(MapSeq(tx, LAMBDA x : IF x \in {DQ, BSLASH} THEN << BSLASH, x >> ELSE << x >>)) \o << DQ >>
FormatFwd(v) ==
  LET One(n, w) == IF w = <<>> THEN <<>> ELSE << n \o << EQ >> \o Quote(w[1]) >>
      Fs == IF v.fors = <<>> THEN <<>> ELSE << JoinWith(MapSeq(v.fors, LAMBDA x : S("for=") \o Quote(x)), S(", ")) >>
  IN JoinWith(One(S("by"), v.by) \o Fs \o One(S("host"), v.host) \o One(S("proto"), v.proto), S(";"))
Sendable(tx) == All(tx, IsQuotable)
SendableAll(v) == /\ \A i \in 1..Len(v.fors) : Sendable(v.fors[i])
                  /\ \A w \in {v.by, v.host, v.proto} : w # <<>> => Sendable(w[1])
--------------------------------------------------------------------------------
(* X-Forwarded-For names an IPv6 address without brackets. Its canonical text    *)
(* is taken from a table; other texts with two colons are left open.             *)
XFor(tx) == LET a == Read6(tx) IN IF a = <<>> THEN tx ELSE S("[") \o Show6(a[1]) \o S("]")
First(vals) == IF vals = <<>> THEN <<>> ELSE << vals[1] >>
Items(tx) == MapSeq(SplitOn(tx, COMMA), TrimWS)
XHeaders(in) ==
  IF \E vs \in {in.xf, in.xb, in.xh, in.xp} : Len(vs) > 1 THEN DontCare
  ELSE IF in.xf \o in.xb \o in.xh \o in.xp = <<>> THEN None
  ELSE LET fs == IF in.xf = <<>> THEN <<>> ELSE Items(in.xf[1]) IN
       IF \E i \in 1..Len(fs) : fs[i] = <<>> THEN DontCare
       ELSE Ok([fors |-> MapSeq(fs, XFor), by |-> First(in.xb), host |-> First(in.xh), proto |-> First(in.xp)])
FromHeaders(in) == IF Len(in.fwd) > 1 THEN DontCare ELSE IF in.fwd # <<>> THEN ParseFwd(in.fwd[1]) ELSE XHeaders(in)
\* the part of a Forwarded header a request reports: << >> none, << v >>, or DontCare when it is not well formed
\* (escaped characters in a quoted value cannot be reported by reference)
Part(vals, which) ==
  IF vals = <<>> THEN << >>
  ELSE IF ~WellFormed(vals[1]) \/ Contains0(vals[1], BSLASH) THEN << DontCare >>
  ELSE LET v == Fwd(vals[1]).v IN
       IF which = "for" THEN (IF v.fors = <<>> THEN <<>> ELSE << Ok(v.fors[1]) >>) ELSE IF v.host = <<>> THEN <<>> ELSE << Ok(v.host[1]) >>
FirstItem(vals) == IF vals = <<>> THEN <<>> ELSE LET x == Items(vals[1])[1] IN << IF x = <<>> THEN DontCare ELSE Ok(x) >>
Or(alts) == LET z == Flatten(alts) IN IF z = <<>> THEN None ELSE z[1]
Remote(in) == Or(<< Part(in.fwd, "for"), FirstItem(in.xf), IF in.peer = <<>> THEN <<>> ELSE << Ok(in.peer[1]) >> >>)
Host(in) == Or(<< Part(in.fwd, "host"), FirstItem(in.xh), IF in.hosts = <<>> THEN <<>> ELSE << Ok(in.hosts[1]) >>, IF in.url = <<>> THEN <<>> ELSE << Ok(in.url[1]) >> >>)
Expected(rec) ==
  LET in == rec.in IN
  CASE rec.op = "fwdparse" -> ParseFwd(in.t)
    [] rec.op = "fwdbuild" -> IF SendableAll(in.v) THEN Ok([t |-> FormatFwd(in.v), same |-> TRUE]) ELSE DontCare
    [] rec.op = "fwdheaders" -> FromHeaders(in)
    [] rec.op = "remote" -> Remote(in)
    [] rec.op = "host" -> Host(in)
--------------------------------------------------------------------------------
CONSTANTS Chars, NChars, Pieces, NPieces
VARIABLE cs
Start == [op |-> "none", in |-> [t |-> <<>>]]
Strings(A, n) == UNION {[1..k -> A] : k \in 0..n}
Parse(t) == cs' = [op |-> "fwdparse", in |-> [t |-> t]]
Build(f, b, h, p) == cs' = [op |-> "fwdbuild", in |-> [v |-> [fors |-> f, by |-> b, host |-> h, proto |-> p]]]
Opt(A) == {<<>>} \cup {<< x >> : x \in A}
FwdVals == {S("for=192.0.2.60;proto=http;by=203.0.113.43"), S("for=a, for=b;host=h"), S("FOR=\"[2001:db8::1]:80\";Host=\"x.y:81\""), S("by=b;host=\"h\""), S("proto=https"),
            S("host=\"a,b;for=c\";for=\"d=e\""), S("for=\"x\",for=y;host=k"), S("xfor=1;xhost=2"), S("for"), S(""), S("for=\"a\\\"b\""), S("for=a, for=b;host=h, for=c;by=z"), S("for=\"\"")}
XVals == {S("1.2.3.4"), S("2001:db8:cafe::17"), S("::1, 9.9.9.9"), S(" a , b"), S("unknown,_hid,x y"), S("h:1")}
Values == {S(""), S("a"), S("a b"), S("[::1]:8"), S("\""), S("\\"), S("a;b=c"), S(", for=d"), S("\\\"x"), S("!"), << 9 >>, << 10 >>}
Init == cs = Start
Names4 == {S("for"), S("by"), S("host"), S("proto")}
Near(n) == UNION {{Take(n, i - 1) \o << x >> \o Drop(n, i), Take(n, i - 1) \o << x >> \o Drop(n, i - 1)} : i \in 1..Len(n), x \in {33, 35, 45, 46, 48, 95, 111, 115, 122, 383, 8490}}
   \cup {Take(n, i - 1) \o Drop(n, i) : i \in 1..Len(n)} \cup {[n EXCEPT ![i] = n[i + 1], ![i + 1] = n[i]] : i \in 1..(Len(n) - 1)}
   \cup {[n EXCEPT ![i] = UpperC(@)] : i \in 1..Len(n)} \cup {n \o n, n \o S("s"), S("x-") \o n, n \o S("="), n \o S(" ="), S(" ") \o n}
NextP ==
  /\ cs = Start
  /\ \/ \E t \in Strings(Chars, NChars), p \in {S(""), S("for="), S("by="), S("for=a")} : Parse(p \o t)
     \/ \E q \in Strings(Pieces, NPieces) : Parse(Flatten(q))
     \/ \E x \in 0..300, w \in {<<S("for=a"), S("b")>>, <<S("for=\"a"), S("b\"")>>, <<S("host=\""), S("\"")>>, <<S("by=\"\\"), S("\"")>>, <<S("fo"), S("r=a")>>, <<S("for=\"a\""), S("by=c")>>, <<S(""), S("")>>} : Parse(w[1] \o << x >> \o w[2])
     \/ \* names close to the four: one character altered, added, removed, two swapped
        \E n \in Names4, u \in {<<S(""), S("=v")>>, <<S("for=a;"), S("=v;proto=p")>>, <<S("by=b, for=a;"), S("=\"v\"")>>} : \E m \in Near(n) : Parse(u[1] \o m \o u[2])
NextB ==
  /\ cs = Start
  /\ \/ \E f \in Strings(Values, 2), b \in {<<>>, <<S("p")>>}, h \in {<<>>, <<S("h:1")>>}, p \in {<<>>, <<S("x")>>} : Build(f, b, h, p)
     \/ \E f \in {<<>>, <<S("f")>>}, b \in Opt(Values), h \in Opt(Values), p \in Opt({S("https"), S("a b"), S("")}) : Build(f, b, h, p)
     \/ \E x \in 1..127 : Build(<< <<x>> >>, << <<x, 97>> >>, << <<97, x>> >>, <<>>)
NextH ==
  /\ cs = Start
  /\ \/ \E fw \in Opt(FwdVals), xf \in Opt(XVals), xb \in Opt({S("b c")}), xh \in Opt({S("x.org"), S("h, i")}), xp \in Opt({S("https")}) :
          cs' = [op |-> "fwdheaders", in |-> [fwd |-> fw, xf |-> xf, xb |-> xb, xh |-> xh, xp |-> xp]]
\* spellings of addresses: every pattern of zero groups, "::" in every place and between every number of groups, quads, near misses
V6Group == {S("0"), S("0000"), S("A"), S("fFff"), S("0db8"), S("10000"), S("g"), S(""), S("1.2.3.4"), S("1.2.3.256"), S("01.2.3.4"), S("1.2.3")}
Fill(n, g) == [i \in 1..n |-> g]
V6Texts == {Colon([i \in 1..8 |-> IF z[i] = 0 THEN 0 ELSE 4095]) : z \in [1..8 -> {0, 1}]}
   \cup {JoinWith(Fill(a, S("1")), << COLON >>) \o << COLON, COLON >> \o JoinWith(Fill(b, g) \o l, << COLON >>) : a \in 0..8, b \in 0..7, g \in {S("0"), S("2")}, l \in {<<>>} \cup {<<x>> : x \in V6Group}}
   \cup {JoinWith(Fill(a, S("0")) \o <<x>> \o Fill(b, S("0")), << COLON >>) : a \in 0..7, b \in 0..7, x \in V6Group \cup {S("ffff")}}
   \cup {S("::ffff:") \o x : x \in V6Group \cup {S("a:b"), S("0:0"), S("1.2.3.4:5"), S("c0a8:1")}} \cup {S(":::"), S("1::2::3"), S(":1::"), S("1:"), S(":"), S("[::1]"), S("::1%1"), S("::1/8"), S(" ::1"), S("::1 "), S("::1.2.3.4.5"), S("::1.2.3")}
NextI == /\ cs = Start
         /\ \E x \in V6Texts : cs' = [op |-> "fwdheaders", in |-> [fwd |-> <<>>, xf |-> << x >>, xb |-> <<>>, xh |-> <<>>, xp |-> <<>>]]
V6Law == cs.op = "fwdheaders" /\ cs.in.xf # <<>> => LET a == Read6(cs.in.xf[1]) IN a # <<>> => Read6(Show6(a[1])) = a /\ Len(Show6(a[1])) <= 39
NextR ==
  /\ cs = Start
  /\ \/ \E fw \in Opt(FwdVals) \cup {<<x, y>> : x, y \in FwdVals}, xf \in Opt(XVals) \cup {<<S("p, q"), S("r")>>}, peer \in Opt({S("127.0.0.1:8000")}) : cs' = [op |-> "remote", in |-> [fwd |-> fw, xf |-> xf, peer |-> peer]]
     \/ \E fw \in Opt(FwdVals) \cup {<<x, y>> : x, y \in FwdVals}, xh \in Opt({S("x.org"), S("h.org, i"), S(" j:9 ,k")}) \cup {<<S("p, q"), S("r")>>}, hs \in {<<>>, <<S("")>>, <<S("host.h:80")>>, <<S("one"), S("two")>>, <<S("u@h:1")>>, <<S("a,b")>>}, u \in {<<>>, <<S("url.org")>>, <<S("[::1]")>>} :
          cs' = [op |-> "host", in |-> [fwd |-> fw, xh |-> xh, hosts |-> hs, url |-> u]]
Emit == PrintT(ToJson([op |-> cs'.op, in |-> cs'.in, exp |-> Expected(cs')]))
\* whatever can be sent is read back as it was
FormatParses == cs.op = "fwdbuild" /\ SendableAll(cs.in.v) => ParseFwd(FormatFwd(cs.in.v)) = Ok(cs.in.v)
\* and what is read back is what was read
ParseFormats == cs.op = "fwdparse" /\ ParseFwd(cs.in.t).k = "ok" => LET v == Fwd(cs.in.t).v IN ParseFwd(FormatFwd(v)) = Ok(v)
CharsQ == {34, 92, 44, 59, 61, 97, 32}
CharsT == CharsQ \cup {102, 233}
PiecesQ == {S("for=a"), S("For=\"b,c\""), S("by=p"), S("BY=q"), S("Host=h"), S("proto=\"x;y\""), S("ext=1"), S(","), S(", "), S(";"), S("for"), S(" ")}
PiecesT == PiecesQ \cup {S("=x"), S("\"")}
=============================================================================
