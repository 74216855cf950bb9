------------------------------- MODULE Total --------------------------------
(* Reading typed headers from any text: absence, a value or a client error; a value    *)
(* obtained can be written, and what was written reads as something written the same.  *)
EXTENDS Text
Headers == {"server-timing", "traceparent", "allow", "www-authenticate", "basic-auth", "authorization", "age", "cache-control", "expires", "clear-site-data", "forwarded", "x-forwarded",
  "content-location", "referer", "sourcemap", "content-encoding", "content-length", "content-type", "accept-encoding", "accept", "retry-after", "date", "expect", "if-unmodified-since",
  "if-modified-since", "last-modified", "if-match", "if-none-match", "etag", "vary", "transfer-encoding", "te", "strict-transport-security", "timing-allow-origin", "message-type"}
\* the error status of these two is fixed by the existing tests to a server error
AnyStatus == {"referer", "sourcemap"}
Expected(rec) ==
  LET in == rec.in IN
  CASE in.vals = <<>> -> None
    [] in.h \in AnyStatus -> DontCare
    \* a control character in an unquoted description is the sender's fault
    [] in.h = "server-timing" /\ \E i \in 1..Len(in.vals) : \E j \in 1..Len(in.vals[i]) : in.vals[i][j] < 32 \/ in.vals[i][j] = 127 -> Calm
    \* ... and so is a quote that is never closed
    [] in.h = "server-timing" /\ \E i \in 1..Len(in.vals) : Len(SelectSeq(in.vals[i], LAMBDA x : x = 34)) % 2 = 1 -> Calm
    \* a quote in what should be a list of names
    [] in.h = "vary" /\ \E i \in 1..Len(in.vals) : \E j \in 1..Len(in.vals[i]) : in.vals[i][j] = 34 -> Calm
    [] OTHER -> Sane
--------------------------------------------------------------------------------
CONSTANTS NChars, NInsert, NPairs
VARIABLE cs
Start == [op |-> "none", in |-> [h |-> "age", vals |-> <<>>]]
Strings(A, n) == UNION {[1..k -> A] : k \in 0..n}
Chars == {C("a"), C("1"), C("0"), C(" "), C(","), C(";"), C("="), 34, 92, C("*"), C("/"), C("-"), C(":"), 0, 127, C("%"), TAB}
Inserts == IF NInsert = 0 THEN {C(","), 34, C("="), C(";"), C("9"), C("-"), 0} ELSE Chars
Dates == {S("Sun, 06 Nov 1994 08:49:37 GMT"), S("Sunday, 06-Nov-94 08:49:37 GMT"), S("Sun Nov  6 08:49:37 1994")}
Ranges == {S("gzip, *;q=0.5, br;q=1"), S("*"), S("identity;q=0")}
Tags == {S("\"a\""), S("W/\"b\", \"c,d\""), S("*")}
Urls == {S("https://u@h:1/p?q#f"), S("/a/../b"), S("?x"), S("//h/"), S("htt://")}
Auths == {S("Basic dTpw"), S("Bearer abc")}
Seeds(h) ==
  CASE h = "server-timing" -> {S("db;dur=53.5;desc=\"a,b\", cpu"), S("m;desc=x")}
    [] h = "traceparent" -> {S("00-0af7651916cd43dd8448eb211c80319c-00f067aa0ba902b7-01"), S("cc-0af7651916cd43dd8448eb211c80319c-00f067aa0ba902b7-ff-what")}
    [] h = "allow" -> {S("GET, POST"), S("VERSION-CONTROL,put")}
    [] h = "www-authenticate" -> {S("Basic realm=\"a b\", charset=\"UTF-8\""), S("Basic realm=x")}
    [] h \in {"basic-auth", "authorization"} -> Auths
    [] h \in {"age", "content-length"} -> {S("0"), S("18446744073709551615"), S("12")}
    [] h = "cache-control" -> {S("no-store, max-age=3, private=\"a,b\", x=\"y\""), S("max-stale, stale-if-error=18446744073709551615")}
    [] h \in {"expires", "date", "if-unmodified-since", "if-modified-since", "last-modified"} -> Dates
    [] h = "clear-site-data" -> {S("\"cache\", \"*\""), S("\"cookies\",\"x\"")}
    [] h = "forwarded" -> {S("for=\"[::1]:8\";by=_x;host=h;proto=http, for=b"), S("proto=https")}
    [] h = "x-forwarded" -> {S("a"), S("1.2.3.4, [::1]")}
    [] h \in {"content-location", "referer", "sourcemap"} -> Urls
    [] h = "content-encoding" -> {S("gzip"), S("identity")}
    [] h = "transfer-encoding" -> {S("chunked"), S("gzip, chunked")}
    [] h \in {"content-type", "message-type"} -> {S("text/html; charset=\"a\\\"b\";x=y"), S("a/b")}
    [] h \in {"accept-encoding", "te"} -> Ranges
    [] h = "accept" -> {S("text/*;q=0.3, */*;x=\"a,b\", a/b;q=1.000")}
    [] h = "retry-after" -> {S("120"), S("Sun, 06 Nov 1994 08:49:37 GMT")}
    [] h = "expect" -> {S("100-continue")}
    [] h \in {"if-match", "if-none-match", "etag"} -> Tags
    [] h = "vary" -> {S("Accept, *"), S("x-a,x-b")}
    [] h = "strict-transport-security" -> {S("max-age=31536000; includeSubDomains; preload"), S("max-age=\"0\"")}
    [] h = "timing-allow-origin" -> {S("https://a.b, *"), S("null")}
Bases == IF NInsert = 0 THEN {S("https://b.example/x/y")} ELSE {S("https://b.example/x/y"), S("mailto:a"), S("")}
Mutants(t) == {t} \cup {SubSeq(t, 1, i) : i \in 0..Len(t)} \cup {SubSeq(t, i, Len(t)) : i \in 1..Len(t)} \cup {SubSeq(t, 1, i - 1) \o SubSeq(t, i + 1, Len(t)) : i \in 1..Len(t)}
              \cup {SubSeq(t, 1, i) \o << x >> \o SubSeq(t, i + 1, Len(t)) : i \in 0..Len(t), x \in Inserts} \cup {[t EXCEPT ![i] = x] : i \in 1..Len(t), x \in Inserts}
Read(h, vs, b) == cs' = [op |-> "total", in |-> [h |-> h, vals |-> vs, base |-> Str(b)]]
AllSeeds == UNION {Seeds(h) : h \in Headers} \cup {S(""), S(" "), S(",")}
Init == cs = Start
Next ==
  /\ cs = Start
  /\ \E h \in Headers :
       \/ Read(h, <<>>, S("https://b.example/"))
       \/ \E t \in Strings(Chars, NChars) : Read(h, << t >>, S("https://b.example/"))
       \/ \E x \in Seeds(h) : \E t \in Mutants(x), b \in Bases : Read(h, << t >>, b)
       \* another header's text, and several values
       \/ \E t \in AllSeeds : Read(h, << t >>, S("https://b.example/"))
       \/ \E a \in AllSeeds, b \in Seeds(h) : Read(h, << a, b >>, S("https://b.example/")) \/ Read(h, << b, a >>, S("https://b.example/"))
       \/ \E vs \in [1..NPairs -> AllSeeds] : Read(h, vs, S("https://b.example/"))
Emit == PrintT(ToJson([op |-> cs'.op, in |-> cs'.in, exp |-> Expected(cs')]))
EveryHeader == \A h \in Headers : Seeds(h) # {}
=============================================================================
