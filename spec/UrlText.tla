------------------------------ MODULE UrlText ------------------------------
(* URLs as the WHATWG standard reads them, for ASCII text: the special schemes      *)
(* http, https, ftp, ws and wss with user information, a plain host name or an       *)
(* address in normal form and an optional port, and opaque URLs.  A URL is [s: scheme, a: authority, p: path segments, q: query,     *)
(* f: fragment, o: opaque path or << >>].  What lies outside (other spellings of      *)
(* addresses, international names) is left open.                                    *)
EXTENDS Text
UOk(u) == [k |-> "ok", u |-> u]
UBad == [k |-> "bad", u |-> <<>>]
UOpen == [k |-> "open", u |-> <<>>]
Hex(d) == IF d < 10 THEN 48 + d ELSE 55 + d
Pct(x) == << 37, Hex(x \div 16), Hex(x % 16) >>
Encode(t, set) == Flatten(MapSeq(t, LAMBDA x : IF x < 32 \/ x > 126 \/ x \in set THEN Pct(x) ELSE << x >>))
FragSet == {SP, DQ, C("<"), C(">"), C("`")}
PathSet == FragSet \cup {C("#"), C("?"), C("{"), C("}")}
QuerySet(special) == {SP, DQ, C("#"), C("<"), C(">")} \cup (IF special THEN {C("'")} ELSE {})
Special == {S("http"), S("https"), S("ftp"), S("ws"), S("wss")}
DefaultPort(s) == CASE s \in {S("http"), S("ws")} -> 80 [] s \in {S("https"), S("wss")} -> 443 [] OTHER -> 21
UserSet == PathSet \cup {SLASH, COLON, SEMI, EQ, C("@"), C("["), BSLASH, C("]"), C("^"), C("|")}
V6s == {S("[::1]"), S("[::]"), S("[2001:db8::9]"), S("[fe80::1:2]"), S("[1:2:3:4:5:6:7:8]")}
Octet(t) == t # <<>> /\ Len(t) <= 3 /\ All(t, IsDigit) /\ Canon(t) = t /\ NumLE(t, S("255"))
HostOk == {x \in 0..127 : IsAlnum(x)} \cup {DOT, MINUS, 95}
HostBad == (0..32) \cup {C("#"), C("<"), C(">"), C("?"), C("^"), C("|"), 127, SLASH, BSLASH, C("]")}
\* the host name: lower case; numeric last labels are addresses, "--" may be punycode
ReadHost(t0) ==
  LET t == Lower(t0)  ls0 == SplitOn(t, DOT)  ls == IF Len(ls0) > 1 /\ Last(ls0) = <<>> THEN Front(ls0) ELSE ls0 IN
  CASE t = <<>> -> UBad
    [] t \in V6s -> UOk(t)
    [] t[1] = C("[") \/ Contains0(t, 37) \/ Contains0(t, C("@")) -> UOpen
    [] \E i \in 1..Len(t) : t[i] \in HostBad -> UBad
    [] \E i \in 1..Len(t) : t[i] \notin HostOk -> UOpen
    [] \E i \in 1..Len(ls) : ls[i] = <<>> \/ Contains0(ls[i], 95) \/ ls[i][1] = MINUS \/ Last(ls[i]) = MINUS \/ (Len(ls[i]) > 3 /\ SubSeq(ls[i], 3, 4) = << MINUS, MINUS >>) -> UOpen
    [] Len(ls) = 4 /\ Len(ls0) = 4 /\ (\A i \in 1..4 : Octet(ls[i])) -> UOk(t)
    [] IsDigit(Last(ls)[1]) -> UOpen
    [] OTHER -> UOk(t)
\* host and port
ReadHostPort(t, s) ==
  LET i == FindFrom(t, IF t # <<>> /\ t[1] = C("[") THEN FindFrom(t, 1, LAMBDA x : x = C("]")) ELSE 1, LAMBDA x : x = COLON)  h == ReadHost(SubSeq(t, 1, i - 1))  port == Drop(t, i) IN
  CASE i > Len(t) -> h
    [] h.k # "ok" -> h
    [] port = <<>> -> h
    [] ~All(port, IsDigit) -> UBad
    [] NumLT(S("65535"), Canon(port)) -> UBad
    [] Canon(port) = DecOf(DefaultPort(s)) -> h
    [] OTHER -> UOk(h.u \o << COLON >> \o Canon(port))
\* what stands before the last @ is a user and a password
ReadAuth(t, s) ==
  IF ~Contains0(t, C("@")) THEN ReadHostPort(t, s)
  ELSE LET n == CHOOSE i \in 1..Len(t) : t[i] = C("@") /\ ~Contains0(Drop(t, i), C("@"))
           p == SplitOnce(Take(t, n - 1), COLON)  user == Encode(p[1], UserSet)  pass == IF Len(p) = 1 THEN <<>> ELSE Encode(p[2], UserSet)
           h == ReadHostPort(Drop(t, n), s) IN
       IF h.k # "ok" THEN h
       ELSE UOk(user \o (IF pass = <<>> THEN <<>> ELSE << COLON >> \o pass) \o (IF user = <<>> /\ pass = <<>> THEN <<>> ELSE << C("@") >>) \o h.u)
IsSlash(x) == x \in {SLASH, BSLASH}
Dots1 == {S("."), S("%2e")}
Dots2 == {S(".."), S(".%2e"), S("%2e."), S("%2e%2e")}
\* segments appended to those already there, resolving . and ..
AddPath(segs, t) ==
  LET ps == SplitOn([i \in 1..Len(t) |-> IF t[i] = BSLASH THEN SLASH ELSE t[i]], SLASH) IN
  FoldLeft(LAMBDA acc, i :
      LET last == i = Len(ps) IN
      IF Lower(ps[i]) \in Dots2 THEN (IF acc = <<>> THEN acc ELSE Front(acc)) \o (IF last THEN << <<>> >> ELSE <<>>)
      ELSE IF Lower(ps[i]) \in Dots1 THEN (IF last THEN Append(acc, <<>>) ELSE acc)
      ELSE Append(acc, Encode(ps[i], PathSet)), segs, [i \in 1..Len(ps) |-> i])
\* the text cut into what precedes ? and #, the query and the fragment
Cut(t) ==
  LET h == SplitOnce(t, C("#"))  q == SplitOnce(h[1], C("?")) IN
  [b |-> q[1], q |-> Tail(q), f |-> Tail(h)]
Mk(s, a, p, q, f) == [s |-> s, a |-> a, p |-> p, q |-> MapSeq(q, LAMBDA x : Encode(x, QuerySet(TRUE))), f |-> MapSeq(f, LAMBDA x : Encode(x, FragSet)), o |-> <<>>]
Absolute(s, t) ==   \* the slashes have been skipped
  LET z == Cut(t)  i == FindFrom(z.b, 1, IsSlash)  a == ReadAuth(SubSeq(z.b, 1, i - 1), s) IN
  IF a.k # "ok" THEN a ELSE UOk(Mk(s, a.u, AddPath(<<>>, Drop(z.b, i)), z.q, z.f))
Relative(t, b) ==
  LET z == Cut(t) IN
  CASE z.b = <<>> /\ z.q = <<>> -> UOk([b EXCEPT !.f = MapSeq(z.f, LAMBDA x : Encode(x, FragSet))])
    [] z.b = <<>> -> UOk(Mk(b.s, b.a, b.p, z.q, z.f))
    [] IsSlash(z.b[1]) -> UOk(Mk(b.s, b.a, AddPath(<<>>, Tail(z.b)), z.q, z.f))
    [] OTHER -> UOk(Mk(b.s, b.a, AddPath(Front(b.p), z.b), z.q, z.f))
SkipSlashes(t) == TrimL(t, IsSlash)
TwoSlashes(t) == Len(t) > 1 /\ IsSlash(t[1]) /\ IsSlash(t[2])
\* base: << >> or << URL >>
ReadUrl(t0, base) ==
  LET t == SelectSeq(Trim(t0, LAMBDA x : x <= 32), LAMBDA x : x \notin {TAB, LF, CR})
      i == FindFrom(t, 1, LAMBDA x : ~(IsAlnum(x) \/ x \in {43, MINUS, DOT}))
      HasScheme == i <= Len(t) /\ i > 1 /\ t[i] = COLON /\ IsAlpha(t[1])
      s == Lower(SubSeq(t, 1, i - 1))  r == Drop(t, i)
      b == base[1] IN
  IF ~HasScheme
  THEN CASE base = <<>> -> UBad
         [] b.o # <<>> -> (IF t # <<>> /\ t[1] = C("#") THEN UOpen ELSE UBad)
         [] TwoSlashes(t) /\ Len(t) > 2 /\ IsSlash(t[3]) -> UOpen   \* the url crate rejects these
         [] TwoSlashes(t) -> Absolute(b.s, SkipSlashes(t))
         [] OTHER -> Relative(t, b)
  ELSE CASE s = S("file") -> UOpen
         [] s \in Special /\ base # <<>> /\ b.s = s /\ ~TwoSlashes(r) -> (IF b.o # <<>> THEN UOpen ELSE Relative(r, b))
         [] s \in Special -> Absolute(s, SkipSlashes(r))
         [] r # <<>> /\ r[1] = SLASH -> UOpen
         [] OTHER -> LET z == Cut(r) IN
              IF \E j \in 1..Len(z.b) : z.b[j] = SP THEN UOpen
              ELSE UOk([s |-> s, a |-> <<>>, p |-> <<>>, q |-> MapSeq(z.q, LAMBDA x : Encode(x, QuerySet(FALSE))), f |-> MapSeq(z.f, LAMBDA x : Encode(x, FragSet)), o |-> << Encode(z.b, {}) >>])
WriteUrl(u) ==
  u.s \o << COLON >> \o (IF u.o # <<>> THEN u.o[1] ELSE << SLASH, SLASH >> \o u.a \o Flatten(MapSeq(u.p, LAMBDA x : << SLASH >> \o x)))
      \o (IF u.q = <<>> THEN <<>> ELSE << C("?") >> \o u.q[1]) \o (IF u.f = <<>> THEN <<>> ELSE << C("#") >> \o u.f[1])
=============================================================================
