------------------------------ MODULE Location ------------------------------
(* Referer, SourceMap and Content-Location: a URL, or a reference relative to the   *)
(* URL of the message.                                                              *)
EXTENDS UrlText
Shown(r) == Ok(WriteUrl(r.u))
\* A path segment like "C|" next to dot segments: the url crate keeps it as if the scheme were `file`.
DriveLike(t) == LET u == SelectSeq(t, LAMBDA x : x \notin {9, 10, 13}) IN
  \E i \in 1..(Len(u) - 1) : /\ IsAlpha(u[i])
                             /\ u[i + 1] = 124 \/ (u[i + 1] = 58 /\ i > 1)
                             /\ i = 1 \/ u[i - 1] \in {47, 92} \/ u[i - 1] <= 32
                             /\ i + 2 > Len(u) \/ u[i + 2] \in {47, 92, 63, 35}
\* the last value decides; an absolute URL stands for itself whatever the base is
ReadLocation(vals, base) ==
  IF vals = <<>> THEN None
  ELSE LET t == Last(vals)  b == ReadUrl(base, <<>>)  a == ReadUrl(t, <<>>) IN
       IF b.k # "ok" \/ DriveLike(t) \/ DriveLike(base) THEN DontCare
       ELSE LET r == ReadUrl(t, << b.u >>) IN
            CASE a.k = "open" \/ r.k = "open" -> DontCare
              [] a.k = "ok" /\ r.k = "ok" -> IF a = r THEN Shown(a) ELSE DontCare
              [] a.k = "ok" -> Shown(a)
              [] r.k = "ok" -> Shown(r)
              [] OTHER -> Err(0)
WriteLocation(t, base) ==
  LET a == ReadUrl(t, <<>>) IN
  IF a.k # "ok" \/ ReadUrl(base, <<>>).k # "ok" \/ DriveLike(t) THEN DontCare ELSE Ok([v |-> WriteUrl(a.u), back |-> Shown(a)])
Expected(rec) ==
  CASE rec.op = "locread" -> ReadLocation(rec.in.vals, rec.in.base)
    [] rec.op = "locwrite" -> WriteLocation(rec.in.url, rec.in.base)
--------------------------------------------------------------------------------
CONSTANTS NChars, NPieces
VARIABLE cs
Start == [op |-> "none", in |-> [h |-> "", vals |-> <<>>, base |-> <<>>]]
Strings(A, n) == UNION {[1..k -> A] : k \in 0..n}
Heads == {"referer", "sourcemap", "clocation"}
Base0 == S("https://a.example/b/c/d?q#f")
Bases == {Base0, S("http://h"), S("https://x:8443/"), S("mailto:me"), S("http://h/a/")}
RefChars == {C("a"), C("/"), C("."), C("?"), C("#"), C(":"), C("\\")}
Pieces == {S("https:"), S("HTTP:"), S("//"), S("/"), S(".."), S("."), S("%2E"), S("a"), S("g.h"), S("?"), S("#"), S("x=1&y=2"), S(":80"), S(":443"), S(":65536"), S(" "), S("mailto:"), S("<>"), S("\t"), S("h_x"), S("1.2.3.4"), S("u@"), S("p:w@")}
Whole == {S("g:h"), S("g"), S("./g"), S("g/"), S("/g"), S("//g"), S("?y"), S("g?y"), S("#s"), S("g#s"), S("g?y#s"), S(";x"), S("g;x"), S(""), S("."), S("./"), S(".."), S("../"), S("../g"), S("../.."), S("../../"), S("../../g"), S("../../../g"), S("/./g"), S("/../g"), S("g."), S(".g"), S("./../g"), S("./g/."), S("g/./h"), S("g/../h"), S("g;x=1/../y"), S("g?y/./x"), S("g#s/../x"),
          S("https://example.net/test.json"), S("HTTPS://Example.NET"), S("https://example.net:443/a"), S("http://example.net:0443/a"), S("https:///x/y"), S("https://"), S("htt://<nori ate the tag. yum.>"), S("//<bad>"), S("http://a b/"), S("http://h/a b\"c`{}'|^"), S("http://h?'#`"), S("//h:99999/"), S("//h:8a/"), S("  http://h/  "),
          S("http://user:pw@h/x#f"), S("http://user@h"), S("//u@h:81/"), S("http://:pw@h/"), S("http://u:@h/"), S("http://@h/"), S("http://:@h/"), S("http://a@b@h/"), S("http://a:b:c@h/"), S("http://u;=|[]^@h/"), S("http://u@"), S("http://u@:80/"), S("http://u/@h/"), S("http://%41:%zz@h/"),
          S("http://1.2.3.4/"), S("//255.255.255.255:80/p"), S("http://[::1]:8080/"), S("http://u@[::1]/"), S("//[2001:DB8::9]"), S("http://[::1]80/"), S("http://[::1]:x/")}
Read(h, v, b) == cs' = [op |-> "locread", in |-> [h |-> h, vals |-> v, base |-> b]]
Init == cs = Start
Next ==
  /\ cs = Start
  /\ \/ \E h \in Heads, b \in Bases : Read(h, <<>>, b) \/ \E w \in Whole : Read(h, << w >>, b) \/ Read(h, << S("http://first/"), w >>, b) \/ cs' = [op |-> "locwrite", in |-> [h |-> h, url |-> w, base |-> b]]
     \/ \E h \in Heads, t \in Strings(RefChars, NChars) : Read(h, << t >>, Base0)
     \/ \E h \in Heads, t \in Strings(Pieces, NPieces) : Read(h, << Flatten(t) >>, Base0) \/ Read(h, << S("https://") \o Flatten(t) >>, S("http://h/a/")) \/ cs' = [op |-> "locwrite", in |-> [h |-> h, url |-> S("https://h.i/") \o Flatten(t), base |-> Base0]]
     \/ \E h \in Heads, x \in 0..127 : Read(h, << << x >> >>, Base0) \/ Read(h, << S("a/") \o << x >> \o S("b") >>, Base0) \/ Read(h, << S("http://q") \o << x >> \o S("b/") >>, Base0) \/ Read(h, << S("http://q") \o << x >> \o S("b@h/") >>, Base0) \/ Read(h, << S("http://q:") \o << x >> \o S("b@h/") >>, Base0) \/ Read(h, << S("?a") \o << x, 97 >> >>, Base0) \/ Read(h, << S("#a") \o << x, 97 >> >>, Base0)
     \/ \* every octet escaped, in capitals and not, in each part: as written when absolute, relative, sent
        \E n \in 0..255, lo \in BOOLEAN : LET p0 == Pct(n)  e == IF lo THEN MapSeq(p0, LowerC) ELSE p0  h == << "referer", "sourcemap", "clocation" >>[(n % 3) + 1] IN
          \E u \in {S("a") \o e \o S("b/c"), e, S("?") \o e \o S("=") \o e, S("#") \o e} : \/ Read(h, << u >>, Base0) \/ Read(h, << S("http://h/") \o u >>, Base0) \/ Read(h, << S("g") >>, S("http://h/") \o u)
                                                                         \/ cs' = [op |-> "locwrite", in |-> [h |-> h, url |-> S("https://h.i/") \o u, base |-> Base0]]
Emit == PrintT(ToJson([op |-> cs'.op, in |-> cs'.in, exp |-> Expected(cs')]))
\* what is written is already in normal form: reading it gives it back against any base
Stable == cs.op # "none" => \A t \in (IF cs.op = "locwrite" THEN {cs.in.url} ELSE {cs.in.vals[i] : i \in 1..Len(cs.in.vals)}) :
   LET b == ReadUrl(cs.in.base, <<>>)  r == ReadUrl(t, IF b.k = "ok" THEN << b.u >> ELSE <<>>) IN
   r.k = "ok" => /\ ReadUrl(WriteUrl(r.u), <<>>) = r
                 /\ \A o \in Bases : LET p == ReadUrl(o, <<>>) IN ReadUrl(WriteUrl(r.u), << p.u >>) = r
\* an empty reference means the base without its fragment, and "." the directory of the base
BaseLaw == LET b == ReadUrl(Base0, <<>>).u IN
   /\ ReadUrl(<<>>, << b >>) = UOk([b EXCEPT !.f = <<>>])
   /\ WriteUrl(ReadUrl(S("."), << b >>).u) = S("https://a.example/b/c/")
\* no dot segments survive
NoDots == cs.op = "locread" /\ cs.in.vals # <<>> => LET b == ReadUrl(cs.in.base, <<>>)  r == ReadUrl(Last(cs.in.vals), IF b.k = "ok" THEN << b.u >> ELSE <<>>) IN
   r.k = "ok" => \A i \in 1..Len(r.u.p) : Lower(r.u.p[i]) \notin Dots1 \cup Dots2
=============================================================================
