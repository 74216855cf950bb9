---------------------------------- MODULE Auth ---------------------------------
(* Authorization, WWW-Authenticate and Basic credentials.                        *)
EXTENDS Text
Schemes == << "Basic", "Bearer", "Digest", "HOBA", "Mutual", "Negotiate", "OAuth", "SCRAM-SHA-1", "SCRAM-SHA-256", "vapid" >>
SchemeText == [i \in 1..Len(Schemes) |-> S(Schemes[i])]
SchemeLower == [i \in 1..Len(Schemes) |-> Lower(SchemeText[i])]
\* the scheme a word names, as << scheme >>, or <<>>
SchemeOf(w) == LET l == Lower(w) IN IF \E i \in 1..Len(Schemes) : SchemeLower[i] = l THEN << Schemes[CHOOSE i \in 1..Len(Schemes) : SchemeLower[i] = l] >> ELSE <<>>
TextOf(sch) == SchemeText[CHOOSE i \in 1..Len(Schemes) : Schemes[i] = sch]
IsPrint(x) == x = TAB \/ x \in 32..126
Sendable(t) == All(t, IsPrint)
--------------------------------------------------------------------------------
(* Base64, by bits *)
B64 == S("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/")
B64Index == [x \in Range(B64) |-> (CHOOSE i \in 1..64 : B64[i] = x) - 1]
RECURSIVE Base64(_)
Base64(b) ==
  IF b = <<>> THEN <<>>
  ELSE LET p == IF Len(b) < 3 THEN b \o [i \in 1..(3 - Len(b)) |-> 0] ELSE b
           n == 65536 * p[1] + 256 * p[2] + p[3]
           q == << B64[(n \div 262144) + 1], B64[((n \div 4096) % 64) + 1], B64[((n \div 64) % 64) + 1], B64[(n % 64) + 1] >>
       IN CASE Len(b) = 1 -> SubSeq(q, 1, 2) \o << EQ, EQ >>
            [] Len(b) = 2 -> SubSeq(q, 1, 3) \o << EQ >>
            [] OTHER -> q \o Base64(Drop(b, 3))
\* decoding: << "ok", bytes >>, "bad", or "lax" where a lenient decoder may accept (padding absent, spare bits set)
RECURSIVE Bytes64(_)
Bytes64(t) ==
  IF Len(t) < 2 THEN <<>>
  ELSE LET Idx(i) == IF i <= Len(t) THEN B64Index[t[i]] ELSE 0
           n == 262144 * Idx(1) + 4096 * Idx(2) + 64 * Idx(3) + Idx(4)
           all == << n \div 65536, (n \div 256) % 256, n % 256 >>
       IN IF Len(t) >= 4 THEN all \o Bytes64(Drop(t, 4)) ELSE SubSeq(all, 1, Len(t) - 1)
Decode64(t) ==
  LET core == TrimR(t, LAMBDA x : x = EQ)  pad == Len(t) - Len(core) IN
  IF ~All(core, LAMBDA x : x \in DOMAIN B64Index) \/ Len(core) % 4 = 1 \/ pad > 2 THEN [k |-> "bad"]
  ELSE LET b == Bytes64(core) IN IF Base64(b) = t THEN [k |-> "ok", b |-> b] ELSE [k |-> "lax", b |-> b]
\* code points of valid UTF-8
RECURSIVE FromUtf8(_)
FromUtf8(b) ==
  IF b = <<>> THEN <<>>
  ELSE CASE b[1] < 128 -> << b[1] >> \o FromUtf8(Tail(b))
         [] b[1] < 224 -> << (b[1] - 192) * 64 + (b[2] - 128) >> \o FromUtf8(Drop(b, 2))
         [] b[1] < 240 -> << (b[1] - 224) * 4096 + (b[2] - 128) * 64 + (b[3] - 128) >> \o FromUtf8(Drop(b, 3))
         [] OTHER -> << (b[1] - 240) * 262144 + (b[2] - 128) * 4096 + (b[3] - 128) * 64 + (b[4] - 128) >> \o FromUtf8(Drop(b, 4))
--------------------------------------------------------------------------------
RECURSIVE Unquote(_, _)
Unquote(t, acc) == IF t = <<>> THEN <<>> ELSE IF t[1] = DQ THEN << acc >>
  ELSE IF t[1] = BSLASH THEN (IF Len(t) >= 2 THEN Unquote(Drop(t, 2), Append(acc, t[2])) ELSE <<>>)
  ELSE Unquote(Tail(t), Append(acc, t[1]))
Escape(t) == Flatten(MapSeq(t, LAMBDA x : IF x \in {DQ, BSLASH} THEN << BSLASH, x >> ELSE << x >>))
AuthText(sch, w) == TextOf(sch) \o << SP >> \o w
RealmText(sch, w) == TextOf(sch) \o S(" realm=\"") \o Escape(w) \o S("\", charset=\"UTF-8\"")
\* a value, as a scheme and the rest
ReadAuth(v) == LET p == SplitOnce(v, SP) IN
  IF Len(p) = 1 \/ SchemeOf(p[1]) = <<>> THEN Err(4) ELSE Ok([scheme |-> SchemeOf(p[1])[1], rest |-> p[2]])
HasNoCase(t, w) == \E i \in 1..Len(t) : EqNoCase(SubSeq(t, i, IF i + Len(w) - 1 <= Len(t) THEN i + Len(w) - 1 ELSE Len(t)), w)
ReadRealm(v) == LET a == ReadAuth(v) IN
  IF a.k = "err" THEN a
  ELSE LET t == TrimWS(a.v.rest)  r == S("realm=") IN
    IF ~StartsWith(t, Append(r, DQ)) THEN (IF HasNoCase(t, r) THEN DontCare ELSE Err(4))
    ELSE LET u == Unquote(Drop(t, Len(r) + 1), <<>>) IN IF u = <<>> THEN Err(4) ELSE IF ~Sendable(t) THEN DontCare ELSE Ok([scheme |-> a.v.scheme, rest |-> u[1]])
\* the credentials alone
ReadCreds(t) ==
  LET d == Decode64(t) IN
    IF d.k = "bad" \/ ~Utf8Valid(d.b) \/ ~Contains0(d.b, COLON) THEN Err(4)
    ELSE LET p == SplitOnce(FromUtf8(d.b), COLON)  r == [user |-> p[1], pass |-> p[2]] IN IF d.k = "ok" THEN Ok(r) ELSE Maybe(r)
ReadBasic(v) == LET a == ReadAuth(v) IN
  IF a.k = "err" THEN a
  ELSE IF a.v.scheme # "Basic" THEN Err(4)
  ELSE IF a.v.rest # <<>> /\ a.v.rest[1] \in {SP, TAB} THEN DontCare
  ELSE ReadCreds(a.v.rest)
BasicText(u, p) == S("Basic ") \o Base64(Utf8(u) \o << COLON >> \o Utf8(p))
Latest(vals, Read(_)) == IF vals = <<>> THEN None ELSE Read(Last(vals))
Expected(rec) ==
  LET in == rec.in IN
  CASE rec.op = "authread" -> Latest(in.vals, ReadAuth)
    [] rec.op = "realmread" -> Latest(in.vals, ReadRealm)
    [] rec.op = "basicread" -> Latest(in.vals, ReadBasic)
    [] rec.op = "creds" -> ReadCreds(in.t)
    [] rec.op = "authwrite" -> IF Sendable(in.w) THEN Ok([t |-> AuthText(in.scheme, in.w), back |-> Ok([scheme |-> in.scheme, rest |-> in.w])]) ELSE DontCare
    [] rec.op = "realmwrite" -> IF Sendable(in.w) THEN Ok([t |-> RealmText(in.scheme, in.w), back |-> Ok([scheme |-> in.scheme, rest |-> in.w])]) ELSE DontCare
    [] rec.op = "basicwrite" -> IF Contains0(in.u, COLON) THEN DontCare ELSE Ok([t |-> BasicText(in.u, in.p), back |-> Ok([user |-> in.u, pass |-> in.p])])
    [] rec.op = "scheme" -> IF SchemeOf(in.t) = <<>> THEN Err(4) ELSE Ok(TextOf(SchemeOf(in.t)[1]))
--------------------------------------------------------------------------------
CONSTANTS Chars, NChars, NUni
VARIABLE cs
Start == [op |-> "none", in |-> [t |-> <<>>]]
Strings(A, n) == UNION {[1..k -> A] : k \in 0..n}
Do(op, in) == cs' = [op |-> op, in |-> in]
Read3(vals) == Do("authread", [vals |-> vals]) \/ Do("realmread", [vals |-> vals]) \/ Do("basicread", [vals |-> vals])
Uni == {0, 58, 97, 127, 128, 255, 2047, 2048, 8364, 55295, 57344, 65533, 65536, 1114111}
Rests == << S(""), S("x"), S(" x"), S("realm=\"a\""), S("realm=\"\""), S("  realm=\"a b\", charset=\"UTF-8\""), S("realm=\"a"), S("realm=a"), S("Realm=\"a\""), S("nonce=\"q\", realm=\"a\""), S("charset=\"UTF-8\""),
            S("realm=\"a\\\"b\\\\\""), S("realm"), S("realm="), S("YTpi"), S("YTpi="), S("YQ=="), S("Og=="), S("OjpiOg=="), S("YTo="), S("YTo"), S("YTp="), S("YTq="), S("Y=p="), S("gDo="), S("wq86"), S("4oKsOuKCrA=="), S("7aCAOg=="), S("8J+YgDo="), S("w6k6w6k="), S("a:b"), S("===="), S("YTpiYTpi\tx") >>
Init == cs = Start
Next ==
  /\ cs = Start
  /\ \/ \E i \in 1..Len(Schemes), w \in Strings(Chars, NChars) : Do("authwrite", [scheme |-> Schemes[i], w |-> w]) \/ Do("realmwrite", [scheme |-> Schemes[i], w |-> w])
     \/ \E u \in Strings(Uni, NUni), p \in Strings(Uni, NUni) : Do("basicwrite", [u |-> u, p |-> p])
     \/ \E x \in 0..127, k \in {"authwrite", "realmwrite"}: Do(k, [scheme |-> "Basic", w |-> << x, 97, x >>])
     \/ \E u \in {x \in 0..255 : x # 58}, p \in {0, 58, 63, 64, 255} : Do("basicwrite", [u |-> << u >>, p |-> << p, u >>])
     \/ \E i \in 1..Len(Schemes), f \in 1..4 : LET t == SchemeText[i]  v == CASE f = 1 -> Lower(t) [] f = 2 -> Upper(t) [] f = 3 -> [j \in 1..Len(t) |-> IF j % 2 = 0 THEN UpperC(t[j]) ELSE LowerC(t[j])] [] f = 4 -> t IN
          \/ Do("scheme", [t |-> v])
          \/ \E j \in 1..Len(Rests) : Read3(<< v \o << SP >> \o Rests[j] >>)
          \/ \E j \in 1..Len(t), x \in {0, 32, 45, 97, 73, 304, 383, 8490} : Do("scheme", [t |-> SubSeq(v, 1, j - 1) \o << x >> \o Drop(v, j)]) \/ Do("scheme", [t |-> Take(v, j)]) \/ Do("scheme", [t |-> Take(v, j) \o << x >> \o Drop(v, j)])
     \/ \E t \in {S(""), S(" "), S("Basic"), S(" Basic YTpi"), S("Foo YTpi"), S("Basic\tYTpi"), S("Basic,YTpi"), S("Scheme realm=\"x\"")} : Read3(<< t >>) \/ Do("scheme", [t |-> t]) \/ Read3(<< t, S("Basic YTpi") >>) \/ Read3(<< S("Basic YTpi"), t >>)
     \/ Read3(<<>>)
     \/ \E j \in 1..Len(Rests) : Do("creds", [t |-> Rests[j]])
     \/ \E u, p \in Strings(Uni, 1) : Do("creds", [t |-> Base64(Utf8(u) \o << COLON >> \o Utf8(p))])
     \/ \E a, b \in {S("Basic YTpi"), S("Bearer x"), S("Digest realm=\"r\""), S("basic realm=\"YTpi\"")} : Read3(<< a, b >>)
Emit == PrintT(ToJson([op |-> cs'.op, in |-> cs'.in, exp |-> Expected(cs')]))
RoundTrip ==
  /\ cs.op = "authwrite" => ReadAuth(AuthText(cs.in.scheme, cs.in.w)) = Ok([scheme |-> cs.in.scheme, rest |-> cs.in.w])
  /\ cs.op = "realmwrite" /\ Sendable(cs.in.w) => ReadRealm(RealmText(cs.in.scheme, cs.in.w)) = Ok([scheme |-> cs.in.scheme, rest |-> cs.in.w])
  /\ cs.op = "basicwrite" /\ ~Contains0(cs.in.u, COLON) => ReadBasic(BasicText(cs.in.u, cs.in.p)) = Ok([user |-> cs.in.u, pass |-> cs.in.p])
Chars1 == {34, 92, 32, 97, 44, 9}
=============================================================================
