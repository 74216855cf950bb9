------------------------------- MODULE Numbers -------------------------------
(* Headers carrying a number: Content-Length, Age, Retry-After. Numbers are     *)
(* decimal texts, so that all 64 bits can be spoken of.                         *)
EXTENDS DateText
IsNum(t) == IsDigits(t) /\ NumLE(Canon(t), U64MAX)
ReadNum(t) == IF IsNum(t) THEN Ok(Canon(t))
              ELSE IF IsNum(TrimWS(t)) THEN Maybe(Canon(TrimWS(t))) ELSE Err(400)
\* a delay or an instant, shown as it would be written
ReadRetry(t) ==
  LET n == ReadNum(t)  d == ReadDate(t) IN
  CASE n.k \in {"ok", "maybe"} -> n
    [] d.k = "ok" -> Ok(Written("imf", d.v[1], d.v[2]))
    [] d.k = "maybe" -> Maybe(Written("imf", d.v[1], d.v[2]))
    [] OTHER -> Err(400)
Expected(rec) ==
  LET in == rec.in IN
  CASE rec.op = "numread" -> IF in.vals = <<>> THEN None ELSE ReadNum(Last(in.vals))
    [] rec.op = "retryread" -> IF in.vals = <<>> THEN None ELSE ReadRetry(Last(in.vals))
    [] rec.op = "numwrite" -> Ok([t |-> in.t, back |-> Ok(in.t)])
    [] rec.op = "retrydelay" -> Ok([t |-> in.t, back |-> Ok(in.t)])
    [] rec.op = "retryat" -> LET w == Written("imf", in.d, in.s) IN Ok([t |-> w, back |-> Ok(w)])
--------------------------------------------------------------------------------
CONSTANTS Chars, NChars
VARIABLE cs
Start == [op |-> "none", in |-> [t |-> <<>>]]
Strings(A, n) == UNION {[1..k -> A] : k \in 0..n}
Big == {S("9"), S("4294967295"), S("4294967296"), S("9007199254740992"), S("9007199254740993"), S("9007199254740995"), S("9223372036854775807"), S("9223372036854775808"),
        S("9223372036"), S("18446744073709551614"), S("18446744073709551615"), S("1844674407370955161"), S("253402300799"), S("253402300800"), S("2147483647"), S("2147483648"), S("9223372035000000000"), S("18446744071000000000")}
TooBig == {S("18446744073709551616"), S("18446744073709551620"), S("99999999999999999999"), S("184467440737095516150"), S("340282366920938463463374607431768211456")}
Odd == {S("0x10"), S("1e3"), S("1.0"), S("1_000"), S("-0"), S("-1"), S("1,2"), S("1 2"), S("inf"), S("NaN"), S("\"5\""), S("00"), S("007"), S("1;"), S("Fri, 31 Dec 9999 23:59:59 GMT"), S("Sun Nov  6 08:49:37 1994"), S("Thu, 01 Jan 1970 00:00:00 GMT"), S("Tue, 29 Feb 2023 00:00:00 GMT"), S("Sunday, 06-Nov-94 08:49:37 GMT")}
Do(op, in) == cs' = [op |-> op, in |-> in]
Reads(vals) == Do("numread", [h |-> "content-length", vals |-> vals]) \/ Do("numread", [h |-> "age", vals |-> vals]) \/ Do("retryread", [vals |-> vals])
Writes(t) == Do("numwrite", [h |-> "content-length", t |-> t]) \/ Do("numwrite", [h |-> "age", t |-> t]) \/ Do("retrydelay", [t |-> t])
Fractions == {1, 499999999, 500000000, 999000000, 999500000, 999999999}
Init == cs = Start
Next ==
  /\ cs = Start
  /\ \/ \E t \in Strings(Chars, NChars) : Reads(<< t >>)
     \/ \E t \in Big \cup TooBig \cup Odd : Reads(<< t >>) \/ Reads(<< S("0") \o t >>) \/ Reads(<< S("+") \o t >>) \/ Reads(<< t \o S("0") >>)
     \/ \E t \in Big \cup Odd, b \in Big \cup Odd \cup {<<>>} : Reads(<< t, b >>)
     \/ Reads(<<>>)
     \/ \E t \in Big \cup {DecOf(i) : i \in 0..300} \cup {DecOf(i * 7919 * 13) : i \in 1..300} : Writes(t)
     \/ \* a fraction of a second is not written
        \E t \in Big \cup {DecOf(i) : i \in 0..60}, x \in Fractions : Do("numwrite", [h |-> "age", t |-> t, ns |-> x]) \/ Do("retrydelay", [t |-> t, ns |-> x])
     \/ \E d \in {0, 9075, 11016, 2932896}, s \in {0, 43200, 86399}, x \in Fractions : Do("retryat", [d |-> d, s |-> s, ns |-> x])
     \/ \E d \in {0, 1, 59, 9075, 11016, 2932896} \cup {i * 9973 : i \in 1..290}, x \in {0, 43200, 86399} : Do("retryat", [d |-> d, s |-> x])
Emit == PrintT(ToJson([op |-> cs'.op, in |-> cs'.in, exp |-> Expected(cs')]))
RoundTrip == (cs.op \in {"numwrite", "retrydelay"} => ReadNum(cs.in.t) = Ok(cs.in.t)) /\ (cs.op = "retryat" => ReadRetry(Written("imf", cs.in.d, cs.in.s)) = Ok(Written("imf", cs.in.d, cs.in.s)))
Chars1 == {48, 49, 57, 43, 45, 46, 32, 9, 97, 44}
=============================================================================
