------------------------------ MODULE Registry ------------------------------
(* HTTP methods, status codes and versions, in every representation.         *)
EXTENDS Registry0
MethodCodes == {S(m) : m \in Methods}
SafeCodes == {S(m) : m \in SafeMethods}
VersionCodes == {S(v) : v \in VersionSet}
Rank(v) == CHOOSE i \in 1..Len(Versions) : Versions[i] = v
\* the five class predicates of a status number
Classes(n) == [i \in 1..5 |-> n \div 100 = i]

(* Numbers as text, so that they may exceed 32 bits; neg marks a minus sign.  *)
StatusTexts == {DecOf(n) : n \in StatusNums}
StatusText(t) == IF t \in StatusTexts THEN << NatOf(t) >> ELSE <<>>
StatusView(n) == [num |-> n, reason |-> ReasonOf[n], shown |-> Str(DecOf(n)) \o ": " \o ReasonOf[n], classes |-> Classes(n), eq |-> TRUE]
MethodView(c) == [name |-> c, shown |-> c, safe |-> c \in SafeCodes]

Expected(rec) ==
  LET in == rec.in IN
  CASE rec.op = "status" -> IF in.n \in StatusNums THEN Ok(StatusView(in.n)) ELSE Err(0)
    [] rec.op = "statusjson" -> \* in.t: a JSON integer (as text) to read a status from
         LET z == StatusText(in.t) IN IF z = <<>> THEN Err(0) ELSE Ok(z[1])
    [] rec.op = "statusint" -> \* offered by a deserializer as an integer of the given width
         LET z == StatusText(in.t) IN IF z = <<>> THEN Err(0) ELSE Ok(z[1])
    [] rec.op = "statusser" -> Ok(in.n)
    [] rec.op = "method" -> IF Upper(in.t) \in MethodCodes /\ AllAscii(in.t) THEN Ok(MethodView(Upper(in.t))) ELSE Err(0)
    [] rec.op = "methodjson" -> IF Upper(in.t) \in MethodCodes /\ AllAscii(in.t) THEN Ok(Upper(in.t)) ELSE Err(0)
    [] rec.op = "version" -> IF in.t \in VersionCodes THEN Ok([shown |-> in.t, json |-> in.t]) ELSE Err(0)
    [] rec.op = "versioncmp" -> Ok(IF Rank(in.a) < Rank(in.b) THEN "lt" ELSE IF Rank(in.a) = Rank(in.b) THEN "eq" ELSE "gt")

--------------------------------------------------------------------------------
VARIABLE cs
Start == [op |-> "none", in |-> [n |-> 0]]
Cap(s) == [i \in 1..Len(s) |-> IF i % 2 = 0 THEN LowerC(s[i]) ELSE s[i]]
Variants(m) == {m, Lower(m), Cap(m), Append(m, 32), << 32 >> \o m, Front(m), Append(m, 65), Tail(m)}
Texts == {S("0"), S("-200"), S("199"), S("600"), S("65736"), S("65535"), S("-65336"), S("4294967496"), S("18446744073709551615"), S("131272"),
          S("-9223372036854775808"), S("20"), S("2000")}
Init == cs = Start
Next == /\ cs = Start
        /\ \/ \E n \in 0..1100 \cup {65535, 65534, 60000, 200 + 256, 200 + 1024} : cs' = [op |-> "status", in |-> [n |-> n]]
           \/ \E t \in Texts \cup {DecOf(n) : n \in 95..620} : cs' = [op |-> "statusjson", in |-> [t |-> t]]
           \/ \E t \in Texts \cup {DecOf(n) : n \in StatusNums}, w \in {"i16", "i32", "i64", "u16", "u32", "u64"} : cs' = [op |-> "statusint", in |-> [t |-> t, w |-> w]]
           \/ \E n \in StatusNums : cs' = [op |-> "statusser", in |-> [n |-> n]]
           \/ \E m \in MethodCodes, o \in {"method", "methodjson"} : \E t \in Variants(m) : cs' = [op |-> o, in |-> [t |-> t]]
           \/ \E v \in VersionCodes \cup {S("HTTP/2.0"), S("HTTP/3.0"), S("http/1.1"), S("HTTP/1.2"), S("HTTP/1"), S(""), S("HTTP/1.1 "), S("1.1"), S("HTTP/1.10")} :
                cs' = [op |-> "version", in |-> [t |-> v]]
           \/ \E a, b \in VersionSet : cs' = [op |-> "versioncmp", in |-> [a |-> a, b |-> b]]
Emit == PrintT(ToJson([op |-> cs'.op, in |-> cs'.in, exp |-> Expected(cs')]))
OneClass == cs.op = "status" /\ cs.in.n \in StatusNums => Cardinality({i \in 1..5 : Classes(cs.in.n)[i]}) = 1
=============================================================================
