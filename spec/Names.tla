------------------------------- MODULE Names --------------------------------
(* Header names and header values: exactly ASCII; names are caseless.        *)
EXTENDS Text
\* in.b: bytes given; in.via: how; "str"/"string" are only given UTF-8 (in.b is then its encoding)
NameOf(b) == Lower(b)
Attr(a, t) == IF a = <<>> THEN <<>> ELSE S("; ") \o t \o a[1]
CookieText(c) ==
  c.name \o << EQ >> \o c.value
  \o (IF c.http THEN S("; HttpOnly") ELSE <<>>) \o (IF c.secure THEN S("; Secure") ELSE <<>>)
  \o Attr(c.path, S("Path=")) \o Attr(c.domain, S("Domain=")) \o Attr(c.age, S("Max-Age="))
Expected(rec) ==
  LET in == rec.in IN
  CASE rec.op = "value" ->
         IF AllAscii(in.b) THEN Ok([text |-> in.b, same |-> TRUE]) ELSE Err(0)
    [] rec.op = "name" -> IF AllAscii(in.b) THEN Ok([text |-> NameOf(in.b), same |-> TRUE]) ELSE Err(0)
    [] rec.op = "nameeq" -> \* two names, or a name and a text, by every comparison offered
         LET e == EqNoCase(in.a, in.b) IN Ok([eq |-> e, hash |-> e, str |-> e, string |-> e])
    [] rec.op = "valueeq" -> LET e == in.a = in.b IN Ok([eq |-> e, hash |-> e, str |-> e, string |-> e])
    [] rec.op = "nametext" -> \* an ASCII name against arbitrary text
         Ok(AllAscii(in.b) /\ EqNoCase(in.a, in.b))
    \* a name with a value is a header of its own: set in a message, among them
    [] rec.op = "pair" -> Ok([name |-> NameOf(in.a), value |-> in.b, got |-> << in.b >>])
    \* a cookie set in a message is its Set-Cookie text, unescaped, and reads back as that cookie
    [] rec.op = "cookie" -> Ok([t |-> CookieText(in), n |-> Len(in.old) + 1, back |-> TRUE])

VARIABLE cs
CONSTANT Bytes
Start == [op |-> "none", in |-> [b |-> <<>>]]
Strs == UNION {[1..n -> Bytes] : n \in 0..2}
Names1 == {<<97>>, <<65>>, <<98>>, <<>>, S("Host"), S("HOST"), S("hosT"), S("Hos"), S("host "), <<91>>, <<123>>, <<64>>, <<96>>}
Init == cs = Start
Next == /\ cs = Start
        /\ \/ \E b \in Strs, o \in {"value", "name"}, v \in {"bytes", "str", "string", "tryfrom", "cow", "ref"} :
                /\ (v # "bytes" => Utf8Valid(b)) /\ (v \in {"tryfrom", "cow", "ref"} => o = "value")
                /\ cs' = [op |-> o, in |-> [b |-> b, via |-> v]]
           \/ \E b \in 0..255, o \in {"value", "name"} : cs' = [op |-> o, in |-> [b |-> << 97, b >>, via |-> "bytes"]]
           \/ \E v \in {<<>>, S("v"), S("a b%20\"c\""), S("x=y&z")}, hs \in [1..2 -> BOOLEAN], p \in {<<>>, << S("/a/b") >>}, d \in {<<>>, << S("example.com") >>}, a \in {<<>>, << S("0") >>, << S("86400") >>}, old \in {<<>>, << S("k=v"), S("name=old") >>} :
                cs' = [op |-> "cookie", in |-> [name |-> S("name"), value |-> v, http |-> hs[1], secure |-> hs[2], path |-> p, domain |-> d, age |-> a, old |-> old]]
           \/ \E a, b \in Names1, o \in {"nameeq", "valueeq"} : cs' = [op |-> o, in |-> [a |-> a, b |-> b]]
           \/ \E a \in Names1, b \in {<<>>, <<32>>, S(" a "), S("x\t"), <<0, 65>>, <<10>>} : cs' = [op |-> "pair", in |-> [a |-> a, b |-> b]]
           \/ \E a \in Names1, b \in Names1 \cup {<<233>>, <<65, 233>>} : cs' = [op |-> "nametext", in |-> [a |-> a, b |-> b]]
Emit == PrintT(ToJson([op |-> cs'.op, in |-> cs'.in, exp |-> Expected(cs')]))
\* equality of names is an equivalence that lower-casing represents
EqLaw == cs.op = "nameeq" => (EqNoCase(cs.in.a, cs.in.b) <=> EqNoCase(cs.in.b, cs.in.a)) /\ EqNoCase(cs.in.a, NameOf(cs.in.a))
=============================================================================
