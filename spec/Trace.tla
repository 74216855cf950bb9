--------------------------------- MODULE Trace ---------------------------------
(* W3C trace contexts: the traceparent header, and what happens to a context on   *)
(* its way: children, sampling decisions and hops over the wire.                  *)
EXTENDS Text
DASH == 45
Fields(t) == SplitOn(t, DASH)
IsHex(t) == t # <<>> /\ All(t, IsHexDigit)
Zeros(n) == [i \in 1..n |-> 48]
\* a hexadecimal number at its full width
Unzero(t) == LET i == FindFrom(t, 1, LAMBDA x : x # 48) IN Drop(t, i - 1)
Wide(t, n) == PadLeft(Unzero(Lower(t)), n, 48)
Fits(t, n) == IsHex(t) /\ Len(Unzero(t)) <= n
Width == << 2, 32, 16, 2 >>
OddHex == {49, 51, 53, 55, 57, 98, 100, 102}
SetBit(f, on) == << f[1], LET x == HexVal(f[2])  y == x - (x % 2) + (IF on THEN 1 ELSE 0) IN IF y < 10 THEN 48 + y ELSE 87 + y >>
\* a context: version, trace id and flags at full width, and the number its own and its parent's id
\* go by in this history: 1, 2, ... in the order the contexts appeared, << >> for none, or the text it was read from
Ctx(v, t, p, f, i) == [v |-> v, t |-> t, p |-> p, f |-> f, i |-> i]
\* exact: the header is well-formed; loose: whether it is accepted is left open
Loose(t) ==
  LET fs == Fields(t) IN
  \/ TrimWS(t) # t
  \/ Len(fs) > 4 /\ Unzero(fs[1]) = <<>>
  \/ \E k \in 1..4 : Len(fs[k]) > Width[k]
  \/ Lower(t) # t
  \/ Wide(fs[1], 2) = S("ff") \/ Unzero(fs[2]) = <<>> \/ Unzero(fs[3]) = <<>>
Malformed(t) == LET fs == Fields(TrimWS(t)) IN Len(fs) < 4 \/ \E k \in 1..4 : ~Fits(fs[k], Width[k])
FirstCtx(t) == LET fs == Fields(TrimWS(t)) IN Ctx(Wide(fs[1], 2), << "h", Wide(fs[2], 32) >>, << "h", Wide(fs[3], 16) >>, Wide(fs[4], 2), 1)
NewCtx == Ctx(S("00"), << "own" >>, <<>>, S("01"), 1)
\* n: how many contexts have appeared so far
Step(x, n, o) == CASE o = "child" -> Ctx(x.v, x.t, << "n", x.i >>, x.f, n + 1)
                   [] o = "wire" -> Ctx(x.v, x.t, << "n", x.i >>, x.f, n + 1)
                   [] o = "on" -> [x EXCEPT !.f = SetBit(@, TRUE)]
                   [] o = "off" -> [x EXCEPT !.f = SetBit(@, FALSE)]
\* what a context shows: its parts, and the text it is written as with its own id left out
Shown(x) == [v |-> x.v, t |-> x.t, p |-> x.p, i |-> x.i, on |-> x.f[2] \in OddHex, w |-> << x.v, x.f >>]
Run(x0, ops) == FoldLeft(LAMBDA acc, o : LET y == Step(Last(acc.xs), acc.n, o) IN [xs |-> Append(acc.xs, y), n |-> IF o \in {"child", "wire"} THEN acc.n + 1 ELSE acc.n], [xs |-> << x0 >>, n |-> 1], ops).xs
View(x0, ops) == MapSeq(Run(x0, ops), Shown)
Expected(rec) ==
  LET in == rec.in IN
  CASE in.start = "new" -> Ok(View(NewCtx, in.ops))
    [] in.vals = <<>> -> None
    [] Len(in.vals) > 1 -> DontCare
    [] Malformed(in.vals[1]) -> Err(400)
    [] Loose(TrimWS(in.vals[1])) \/ Loose(in.vals[1]) -> Maybe(View(FirstCtx(in.vals[1]), in.ops))
    [] OTHER -> Ok(View(FirstCtx(in.vals[1]), in.ops))
--------------------------------------------------------------------------------
CONSTANTS NOps, NPieces
VARIABLE cs
Start == [op |-> "none", in |-> [start |-> "new", vals |-> <<>>, ops |-> <<>>]]
Strings(A, n) == UNION {[1..k -> A] : k \in 0..n}
Go(st, vals, ops) == cs' = [op |-> "trace", in |-> [start |-> st, vals |-> vals, ops |-> ops]]
Ops == {"child", "wire", "on", "off"}
Full == S("00-0af7651916cd43dd8448eb211c80319c-b7ad6b7169203331-01")
Byte == {S("00"), S("01"), S("0"), S("1"), S("ff"), S("fe"), S("80"), S("a2"), S("")  , S("+1"), S("-1"), S("g0"), S("100"), S("001"), S("FF"), S("0x"), S(" 1")}
Long == {S("1"), S("0"), S(""), S("+1"), S("deadbeef"), S("DEADBEEF"), S("0123456789abcdef"), S("ffffffffffffffff"), S("8000000000000000"), S("10000000000000000"), S("ffffffffffffffffffffffffffffffff"), S("100000000000000000000000000000000"),
         S("000000000000000000000000000000001"), S("0000000000000000000000000000000f"), S("x"), S("1 ")}
Pieces == {S("00"), S("-"), S("1"), S("ab"), S("+"), S(" "), S("z")}
Init == cs = Start
Next ==
  /\ cs = Start
  /\ \/ \E ops \in Strings(Ops, NOps) : Go("new", <<>>, ops) \/ Go("read", << Full >>, ops) \/ Go("read", << S("fe-1-2-fe-x") >>, ops)
     \/ Go("read", <<>>, <<>>) \/ Go("read", << Full, Full >>, <<>>)
     \/ \E v \in Byte, f \in Byte : Go("read", << v \o S("-1-2-") \o f >>, << "wire", "on", "off" >>)
     \/ \E t \in Long, p \in Long : Go("read", << S("00-") \o t \o S("-") \o p \o S("-01") >>, << "wire", "child" >>)
     \/ \E v \in 0..255, k \in 0..1 : LET x == << S("0123456789abcdef")[1 + (v \div 16)], S("0123456789abcdef")[1 + (v % 16)] >> IN Go("read", << IF k = 0 THEN x \o S("-1-2-00") ELSE S("00-1-2-") \o x >>, << "off", "wire", "on", "wire" >>)
     \/ \E i \in 0..Len(Full), x \in {"", "-", "+", "g", "0", "F", " "} : Go("read", << Take(Full, i) \o S(x) \o Drop(Full, i) >>, << "wire" >>) \/ Go("read", << Take(Full, i) \o S(x) \o Drop(Full, i + 1) >>, << "wire" >>) \/ Go("read", << Take(Full, i) \o S(x) >>, <<>>)
     \/ \E q \in Strings(Pieces, NPieces) : Go("read", << Flatten(q) >>, <<>>)
Emit == PrintT(ToJson([op |-> cs'.op, in |-> cs'.in, exp |-> Expected(cs')]))
\* version, trace and flags other than the sampling bit never change; ids are fresh exactly for children and hops
Propagates == LET xs == Run(NewCtx, cs.in.ops) IN
  /\ \A k \in 1..Len(xs) : xs[k].v = xs[1].v /\ xs[k].t = xs[1].t /\ xs[k].f[1] = xs[1].f[1]
  /\ \A k \in 2..Len(xs) : IF cs.in.ops[k - 1] \in {"child", "wire"} THEN xs[k].i > xs[k - 1].i /\ xs[k].p = << "n", xs[k - 1].i >> /\ xs[k].f = xs[k - 1].f ELSE xs[k].i = xs[k - 1].i /\ xs[k].p = xs[k - 1].p
=============================================================================
