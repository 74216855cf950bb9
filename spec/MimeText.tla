------------------------------ MODULE MimeText ------------------------------
(* Media types: the WHATWG MIME sniffing parser and serialiser, parameter     *)
(* lookup and range matching.                                                 *)
EXTENDS Text
HttpWs(x) == x \in {9, 10, 13, 32}
QuotedPoint(x) == x = 9 \/ x \in 32..126 \/ x \in 128..255
IndexIn(tx, from, set) == FindFrom(tx, from, LAMBDA x : x \in set)

\* "collect an HTTP quoted string" from just after the opening quote: << value, index of the next code point >>
RECURSIVE Quoted(_, _, _)
Quoted(tx, i, acc) ==
  IF i > Len(tx) THEN << acc, i >>
  ELSE IF tx[i] = DQ THEN << acc, i + 1 >>
  ELSE IF tx[i] = BSLASH THEN IF i = Len(tx) THEN << Append(acc, BSLASH), i + 1 >> ELSE Quoted(tx, i + 2, Append(acc, tx[i + 1]))
  ELSE Quoted(tx, i + 1, Append(acc, tx[i]))

HasName(ps, n) == \E i \in 1..Len(ps) : ps[i][1] = n
\* add a parameter unless it is ill-formed or a duplicate
AddParam(ps, n, v) ==
  IF n # <<>> /\ All(n, IsTChar) /\ All(v, QuotedPoint) /\ ~HasName(ps, n) THEN Append(ps, << n, v >>) ELSE ps
\* parameters from index i, which holds a ';' (or is past the end)
RECURSIVE Params(_, _, _)
Params(tx, i, ps) ==
  IF i > Len(tx) THEN ps
  ELSE LET j == FindFrom(tx, i + 1, LAMBDA x : ~HttpWs(x))          \* past the ';' and white space
           e == IndexIn(tx, j, {SEMI, EQ})
           n == Lower(SubSeq(tx, j, e - 1)) IN
       IF e > Len(tx) THEN ps
       ELSE IF tx[e] = SEMI THEN Params(tx, e, ps)
       ELSE IF e < Len(tx) /\ tx[e + 1] = DQ
       THEN LET q == Quoted(tx, e + 2, <<>>) IN Params(tx, IndexIn(tx, q[2], {SEMI}), AddParam(ps, n, q[1]))
       ELSE LET k == IndexIn(tx, e + 1, {SEMI})
                v == TrimR(SubSeq(tx, e + 1, k - 1), HttpWs) IN
            Params(tx, k, IF v = <<>> THEN ps ELSE AddParam(ps, n, v))
\* << >> when the text is not a media type
ParseMime(t0) ==
  LET tx == Trim(t0, HttpWs)
      i == IndexIn(tx, 1, {SLASH})
      base == SubSeq(tx, 1, i - 1)
      k == IndexIn(tx, i + 1, {SEMI})
      sub == TrimR(SubSeq(tx, i + 1, k - 1), HttpWs) IN
  IF i > Len(tx) \/ base = <<>> \/ ~All(base, IsTChar) \/ sub = <<>> \/ ~All(sub, IsTChar) THEN <<>>
  ELSE << [base |-> Lower(base), sub |-> Lower(sub), ps |-> Params(tx, k, <<>>)] >>

Escape(v) == Flatten(MapSeq(v, LAMBDA x : IF x \in {DQ, BSLASH} THEN << BSLASH, x >> ELSE << x >>))
ParamText(p) == << SEMI >> \o p[1] \o << EQ >>
                \o (IF p[2] # <<>> /\ All(p[2], IsTChar) THEN p[2] ELSE << DQ >> \o Escape(p[2]) \o << DQ >>)
Essence(m) == m.base \o << SLASH >> \o m.sub
FormatMime(m) == Essence(m) \o Flatten(MapSeq(m.ps, ParamText))

Param(m, n) == LET H == {i \in 1..Len(m.ps) : m.ps[i][1] = Lower(n)} IN IF H = {} THEN <<>> ELSE << m.ps[CHOOSE i \in H : TRUE][2] >>
WithoutParam(m, n) == [m EXCEPT !.ps = SelectSeq(m.ps, LAMBDA p : p[1] # Lower(n))]
SubsetEq(a, b) == /\ b.base \in {<<STAR>>, a.base}
                  /\ b.sub \in {<<STAR>>, a.sub}
                  /\ \A i \in 1..Len(b.ps) : Param(a, b.ps[i][1]) = << b.ps[i][2] >>
=============================================================================
