-------------------------------- MODULE Nego --------------------------------
(* Proactive content negotiation: Accept, Accept-Encoding and TE.            *)
(* An entry is [x, w]: what is proposed and its weight in thousandths, << >>  *)
(* when it was declared without one.                                          *)
EXTENDS MimeText
CONSTANTS Kinds, Items, Wts, Avails, MaxLen
VARIABLES s, op
CodingNames(kind) == {S("gzip"), S("deflate"), S("br"), S("zstd"), S("identity")} \cup (IF kind = "te" THEN {S("chunked")} ELSE {})
InitFrom(i) == [fresh |-> 1, kind |-> i.kind, wild |-> FALSE, es |-> <<>>]

\* what a text proposes: << item >>, or << >> when it is none
ItemOf(kind, t) == IF kind = "accept" THEN ParseMime(t) ELSE IF Lower(t) \in CodingNames(kind) THEN << Lower(t) >> ELSE <<>>
Shown(kind, x) == IF kind = "accept" THEN FormatMime(x) ELSE x
\* does the available item v satisfy the proposal x
Fits(kind, v, x) == IF kind = "accept" THEN SubsetEq(v, x) ELSE v = x
Rank(w) == IF w = <<>> THEN 0 ELSE w[1] + 1
Forbids(e) == e.w = << 0 >>
\* i is preferred over j in the list es
Before(es, i, j) == \/ Rank(es[i].w) > Rank(es[j].w)
                    \/ Rank(es[i].w) = Rank(es[j].w) /\ i > j
Sorted(es) == LET Pos(i) == 1 + Cardinality({j \in 1..Len(es) : Before(es, j, i)})
              IN [k \in 1..Len(es) |-> es[CHOOSE i \in 1..Len(es) : Pos(i) = k]]
FirstOf(H) == CHOOSE i \in H : \A j \in H : i <= j
\* the index of the chosen available item, or 0
Choose0(kind, es, wild, av) ==
  LET Good == {i \in 1..Len(es) : ~Forbids(es[i]) /\ \E k \in 1..Len(av) : Fits(kind, av[k], es[i].x)}
      Free == {k \in 1..Len(av) : ~\E i \in 1..Len(es) : Forbids(es[i]) /\ Fits(kind, av[k], es[i].x)} IN
  IF Good # {}
  THEN LET b == CHOOSE i \in Good : \A j \in Good \ {i} : Before(es, i, j)
       IN FirstOf({k \in 1..Len(av) : Fits(kind, av[k], es[b].x)})
  ELSE IF wild /\ Free # {} THEN FirstOf(Free) ELSE 0
\* for codings, a forbidden one is never chosen even if another entry allows it
Pick(kind, es, wild, av) ==
  IF kind = "accept" THEN Choose0(kind, es, wild, av)
  ELSE LET ok == [k \in 1..Len(av) |-> ~\E i \in 1..Len(es) : Forbids(es[i]) /\ es[i].x = av[k]]
           idx == SelectSeq([k \in 1..Len(av) |-> k], LAMBDA k : ok[k])
           r == Choose0(kind, es, wild, [k \in 1..Len(idx) |-> av[idx[k]]])
       IN IF r = 0 THEN 0 ELSE idx[r]

\* RFC 7231 qvalue in thousandths, << >> if malformed
QValue(t) ==
  IF t \in {<<48>>, <<49>>} THEN << 1000 * (t[1] - 48) >>
  ELSE IF Len(t) >= 2 /\ Len(t) <= 5 /\ t[1] \in {48, 49} /\ t[2] = DOT /\ All(Drop(t, 2), IsDigit)
  THEN LET f == NatOf(Drop(t, 2) \o SubSeq(<<48, 48, 48>>, 1, 5 - Len(t)))
       IN IF t[1] = 49 /\ f > 0 THEN <<>> ELSE << 1000 * (t[1] - 48) + f >>
  ELSE <<>>
\* one element of the header: a set-like result [bad, es, wild]
Nothing == [bad |-> FALSE, es |-> <<>>, wild |-> FALSE]
Bad == [Nothing EXCEPT !.bad = TRUE]
One(x, w) == [Nothing EXCEPT !.es = << [x |-> x, w |-> w] >>]
Element(kind, p) ==
  IF p = <<>> THEN Nothing
  ELSE IF p = << STAR >> THEN [Nothing EXCEPT !.wild = TRUE]
  ELSE IF kind = "accept"
  THEN LET m == ParseMime(p) IN
       IF m = <<>> THEN Bad
       ELSE LET q == Param(m[1], S("q")) IN
            IF q = <<>> THEN One(m[1], << 1000 >>)
            ELSE IF QValue(q[1]) = <<>> THEN Bad ELSE One(WithoutParam(m[1], S("q")), QValue(q[1]))
  ELSE LET ps == SplitOn(p, SEMI)  n == Lower(TrimWS(ps[1])) IN
       IF n \notin CodingNames(kind) THEN Nothing
       ELSE IF Len(ps) = 1 THEN One(n, <<>>)
       ELSE LET a == TrimWS(ps[2]) IN
            IF StartsWith(Lower(a), S("q=")) /\ QValue(Drop(a, 2)) # <<>> THEN One(n, QValue(Drop(a, 2))) ELSE Bad
\* a comma inside a quoted parameter value does not end the element
SplitList(v) ==
  LET z == FoldLeft(LAMBDA a, x :
             IF a.esc THEN [a EXCEPT !.esc = FALSE, !.t = Append(@, x)]
             ELSE IF a.q /\ x = BSLASH THEN [a EXCEPT !.esc = TRUE, !.t = Append(@, x)]
             ELSE IF x = DQ THEN [a EXCEPT !.q = ~@, !.t = Append(@, x)]
             ELSE IF x = COMMA /\ ~a.q THEN [a EXCEPT !.out = Append(@, a.t), !.t = <<>>]
             ELSE [a EXCEPT !.t = Append(@, x)], [q |-> FALSE, esc |-> FALSE, t |-> <<>>, out |-> <<>>], v)
  IN Append(z.out, z.t)
ReadAll(kind, vals) ==
  LET parts == Flatten(MapSeq(vals, LAMBDA v : IF kind = "accept" THEN SplitList(v) ELSE SplitOn(v, COMMA)))
  IN FoldLeft(LAMBDA acc, p : LET e == Element(kind, TrimWS(p)) IN
                              [bad |-> acc.bad \/ e.bad, es |-> acc.es \o e.es, wild |-> acc.wild \/ e.wild], Nothing, parts)
Norm(kind, w) == IF kind = "accept" /\ w = <<>> THEN << 1000 >> ELSE w
\* proposals are ordered by weight, one without a weight below any other; two without are left open
Compared(a, b) ==
  IF a = <<>> /\ b = <<>> THEN Sane
  ELSE Ok(IF Rank(a) < Rank(b) THEN "Less" ELSE IF Rank(a) > Rank(b) THEN "Greater" ELSE "Equal")
\* a proposal written by itself: its weight with three decimals
OneText(kind, e) == Shown(kind, e.x) \o (IF e.w = <<>> THEN <<>> ELSE
  LET w == e.w[1] IN S(";q=") \o << 48 + (w \div 1000), DOT, 48 + ((w \div 100) % 10), 48 + ((w \div 10) % 10), 48 + (w % 10) >>)
Apply(st0, o) ==
  LET st == [st0 EXCEPT !.fresh = 0] IN
  CASE o.n = "push" -> LET x == ItemOf(st.kind, o.t)[1] IN [s |-> [st EXCEPT !.es = Append(@, [x |-> x, w |-> IF o.bare THEN <<>> ELSE Norm(st.kind, o.w)])], r |-> Unit]
    [] o.n = "edit" -> LET x == ItemOf(st.kind, o.t)[1] IN
         [s |-> [st EXCEPT !.es[o.i] = IF o.whole THEN [x |-> x, w |-> Norm(st.kind, o.w)] ELSE [@ EXCEPT !.x = x]], r |-> Unit]
    [] o.n = "cmp" -> [s |-> st, r |-> Compared(st.es[o.i].w, st.es[o.j].w)]
    [] o.n = "one" -> [s |-> st, r |-> Ok(OneText(st.kind, st.es[o.i]))]
    [] o.n = "badweight" -> [s |-> st, r |-> Err(0)]
    [] o.n = "wild" -> [s |-> [st EXCEPT !.wild = o.c], r |-> Unit]
    [] o.n = "sort" -> [s |-> [st EXCEPT !.es = Sorted(@)], r |-> Unit]
    [] o.n = "nego" ->
         LET av == [k \in 1..Len(o.av) |-> ItemOf(st.kind, o.av[k])[1]]
             k == Pick(st.kind, st.es, st.wild, av)
         IN [s |-> st, r |-> IF k = 0 THEN Err(406) ELSE Ok(Shown(st.kind, av[k]))]
    [] o.n = "wire" -> [s |-> [st EXCEPT !.es = MapSeq(@, LAMBDA e : [e EXCEPT !.w = Norm(st.kind, e.w)])], r |-> Unit]
    [] o.n = "read" ->
         LET z == ReadAll(st.kind, o.vals) IN
         IF o.vals = <<>> THEN [s |-> st, r |-> None]
         ELSE IF z.bad THEN [s |-> st, r |-> Err(4)]
         ELSE [s |-> [st EXCEPT !.es = z.es, !.wild = z.wild], r |-> Unit]
Proj(st) == [wild |-> st.wild, es |-> MapSeq(st.es, LAMBDA e : [x |-> Shown(st.kind, e.x), w |-> e.w])]
NoOp == [o |-> [n |-> "init"], r |-> Unit]
Ops == {[n |-> "push", t |-> t, w |-> w, bare |-> FALSE] : t \in Items, w \in Wts} \cup {[n |-> "wild", c |-> b] : b \in BOOLEAN}
       \cup {[n |-> "sort"], [n |-> "wire"]} \cup {[n |-> "nego", av |-> a] : a \in Avails}
\* what is done to the entries there are
EntryOps(es) == LET I == 1..Len(es) IN
  [n : {"cmp"}, i : I, j : I] \cup [n : {"one"}, i : I] \cup [n : {"edit"}, i : I, t : Items, w : {<<0>>, <<>>}, whole : BOOLEAN]
Init == \E k \in Kinds : s = InitFrom([kind |-> k]) /\ op = NoOp
Next == \E o \in Ops \cup EntryOps(s.es) : /\ (o.n = "push" => Len(s.es) < MaxLen)
                       /\ LET a == Apply(s, o) IN s' = a.s /\ op' = [o |-> o, r |-> a.r]
vars == << s, op >>
View == s
Emit == PrintT(ToJson([f |-> s, t |-> s', o |-> op'.o, r |-> op'.r, p |-> Proj(s')]))
\* laws of the specification itself
SortKeeps == LET z == Sorted(s.es) IN Len(z) = Len(s.es) /\ \A i \in 1..Len(z) : Cardinality({j \in 1..Len(z) : z[j] = z[i]}) = Cardinality({j \in 1..Len(z) : s.es[j] = z[i]})
NeverForbidden == [][op'.o.n = "nego" /\ op'.r.k = "ok" /\ s.kind # "accept" => ~\E i \in 1..Len(s.es) : s.es[i].x = op'.r.v /\ s.es[i].w = <<0>>]_vars
\* writing an entry and reading it gives it back, and sorting agrees with the order of proposals
OneReads == \A i \in 1..Len(s.es) : LET z == Element(s.kind, OneText(s.kind, s.es[i])) IN ~z.bad /\ z.es = << [s.es[i] EXCEPT !.w = Norm(s.kind, @)] >>
SortOrders == LET z == Sorted(s.es) IN \A i \in 2..Len(z) : Compared(z[i].w, z[i-1].w) # Ok("Greater")
NegoPure == [][op'.o.n = "nego" => s'.es = s.es /\ s'.wild = s.wild]_vars
MItems == {S("text/html"), S("text/*"), S("*/*;a=1"), S("a/b;c=\"x, y\"")}
MAvail == {S("text/html"), S("text/plain;a=1"), S("a/b;A=1")}
EItems == {S("gzip"), S("br"), S("identity")}
EAvail == EItems \cup {S("zstd")}
Seqs2(A) == UNION {[1..k -> A] : k \in 0..2}
MAvails == Seqs2(MAvail)
EAvails == Seqs2(EAvail)
MWts == {<<0>>, <<500>>, <<>>}
EWts == {<<0>>, <<500>>, <<>>}
=============================================================================
