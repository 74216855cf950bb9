------------------------------ MODULE Headers -------------------------------
(* A header collection: an ordered multimap under case-insensitive names.    *)
EXTENDS Text
CONSTANTS Keys, Spellings, Values, MaxLen
VARIABLES s, op

\* the spellings used by the model, and the names they denote
Key(n) == Str(Lower(S(n)))
Empty == [fresh |-> 1, kind |-> "req", m |-> [k \in {} |-> <<>>]]
Has(m, k) == k \in DOMAIN m
Get(m, k) == IF Has(m, k) THEN m[k] ELSE <<>>
Put(m, k, vs) == IF vs = <<>> THEN [x \in DOMAIN m \ {k} |-> m[x]]
                 ELSE [x \in DOMAIN m \cup {k} |-> IF x = k THEN vs ELSE m[x]]
List(m, k) == IF Has(m, k) THEN Ok(m[k]) ELSE None

SortedKeys(m) == SetToSortSeq(DOMAIN m, LAMBDA a, b : LexLT(S(a), S(b)))
Drained(m) == [k |-> "pairs", v |-> MapSeq(SortedKeys(m), LAMBDA x : [h |-> x, vs |-> m[x]]), hints |-> TRUE]
Apply(st0, o) ==
  LET st == [st0 EXCEPT !.fresh = 0]
      m == st.m
      k == IF "h" \in DOMAIN o THEN Key(o.h) ELSE ""
      Res(x, r) == [s |-> [st EXCEPT !.m = x], r |-> r] IN
  CASE o.n = "ins" -> Res(Put(m, k, o.vs), List(m, k))
    [] o.n = "insbad" -> Res(m, Err(0))
    [] o.n = "app" -> Res(Put(m, k, Get(m, k) \o o.vs), Unit)
    [] o.n = "appbad" -> Res(m, Err(0))
    [] o.n = "rm" -> Res(Put(m, k, <<>>), List(m, k))
    [] o.n = "get" -> Res(m, IF Has(m, k) THEN [k |-> "vals", v |-> m[k], first |-> m[k][1], last |-> Last(m[k])] ELSE None)
    [] o.n = "index" -> Res(m, IF Has(m, k) THEN Ok(m[k]) ELSE [k |-> "panics"])
    [] o.n = "push" -> \* onto the list itself, moving the values: the result is how many stay behind
         Res(IF Has(m, k) THEN Put(m, k, m[k] \o o.vs) ELSE m, Ok(IF Has(m, k) THEN 0 ELSE Len(o.vs)))
    [] o.n = "edit" -> \* replace the i-th value in place, if there is one
         Res(IF o.i <= Len(Get(m, k)) THEN Put(m, k, [m[k] EXCEPT ![o.i] = o.v]) ELSE m, Unit)
    [] o.n = "editall" -> \* through the mutable iterator: every name's first value
         Res([x \in DOMAIN m |-> [m[x] EXCEPT ![1] = o.v]], Unit)
    [] o.n = "copy" -> \* append one name's values to another, by reference
         Res(Put(m, Key(o.to), Get(m, Key(o.to)) \o Get(m, k)), Unit)
    [] o.n = "contains" -> Res(m, Ok(\E i \in 1..Len(Get(m, k)) : m[k][i] = o.v))
    [] o.n = "many" -> \* inserted one after the other: names that differ in a number
         LET ks == {o.pre \o ToString(i) : i \in o.from..o.to} IN
         Res([x \in DOMAIN m \cup ks |-> IF x \in ks THEN o.vs ELSE m[x]], Unit)
    [] o.n = "drain" -> \* consumed by its owning iterator, element by element
         Res([x \in {} |-> <<>>], Drained(m))

\* The projection is what every way of looking at the collection shows.
Total(m) == FoldLeft(LAMBDA acc, x : acc + Len(m[x]), 0, SortedKeys(m))
Proj(st) == LET ks == SortedKeys(st.m) IN
  [pairs |-> MapSeq(ks, LAMBDA x : [h |-> x, vs |-> st.m[x]]), names |-> ks, nvals |-> Total(st.m), hints |-> TRUE, agree |-> TRUE]

--------------------------------------------------------------------------------
InitFrom(i) == [Empty EXCEPT !.kind = i.kind]
NoOp == [o |-> [n |-> "init"], r |-> Unit]
Lists == {<<>>} \cup {<< v >> : v \in Values} \cup {<< v, w >> : v, w \in Values}
Ops == {[n |-> x, h |-> h, vs |-> vs] : x \in {"ins", "app"}, h \in Spellings, vs \in Lists}
       \cup {[n |-> "push", h |-> h, vs |-> vs] : h \in Spellings, vs \in Lists}
       \cup {[n |-> x, h |-> h] : x \in {"insbad", "appbad", "rm", "get", "index"}, h \in Spellings}
       \cup {[n |-> "edit", h |-> h, i |-> i, v |-> v] : h \in Spellings, i \in {1, 2}, v \in Values}
       \cup {[n |-> "editall", v |-> v] : v \in Values}
       \cup {[n |-> "contains", h |-> h, v |-> v] : h \in Spellings, v \in Values}
       \cup {[n |-> "drain"]}
       \cup {[n |-> "copy", h |-> h, to |-> g] : h, g \in Spellings}
Init == \E k \in {"req", "res", "trailers", "headers"} : s = InitFrom([kind |-> k]) /\ op = NoOp
Next == \E o \in Ops : LET a == Apply(s, o) IN s' = a.s /\ op' = [o |-> o, r |-> a.r]
vars == << s, op >>
View == s
Bound == \A k \in DOMAIN s.m : Len(s.m[k]) <= MaxLen
Emit == Bound' /\ PrintT(ToJson([f |-> s, t |-> s', o |-> op'.o, r |-> op'.r, p |-> Proj(s')]))

\* laws
Writes == {"ins", "app", "push", "rm", "edit"}
NonEmpty == \A k \in DOMAIN s.m : Len(s.m[k]) > 0
Frame == [][op'.o.n \in Writes => \A k \in (DOMAIN s.m \cup DOMAIN s'.m) \ {Key(op'.o.h)} : Get(s'.m, k) = Get(s.m, k)]_vars
AppendKeeps == [][op'.o.n \in {"app", "push"} => StartsWith(Get(s'.m, Key(op'.o.h)), Get(s.m, Key(op'.o.h)))]_vars
FailedKeeps == [][op'.r.k = "err" => s'.m = s.m]_vars
ReadKeeps == [][op'.o.n \in {"get", "index", "contains"} => s'.m = s.m]_vars
InsertReturns == [][op'.o.n \in {"ins", "rm"} => (op'.r = List(s.m, Key(op'.o.h)))]_vars
=============================================================================
