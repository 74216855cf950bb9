-------------------------------- MODULE Ext ---------------------------------
(* Typed extensions: at most one value per type.                             *)
EXTENDS Text
CONSTANTS Vals, Types
VARIABLES s, op
\* among them two different types of the same name, the same type behind several pointers, and a family of instances of one generic type
Universe == {"i32", "u32", "string", "tag", "unit", "boxed", "vec", "twina", "twinb", "sref", "opt", "arc", "dyn", "fn", "json", "name",
             "g0", "g1", "g2", "g3", "g4", "g5", "g6", "g7", "g8", "g9", "g10", "g11", "g12", "g13", "g14", "g15"}
None0 == <<>>
InitFrom(i) == [fresh |-> 1, kind |-> i.kind, m |-> [t \in Universe |-> None0]]
Out(v) == IF v = None0 THEN None ELSE Ok(v[1])
\* the only value of the unit type; the two functions used as values
Norm(t, v) == CASE t = "unit" -> 0 [] t = "fn" -> v % 2 [] OTHER -> v
Apply(st0, o) ==
  LET st == [st0 EXCEPT !.fresh = 0]  t == IF "t" \in DOMAIN o THEN o.t ELSE "i32"  cur == st.m[t] IN
  CASE o.n = "insert" -> [s |-> [st EXCEPT !.m[t] = << Norm(t, o.v) >>], r |-> Out(cur)]
    [] o.n = "remove" -> [s |-> [st EXCEPT !.m[t] = None0], r |-> Out(cur)]
    [] o.n = "get" -> [s |-> st, r |-> Out(cur)]
    [] o.n = "contains" -> [s |-> st, r |-> Ok(cur # None0)]
    [] o.n = "mutate" -> [s |-> IF cur = None0 THEN st ELSE [st EXCEPT !.m[t] = << Norm(t, o.v) >>], r |-> Out(cur)]
    [] o.n = "clear" -> [s |-> [st EXCEPT !.m = [x \in DOMAIN st.m |-> None0]], r |-> Unit]
Proj(st) == st.m
NoOp == [o |-> [n |-> "init"], r |-> Unit]
Ops == {[n |-> x, t |-> t, v |-> v] : x \in {"insert", "mutate"}, t \in Types, v \in Vals}
       \cup {[n |-> x, t |-> t] : x \in {"remove", "get", "contains"}, t \in Types} \cup {[n |-> "clear"]}
Init == \E k \in {"ext", "req", "res"} : s = InitFrom([kind |-> k]) /\ op = NoOp
Next == \E o \in Ops : LET a == Apply(s, o) IN s' = a.s /\ op' = [o |-> o, r |-> a.r]
vars == << s, op >>
View == s
Emit == PrintT(ToJson([f |-> s, t |-> s', o |-> op'.o, r |-> op'.r, p |-> Proj(s')]))
Frame == [][op'.o.n # "clear" => \A t \in DOMAIN s.m \ {op'.o.t} : s'.m[t] = s.m[t]]_vars
RemoveInverse == [][op'.o.n = "insert" => s'.m[op'.o.t] # None0]_vars
=============================================================================
