------------------------------- MODULE Errors -------------------------------
(* Error values: where they come from, the status they carry, what of the    *)
(* wrapped error stays visible, and how results and options are given one.   *)
EXTENDS Registry
CONSTANTS Sts, Msgs
VARIABLES s, op
\* src: what is wrapped.  my: a type with a source, io: std::io::Error, text: a message, ctx: my behind an anyhow context,
\* any: my behind anyhow::Error
Srcs == {"my", "io", "text", "ctx", "any"}
Holds(src, t) == CASE t = "my" -> src \in {"my", "ctx", "any"} [] t = "io" -> src = "io" [] OTHER -> FALSE
Tn(src) == IF src \in {"my", "io"} THEN src ELSE "other"
\* the display of the error followed by those of its sources
Chain(src, m) == CASE src \in {"my", "any"} -> << m, "root" >> [] src = "ctx" -> << "ctx", m, "root" >> [] OTHER -> << m >>
Gone == [fresh |-> 0, src |-> "", st |-> 0, m |-> "", tn |-> ""]
InitFrom(i) == [fresh |-> 1, src |-> "", st |-> 0, m |-> "", tn |-> ""]
E0(src, n, m) == [fresh |-> 0, src |-> src, st |-> n, m |-> m, tn |-> Tn(src)]
Pan == [k |-> "panics"]
Known(n) == n \in StatusNums
Live(st) == st.src # ""
\* an operation making a new error with status n
Make(st, src, n, m) == IF Known(n) THEN [s |-> E0(src, n, m), r |-> Unit] ELSE [s |-> st, r |-> Pan]
Passed(v, ev) == Ok([v |-> v, evals |-> ev])
Failed(n) == [k |-> "failed", evals |-> n]
Apply(st0, o) ==
  LET st == [st0 EXCEPT !.fresh = 0] IN
  CASE o.n = "new" -> Make(st, o.src, o.c, o.m)
    [] o.n = "from" -> Make(st, o.src, 500, o.m)
    [] o.n \in {"display", "fmt"} -> Make(st, "text", 500, o.m)
    [] o.n = "debugs" -> Make(st, "text", 500, "Some((\"" \o o.m \o "\", 1))")
    [] o.n = "debug" -> Make(st, "text", 500, "\"" \o o.m \o "\"")
    [] o.n = "fmtargs" -> Make(st, "text", 500, o.m \o "-7")
    [] o.n \in {"fmtst", "fmtstexpr"} -> Make(st, "text", o.c, o.m)
    [] o.n = "fmtstargs" -> Make(st, "text", o.c, o.m \o "-7")
    \* assertion macros: return early with a fresh error exactly when the condition fails
    [] o.n \in {"ensure", "ensureeq", "bail"} ->
         LET m == CASE o.form = "args" -> o.m \o "-7" [] OTHER -> o.m
             c == IF o.c = 0 THEN 500 ELSE o.c IN
         IF o.hold /\ o.n # "bail" THEN [s |-> Gone, r |-> Ok(1)]
         ELSE IF Known(c) THEN [s |-> E0("text", c, m), r |-> Ok(0)] ELSE [s |-> Gone, r |-> Pan]
    \* a result or an option given a status; q: what it is
    [] o.n = "attach" ->
         LET ev == IF o.lazy THEN 1 ELSE 0 IN
         IF o.q \in {"okres", "okerr", "some"} THEN [s |-> Gone, r |-> Passed(o.m, 0)]
         ELSE IF ~Known(o.c) THEN [s |-> Gone, r |-> Pan]
         ELSE IF o.q = "none" THEN [s |-> E0("text", o.c, "NoneError"), r |-> Failed(ev)]
         ELSE IF o.q = "held" THEN [s |-> IF Live(st) THEN [st EXCEPT !.st = o.c] ELSE Gone, r |-> IF Live(st) THEN Failed(ev) ELSE None]
         ELSE [s |-> E0(o.q, o.c, o.m), r |-> Failed(ev)]
    [] o.n \in {"set", "mut"} ->
         IF ~Live(st) THEN [s |-> st, r |-> None]
         ELSE IF ~Known(o.c) THEN [s |-> st, r |-> Pan]
         ELSE [s |-> [st EXCEPT !.st = o.c], r |-> Unit]
    [] o.n = "downcast" ->
         IF ~Live(st) THEN [s |-> st, r |-> None]
         ELSE IF Holds(st.src, o.ty) THEN [s |-> Gone, r |-> Ok(st.m)] ELSE [s |-> st, r |-> Err(st.st)]
    [] o.n = "mutate" ->
         IF ~Live(st) \/ ~Holds(st.src, "my") THEN [s |-> st, r |-> None] ELSE [s |-> [st EXCEPT !.m = o.m], r |-> Ok(st.m)]
    [] o.n = "inner" -> IF Live(st) THEN [s |-> Gone, r |-> Ok(Chain(st.src, st.m))] ELSE [s |-> st, r |-> None]
    [] o.n = "boxed" -> IF Live(st) THEN [s |-> Gone, r |-> Ok(Chain(st.src, st.m))] ELSE [s |-> st, r |-> None]
Proj(st) == IF ~Live(st) THEN << >>
            ELSE << [st |-> st.st, chain |-> Chain(st.src, st.m), tn |-> st.tn,
                     refs |-> [my |-> IF Holds(st.src, "my") THEN <<st.m>> ELSE <<>>, io |-> IF Holds(st.src, "io") THEN <<st.m>> ELSE <<>>]] >>
NoOp == [o |-> [n |-> "init"], r |-> Unit]
Forms == {"lit", "expr", "args"}
MLit == "lit message"     \* the message the literal forms spell
Ops == {[n |-> "new", src |-> x, c |-> k, m |-> m] : x \in Srcs, k \in Sts, m \in Msgs}
  \cup {[n |-> "from", src |-> x, m |-> m] : x \in Srcs \ {"text"}, m \in Msgs}
  \cup {[n |-> x, m |-> m] : x \in {"display", "debug", "debugs", "fmtargs"}, m \in Msgs}
  \cup {[n |-> "fmt", m |-> MLit], [n |-> "fmt", m |-> "m1"]}
  \cup {[n |-> "fmtst", c |-> k, m |-> MLit] : k \in {418, 503, 600}}
  \cup {[n |-> x, c |-> k, m |-> m] : x \in {"fmtstexpr", "fmtstargs"}, k \in {418, 503, 600}, m \in Msgs}
  \cup {[n |-> x, c |-> k, form |-> f, m |-> IF f = "lit" THEN MLit ELSE m, hold |-> h] :
          x \in {"ensure", "ensureeq", "bail"}, k \in {0, 418, 503, 600}, f \in Forms, m \in Msgs, h \in BOOLEAN}
  \cup {[n |-> "attach", q |-> q, c |-> k, m |-> m, lazy |-> z] : q \in {"okres", "okerr", "some", "none", "held", "my", "io"}, k \in Sts, m \in Msgs, z \in BOOLEAN}
  \cup {[n |-> x, c |-> k] : x \in {"set", "mut"}, k \in Sts}
  \cup {[n |-> "downcast", ty |-> t] : t \in {"my", "io", "other"}}
  \cup {[n |-> "mutate", m |-> m] : m \in Msgs} \cup {[n |-> "inner"], [n |-> "boxed"]}
EInit == s = InitFrom([x |-> 0]) /\ op = NoOp /\ cs = Start
ENext == (\E o \in Ops : LET a == Apply(s, o) IN s' = a.s /\ op' = [o |-> o, r |-> a.r]) /\ UNCHANGED cs
vars == << s, op, cs >>
View == s
EEmit == PrintT(ToJson([f |-> s, t |-> s', o |-> op'.o, r |-> op'.r, p |-> Proj(s')]))
\* only an operation that names a status changes the status of a held error
StatusFrame == [][Live(s) /\ Live(s') /\ op'.o.n \in {"mutate", "downcast"} => s'.st = s.st]_vars
Kept == [][Live(s) /\ op'.o.n \in {"set", "mut"} => s'.m = s.m /\ s'.src = s.src /\ s'.tn = s.tn]_vars
AlwaysKnown == Live(s) => Known(s.st)
=============================================================================
