------------------------------ MODULE Policy ------------------------------
(* Content security policies and the helpers that set security headers, acting on   *)
(* two messages.  A policy is [d: directive -> sources in order, fl: directives      *)
(* without sources, rp: reporting endpoints, ro: report only].                       *)
EXTENDS Text
CONSTANTS Depth, OpSet
VARIABLES s, op
Dirs == {"base-uri", "connect-src", "default-src", "font-src", "form-action", "frame-ancestors", "frame-src", "img-src", "media-src", "object-src", "plugin-types",
         "report-uri", "require-sri-for", "sandbox", "script-src", "style-src", "worker-src"}
HeaderNames == << "content-security-policy", "content-security-policy-report-only", "referrer-policy", "server", "set-cookie", "strict-transport-security", "via", "x-content-type-options",
   "x-dns-prefetch-control", "x-frame-options", "x-other", "x-powered-by", "x-xss-protection" >>
NameSet == ToSet(HeaderNames)
SourceText(e) == CASE e = "SameOrigin" -> "'self'" [] e = "Src" -> "'src'" [] e = "None" -> "'none'" [] e = "UnsafeInline" -> "'unsafe-inline'" [] e = "Data" -> "data:"
   [] e = "Mediastream" -> "mediastream:" [] e = "Https" -> "https:" [] e = "Blob" -> "blob:" [] e = "Filesystem" -> "filesystem:" [] e = "StrictDynamic" -> "'strict-dynamic'"
   [] e = "UnsafeEval" -> "'unsafe-eval'" [] e = "Wildcard" -> "*"
ReferrerText(e) == CASE e \in {"default", "NoReferrer"} -> "no-referrer" [] e = "NoReferrerDowngrade" -> "no-referrer-when-downgrade" [] e = "SameOrigin" -> "same-origin" [] e = "Origin" -> "origin"
   [] e = "StrictOrigin" -> "strict-origin" [] e = "CrossOrigin" -> "origin-when-cross-origin" [] e = "StrictCrossOrigin" -> "strict-origin-when-cross-origin" [] e = "UnsafeUrl" -> "unsafe-url"
Empty == [d |-> [x \in Dirs |-> <<>>], fl |-> {}, rp |-> <<>>, ro |-> FALSE]
DefaultPolicy == [Empty EXCEPT !.d["script-src"] = << S("'self'") >>, !.d["object-src"] = << S("'self'") >>]
LT(a, b) == LexLT(a, b)
\* every directive once, in alphabetical order, its sources in the order they were added
PolicyText(p) ==
  LET ds == {S(x) \o S(" ") \o JoinWith(p.d[x], S(" ")) : x \in {y \in Dirs : p.d[y] # <<>>}} \cup {S(x) : x \in p.fl} \cup {S("report-to ") \o t : t \in ToSet(p.rp)} IN
  JoinWith(SetToSortSeq(ds, LT), S("; "))
Bare == [x \in NameSet |-> <<>>]
InitFrom(i) == [fresh |-> 1, cnt |-> 0, kind |-> i.kind, pol |-> i.pol, p |-> IF i.pol = "default" THEN DefaultPolicy ELSE Empty, h |-> << Bare, Bare >>]
Set(st, m, n, v) == [st EXCEPT !.h[m] = [@ EXCEPT ![n] = << v >>]]
Helper(st, o) ==
  CASE o.n = "dns" -> Set(st, o.m, "x-dns-prefetch-control", S("on"))
    [] o.n = "nosniff" -> Set(st, o.m, "x-content-type-options", S("nosniff"))
    [] o.n = "frame" -> Set(st, o.m, "x-frame-options", IF o.g = "Deny" THEN S("deny") ELSE S("sameorigin"))
    [] o.n = "powered" -> Set(st, o.m, "x-powered-by", o.v)
    [] o.n = "unpowered" -> [st EXCEPT !.h[o.m] = [@ EXCEPT !["x-powered-by"] = <<>>]]
    [] o.n = "hsts" -> Set(st, o.m, "strict-transport-security", S("max-age=5184000"))
    [] o.n = "xss" -> Set(st, o.m, "x-xss-protection", S("1; mode=block"))
    [] o.n = "referrer" -> [st EXCEPT !.h[o.m] = [@ EXCEPT !["referrer-policy"] = Append(@, S(ReferrerText(o.g)))]]
Apply(st0, o) ==
  LET st == [st0 EXCEPT !.fresh = 0, !.cnt = @ + 1]  p == st.p IN
  [r |-> Unit, s |->
   CASE o.n = "src" -> [st EXCEPT !.p.d = [@ EXCEPT ![o.d] = Append(@, o.v)]]
     [] o.n = "enum" -> [st EXCEPT !.p.d = [@ EXCEPT ![o.d] = Append(@, S(SourceText(o.e)))]]
     [] o.n = "flag" -> [st EXCEPT !.p.fl = @ \cup {o.f}]
     [] o.n = "reportto" -> [st EXCEPT !.p.rp = Append(@, o.v)]
     [] o.n = "reportonly" -> [st EXCEPT !.p.ro = TRUE]
     [] o.n = "clone" -> st
     [] o.n = "apply" -> Set(st, o.m, IF p.ro THEN "content-security-policy-report-only" ELSE "content-security-policy", PolicyText(p))
     [] o.n = "set" -> Set(st, o.m, o.h, o.v)
     [] o.n = "add" -> [st EXCEPT !.h[o.m] = [@ EXCEPT ![o.h] = Append(@, o.v)]]
     [] o.n = "default" -> LET F(x, k) == Helper(x, [n |-> k, m |-> o.m, g |-> "default"]) IN FoldLeft(F, st, << "dns", "nosniff", "frame", "unpowered", "hsts", "xss" >>)
     [] OTHER -> Helper(st, o)]
Proj(st) == [m \in 1..2 |-> MapSeq(SelectSeq(HeaderNames, LAMBDA x : st.h[m][x] # <<>>), LAMBDA x : [h |-> x, vs |-> st.h[m][x]])]
--------------------------------------------------------------------------------
NoOp == [o |-> [n |-> "init"], r |-> Unit]
Srcs == {S("a"), S("'self'")}
Json0 == S("{\"group\":\"g\",\"max_age\":5,\"endpoints\":[{\"url\":\"u\"}]}")
PolicyOps == [n : {"src"}, d : {"script-src", "img-src", "object-src"}, v : Srcs] \cup [n : {"enum"}, d : {"base-uri"}, e : {"None", "Wildcard"}]
   \cup [n : {"flag"}, f : {"block-all-mixed-content", "upgrade-insecure-requests"}] \cup {[n |-> "reportonly"], [n |-> "clone"], [n |-> "reportto", v |-> Json0]} \cup [n : {"apply"}, m : 1..2]
   \cup {[n |-> "set", m |-> 1, h |-> "content-security-policy", v |-> S("old")]}
SweepOps == [n : {"src"}, d : Dirs, v : {S("a")}] \cup [n : {"enum"}, d : {"script-src"}, e : {"SameOrigin", "Src", "None", "UnsafeInline", "Data", "Mediastream", "Https", "Blob", "Filesystem", "StrictDynamic", "UnsafeEval", "Wildcard"}] \cup [n : {"apply"}, m : {1}]
HelperOps == [n : {"dns", "nosniff", "unpowered", "hsts", "xss", "default"}, m : {1}] \cup [n : {"frame"}, m : {1}, g : {"default", "SameOrigin", "Deny"}]
   \cup [n : {"referrer"}, m : {1}, g : {"default", "NoReferrer", "NoReferrerDowngrade", "SameOrigin", "Origin", "StrictOrigin", "CrossOrigin", "StrictCrossOrigin", "UnsafeUrl"}]
   \cup [n : {"powered"}, m : {1}, v : {S("PHP/4")}] \cup [n : {"set", "add"}, m : {1}, h : NameSet, v : {S("old")}]
Ops == CASE OpSet = "policy" -> PolicyOps [] OpSet = "sweep" -> SweepOps [] OTHER -> HelperOps
Init == \E k \in {"req", "res", "hdr"}, p \in (IF OpSet = "helpers" THEN {"new"} ELSE {"new", "default"}) : s = InitFrom([kind |-> k, pol |-> p]) /\ op = NoOp
Next == s.cnt < (IF s.kind = "res" THEN Depth ELSE Depth - 1) /\ \E o \in Ops : LET a == Apply(s, o) IN s' = a.s /\ op' = [o |-> o, r |-> a.r]
vars == << s, op >>
View == s
Emit == PrintT(ToJson([f |-> s, t |-> s', o |-> op'.o, r |-> op'.r, p |-> Proj(s')]))
\* only applying changes a message, only the named message, and only headers it may set
Frame == [][\A m \in 1..2 : s'.h[m] # s.h[m] => "m" \in DOMAIN op'.o /\ op'.o.m = m]_vars
ApplyFrame == [][op'.o.n = "apply" => \A x \in NameSet \ {"content-security-policy", "content-security-policy-report-only"} : s'.h[op'.o.m][x] = s.h[op'.o.m][x]]_vars
\* applying changes nothing about the policy, so applying again gives the same header
Repeatable == [][op'.o.n = "apply" => s'.p = s.p /\ Apply(s', op'.o).s.h = s'.h]_vars
\* each directive appears once
Once == LET names == MapSeq(SplitOn(PolicyText([s.p EXCEPT !.rp = <<>>]), SEMI), LAMBDA t : SplitOnce(Trim(t, IsOWS), SP)[1]) IN Cardinality(ToSet(names)) = Len(names)
=============================================================================
