------------------------------ MODULE Slots ------------------------------
(* Typed headers in a message: each has one registered name, and writing it leaves   *)
(* exactly one value there.  The constants are the registered names in lower case.   *)
EXTENDS Text
CONSTANTS Depth
VARIABLES s, op
\* each kind of header with its registered name
Table ==
  ("server-timing" :> "server-timing") @@ ("trace" :> "traceparent") @@ ("allow" :> "allow") @@ ("www-authenticate" :> "www-authenticate") @@
  ("basic-auth" :> "authorization") @@ ("authorization" :> "authorization") @@ ("age" :> "age") @@ ("cache-control" :> "cache-control") @@
  ("expires" :> "expires") @@ ("clear-site-data" :> "clear-site-data") @@ ("forwarded" :> "forwarded") @@ ("content-location" :> "content-location") @@
  ("content-encoding" :> "content-encoding") @@ ("content-length" :> "content-length") @@ ("content-type" :> "content-type") @@ ("accept-encoding" :> "accept-encoding") @@
  ("accept" :> "accept") @@ ("retry-after" :> "retry-after") @@ ("date" :> "date") @@ ("expect" :> "expect") @@
  ("sourcemap" :> "sourcemap") @@ ("referer" :> "referer") @@ ("if-unmodified-since" :> "if-unmodified-since") @@ ("if-match" :> "if-match") @@
  ("etag" :> "etag") @@ ("last-modified" :> "last-modified") @@ ("vary" :> "vary") @@ ("if-modified-since" :> "if-modified-since") @@
  ("if-none-match" :> "if-none-match") @@ ("transfer-encoding" :> "transfer-encoding") @@ ("te" :> "te") @@ ("hsts" :> "strict-transport-security") @@
  ("tao" :> "timing-allow-origin") @@ ("pair" :> "x-pair") @@ ("pairsp" :> "x-pair") @@ ("pairempty" :> "x-pair") @@ ("pairup" :> "x-pair") @@ ("lenzero" :> "content-length") @@ ("allownone" :> "allow") @@ ("pairlen" :> "content-length")
Kinds == DOMAIN Table
NameOf(k) == Table[k]
\* the value a header of this kind reports is written here as its kind
ValueOf(k) == k
ConstIds == {"ACCEPT", "ACCEPT_CHARSET", "ACCEPT_ENCODING", "ACCEPT_LANGUAGE", "ACCEPT_RANGES", "ACCESS_CONTROL_ALLOW_CREDENTIALS", "ACCESS_CONTROL_ALLOW_HEADERS", "ACCESS_CONTROL_ALLOW_METHODS", "ACCESS_CONTROL_ALLOW_ORIGIN", "ACCESS_CONTROL_EXPOSE_HEADERS", "ACCESS_CONTROL_MAX_AGE", "ACCESS_CONTROL_REQUEST_HEADERS", "ACCESS_CONTROL_REQUEST_METHOD", "AGE", "ALLOW", "AUTHORIZATION", "CACHE_CONTROL", "CLEAR_SITE_DATA", "CONNECTION", "CONTENT_ENCODING", "CONTENT_LANGUAGE", "CONTENT_LENGTH", "CONTENT_LOCATION", "CONTENT_MD5", "CONTENT_RANGE", "CONTENT_TYPE", "COOKIE", "DATE", "ETAG", "EXPECT", "EXPIRES", "FORWARDED", "FROM", "HOST", "IF_MATCH", "IF_MODIFIED_SINCE", "IF_NONE_MATCH", "IF_RANGE", "IF_UNMODIFIED_SINCE", "LAST_MODIFIED", "LOCATION", "MAX_FORWARDS", "ORIGIN", "PRAGMA", "PROXY_AUTHENTICATE", "PROXY_AUTHORIZATION", "PROXY_CONNECTION", "REFERER", "RETRY_AFTER", "SERVER", "SERVER_TIMING", "SET_COOKIE", "SOURCE_MAP", "STRICT_TRANSPORT_SECURITY", "TE", "TIMING_ALLOW_ORIGIN", "TRACEPARENT", "TRAILER", "TRANSFER_ENCODING", "UPGRADE", "USER_AGENT", "VARY", "VIA", "WARNING", "WWW_AUTHENTICATE"}
\* registered names are the identifiers in lower case with hyphens, but for SourceMap (RFC 9110, SourceMap has no hyphen)
ConstText(id) == IF id = "SOURCE_MAP" THEN S("sourcemap") ELSE MapSeq(Lower(S(id)), LAMBDA x : IF x = 95 THEN MINUS ELSE x)
AllNames == << "accept", "accept-charset", "accept-encoding", "accept-language", "accept-ranges", "access-control-allow-credentials", "access-control-allow-headers", "access-control-allow-methods", "access-control-allow-origin", "access-control-expose-headers", "access-control-max-age", "access-control-request-headers", "access-control-request-method", "age", "allow", "authorization", "cache-control", "clear-site-data", "connection", "content-encoding", "content-language", "content-length", "content-location", "content-md5", "content-range", "content-type", "cookie", "date", "etag", "expect", "expires", "forwarded", "from", "host", "if-match", "if-modified-since", "if-none-match", "if-range", "if-unmodified-since", "last-modified", "location", "max-forwards", "origin", "pragma", "proxy-authenticate", "proxy-authorization", "proxy-connection", "referer", "retry-after", "server", "server-timing", "set-cookie", "sourcemap", "strict-transport-security", "te", "timing-allow-origin", "traceparent", "trailer", "transfer-encoding", "upgrade", "user-agent", "vary", "via", "warning", "www-authenticate", "x-other", "x-pair" >>
NameSet == ToSet(AllNames)
Bare == [x \in NameSet |-> <<>>]
InitFrom(i) == [fresh |-> 1, cnt |-> 0, msg |-> i.msg, pre |-> i.pre, h |-> IF i.pre = <<>> THEN Bare ELSE [Bare EXCEPT ![i.pre[1]] = i.pre[2], !["x-other"] = << S("o1"), S("o2") >>]]
Hows == {"apply", "applyref", "insert", "byref"}
Apply(st0, o) ==
  LET st == [st0 EXCEPT !.fresh = 0, !.cnt = @ + 1] IN
  CASE o.n = "write" -> [s |-> [st EXCEPT !.h = [@ EXCEPT ![NameOf(o.k)] = << S(ValueOf(o.k)) >>]], r |-> Ok([h |-> S(NameOf(o.k)), v |-> S(ValueOf(o.k))])]
    [] o.n = "append" -> [s |-> [st EXCEPT !.h = [@ EXCEPT ![NameOf(o.k)] = Append(@, S(ValueOf(o.k)))]], r |-> Unit]
    [] o.n = "set" -> [s |-> [st EXCEPT !.h = [@ EXCEPT ![o.h] = << o.v >>]], r |-> Unit]
    [] o.n = "add" -> [s |-> [st EXCEPT !.h = [@ EXCEPT ![o.h] = Append(@, o.v)]], r |-> Unit]
    [] o.n = "del" -> [s |-> [st EXCEPT !.h = [@ EXCEPT ![o.h] = <<>>]], r |-> Unit]
    [] o.n = "const" -> [s |-> st, r |-> Ok([t |-> ConstText(o.id), found |-> TRUE])]
Proj(st) == MapSeq(SelectSeq(AllNames, LAMBDA x : st.h[x] # <<>>), LAMBDA x : [h |-> x, vs |-> st.h[x]])
--------------------------------------------------------------------------------
NoOp == [o |-> [n |-> "init"], r |-> Unit]
Pres == {<<>>} \cup {<< NameOf(k), v >> : k \in Kinds, v \in {<< S("old") >>, << S("old"), S("older"), S("old") >>}}
Init == \E m \in {"req", "res", "hdr"}, p \in Pres : s = InitFrom([msg |-> m, pre |-> p]) /\ op = NoOp
\* with something already there: that header and one other; with nothing there: all of them
Ops(st) ==
  LET ks == IF st.pre = <<>> THEN Kinds ELSE {k \in Kinds : NameOf(k) = st.pre[1]} \cup {"age"} IN
  [n : {"write"}, k : ks, how : Hows] \cup [n : {"append"}, k : ks] \cup (IF st.pre = <<>> THEN [n : {"const"}, id : ConstIds] ELSE [n : {"del"}, h : {st.pre[1]}])
Next == s.cnt < (IF s.pre = <<>> THEN Depth - 1 ELSE Depth) /\ \E o \in Ops(s) : LET a == Apply(s, o) IN s' = a.s /\ op' = [o |-> o, r |-> a.r]
vars == << s, op >>
View == s
Emit == PrintT(ToJson([f |-> s, t |-> s', o |-> op'.o, r |-> op'.r, p |-> Proj(s')]))
\* writing leaves exactly one value in its own slot and every other slot alone
OneSlot == [][op'.o.n = "write" => /\ Len(s'.h[NameOf(op'.o.k)]) = 1
                                   /\ \A x \in NameSet \ {NameOf(op'.o.k)} : s'.h[x] = s.h[x]]_vars
\* each typed header has a constant, which is its name
Constants == \A k \in Kinds \ {"pair", "pairsp", "pairempty", "pairup"} : \E id \in ConstIds : ConstText(id) = S(NameOf(k))
LowerCase == \A id \in ConstIds : Lower(ConstText(id)) = ConstText(id) /\ \A i \in 1..Len(ConstText(id)) : IsTChar(ConstText(id)[i])
=============================================================================
