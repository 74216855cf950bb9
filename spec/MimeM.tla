------------------------------- MODULE MimeM --------------------------------
(* A media type value under parameter lookups, removals and comparisons; the  *)
(* built-in media types and the file extensions.                              *)
EXTENDS MimeText
CONSTANTS Inits, Others, Names
VARIABLES s, op
U8(b, t) == << b \o "/" \o t \o ";charset=utf-8" >>
\* the documented built-in media types
Consts == [JAVASCRIPT |-> "text/javascript;charset=utf-8", CSS |-> "text/css;charset=utf-8", HTML |-> "text/html;charset=utf-8",
  PLAIN |-> "text/plain;charset=utf-8", XML |-> "application/xml;charset=utf-8", RSS |-> "application/rss+xml;charset=utf-8",
  ATOM |-> "application/atom+xml;charset=utf-8", ANY |-> "*/*", JSON |-> "application/json", SSE |-> "text/event-stream",
  BYTE_STREAM |-> "application/octet-stream", FORM |-> "application/x-www-form-urlencoded", MULTIPART_FORM |-> "multipart/form-data",
  WASM |-> "application/wasm", BMP |-> "image/bmp", JPEG |-> "image/jpeg", PNG |-> "image/png", SVG |-> "image/svg+xml", WEBP |-> "image/webp",
  MIDI |-> "audio/midi", MP3 |-> "audio/mpeg", OGG |-> "audio/ogg", OPUS |-> "audio/opus", M4A |-> "audio/mp4", MP4 |-> "video/mp4",
  MPEG |-> "video/mpeg", WEBM |-> "video/webm", AVI |-> "video/x-msvideo", ICO |-> "image/x-icon", OTF |-> "font/otf", TTF |-> "font/ttf",
  WOFF |-> "font/woff", WOFF2 |-> "font/woff2", ZIP |-> "application/zip", SEVENZIP |-> "application/x-7z-compressed"]
ExtOf == << <<"7z", "SEVENZIP">>, <<"atom", "ATOM">>, <<"avi", "AVI">>, <<"bin", "BYTE_STREAM">>, <<"exe", "BYTE_STREAM">>, <<"dll", "BYTE_STREAM">>,
  <<"iso", "BYTE_STREAM">>, <<"img", "BYTE_STREAM">>, <<"bmp", "BMP">>, <<"css", "CSS">>, <<"html", "HTML">>, <<"ico", "ICO">>, <<"js", "JAVASCRIPT">>,
  <<"mjs", "JAVASCRIPT">>, <<"jsonp", "JAVASCRIPT">>, <<"json", "JSON">>, <<"m4a", "M4A">>, <<"mid", "MIDI">>, <<"midi", "MIDI">>, <<"kar", "MIDI">>,
  <<"mp3", "MP3">>, <<"mp4", "MP4">>, <<"mpeg", "MPEG">>, <<"mpg", "MPEG">>, <<"ogg", "OGG">>, <<"otf", "OTF">>, <<"rss", "RSS">>, <<"svg", "SVG">>,
  <<"svgz", "SVG">>, <<"ttf", "TTF">>, <<"txt", "PLAIN">>, <<"wasm", "WASM">>, <<"webm", "WEBM">>, <<"webp", "WEBP">>, <<"woff", "WOFF">>,
  <<"woff2", "WOFF2">>, <<"xml", "XML">>, <<"zip", "ZIP">> >>
Exts == {ExtOf[i][1] : i \in 1..Len(ExtOf)}
ExtMime(e) == Consts[ExtOf[CHOOSE i \in 1..Len(ExtOf) : ExtOf[i][1] = e][2]]
Mk(i) == CASE i.from = "text" -> ParseMime(i.t) [] i.from = "const" -> ParseMime(S(Consts[i.c]))
           [] OTHER -> IF i.e \in Exts THEN ParseMime(S(ExtMime(i.e))) ELSE <<>>
InitFrom(i) == [fresh |-> 1, init |-> i, m |-> Mk(i)]
Apply(st0, o) ==
  LET st == [st0 EXCEPT !.fresh = 0]
      m == st.m[1] IN
  IF st.m = <<>> THEN [s |-> st, r |-> None]
  ELSE
  CASE o.n = "get" -> [s |-> st, r |-> LET v == Param(m, o.name) IN IF v = <<>> THEN None ELSE Ok(v[1])]
    [] o.n = "remove" -> [s |-> [st EXCEPT !.m = << WithoutParam(m, o.name) >>], r |-> LET v == Param(m, o.name) IN IF v = <<>> THEN None ELSE Ok(v[1])]
    [] o.n = "within" -> [s |-> st, r |-> LET b == ParseMime(o.t)[1] IN
                                          Ok([le |-> SubsetEq(m, b), ge |-> SubsetEq(b, m), eq |-> m = b])]
    [] o.n = "reparse" -> [s |-> st, r |-> Ok([eq |-> TRUE])]
Proj(st) == IF st.m = <<>> THEN <<>> ELSE << FormatMime(st.m[1]), st.m[1].base, st.m[1].sub, Essence(st.m[1]) >>
NoOp == [o |-> [n |-> "init"], r |-> Unit]
Ops == {[n |-> x, name |-> k] : x \in {"get", "remove"}, k \in Names} \cup {[n |-> "within", t |-> t] : t \in Others} \cup {[n |-> "reparse"]}
Init == \E i \in Inits : s = InitFrom(i) /\ op = NoOp
Next == \E o \in Ops : LET a == Apply(s, o) IN s' = a.s /\ op' = [o |-> o, r |-> a.r]
vars == << s, op >>
View == s
Emit == PrintT(ToJson([f |-> s, t |-> s', o |-> op'.o, r |-> op'.r, p |-> Proj(s')]))
Frame == [][s.m # <<>> => s'.m[1].base = s.m[1].base /\ s'.m[1].sub = s.m[1].sub /\ Len(s'.m[1].ps) <= Len(s.m[1].ps)]_vars
ConstsParse == \A k \in DOMAIN Consts : LET z == ParseMime(S(Consts[k])) IN z # <<>> /\ FormatMime(z[1]) = S(Consts[k])
Names1 == {S("charset"), S("CHARSET"), S("a"), S("B"), S("zz")}
Texts1 == {S("text/html"), S("text/html;charset=utf-8"), S("text/html;charset=gbk"), S("text/html;charset=UTF-8"), S("text/html;a=1;charset=utf-8"), S("text/html;charset=utf-8;a=1"),
  S("text/html;charset=gbk;charset=utf-8;A=1;b=2"), S("text/*"), S("*/*"), S("*/html"), S("text/css;b=2;a=1"), S("text/html;charset=utf-8;charset=gbk"), S("*/*;a=1"), S("application/html")}
Inits1 == {[from |-> "text", t |-> t] : t \in Texts1} \cup {[from |-> "const", c |-> k] : k \in DOMAIN Consts}
          \cup {[from |-> "ext", e |-> x] : x \in Exts \cup {"", "png", "HTML", "tar", ".html", "htm"}}
=============================================================================
