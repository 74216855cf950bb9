--------------------------------- MODULE File ---------------------------------
(* Bodies backed by a file: the whole file from its first byte whatever the      *)
(* position of the handle, its size, and a media type told by the content,       *)
(* else by the name, else octet-stream.  A file is `head` followed by n times x. *)
EXTENDS Text
W == -1     \* any byte
X == 120
Ws(n) == [i \in 1..n |-> W]
Sig(b, min, m) == [b |-> b, min |-> min, m |-> S(m)]
\* first match wins
Sigs == <<
  Sig(<<0, 97, 115, 109, 1, 0, 0, 0>>, 8, "application/wasm"), Sig(<<127, 69, 76, 70>>, 53, "application/x-executable"),
  Sig(<<77, 90>>, 2, "application/vnd.microsoft.portable-executable"), Sig(<<66, 67>>, 2, "application/x-llvm"),
  Sig(<<202, 254, 186, 190>>, 4, "application/x-mach-binary"), Sig(<<48, 130>>, 3, "application/x-x509-ca-cert"),
  Sig(<<255, 216, 255>>, 3, "image/jpeg"), Sig(<<0, 0, 0, 12, 106, 80, 32, 32, 13, 10, 135, 10, 0>>, 13, "image/jp2"),
  Sig(<<137, 80, 78, 71>>, 4, "image/png"), Sig(S("GIF"), 3, "image/gif"), Sig(Ws(8) \o S("WEBP"), 12, "image/webp"),
  Sig(S("BM"), 2, "image/bmp"), Sig(S("8BPS"), 4, "image/vnd.adobe.photoshop"), Sig(<<0, 0, 1, 0>>, 4, "image/vnd.microsoft.icon"),
  Sig(Ws(4) \o S("ftypisom"), 12, "video/mp4"), Sig(Ws(4) \o S("ftypM4V"), 11, "video/x-m4v"),
  Sig(<<26, 69, 223, 163>>, 4, "video/webm"), Sig(S("RIFF") \o Ws(4) \o S("AVI"), 11, "video/x-msvideo"),
  Sig(<<0, 0, 1, 176>>, 4, "video/mpeg"), Sig(<<0, 0, 1, 191>>, 4, "video/mpeg"), Sig(S("FLV") \o <<1>>, 4, "video/x-flv"),
  Sig(S("MThd"), 4, "audio/midi"), Sig(S("ID3"), 3, "audio/mpeg"), Sig(<<255, 251>>, 3, "audio/mpeg"),
  Sig(Ws(4) \o S("ftypM4A"), 11, "audio/m4a"), Sig(S("OggS"), 4, "audio/ogg"), Sig(S("fLaC"), 4, "audio/x-flac"),
  Sig(S("RIFF") \o Ws(4) \o S("WAVE"), 12, "audio/x-wav"),
  Sig(S("wOFF") \o <<0, 1, 0, 0>>, 8, "application/font-woff"), Sig(S("wOF2") \o <<0, 1, 0, 0>>, 8, "application/font-woff"),
  Sig(<<0, 1, 0, 0, 0>>, 5, "application/font-sfnt"), Sig(S("OTTO") \o <<0>>, 5, "application/font-sfnt"),
  Sig(S("PK") \o <<3, 4>>, 4, "application/zip"), Sig(Ws(257) \o S("ustar"), 262, "application/x-tar"),
  Sig(S("Rar!") \o <<26, 7, 0>>, 7, "application/vnd.rar"), Sig(<<31, 139, 8>>, 3, "application/gzip"),
  Sig(S("BZh"), 3, "application/x-bzip2"), Sig(<<55, 122, 188, 175, 39, 28>>, 6, "application/x-7z-compressed"),
  Sig(<<253, 55, 122, 88, 90, 0>>, 6, "application/x-xz"), Sig(S("%PDF"), 4, "application/pdf"),
  Sig(S("CWS"), 3, "application/x-shockwave-flash"), Sig(S("FWS"), 3, "application/x-shockwave-flash"),
  Sig(S("{\\rtf"), 5, "application/rtf"), Sig(S("%!"), 2, "application/postscript"), Sig(S("SQLi"), 4, "application/vnd.sqlite3"),
  Sig(<<31, 157>>, 2, "application/x-compress"), Sig(S("LZIP"), 4, "application/x-lzip"), Sig(<<40, 181, 47, 253>>, 4, "application/zstd") >>
Tags == {S("<!DOCTYPE HTML"), S("<HTML"), S("<HEAD"), S("<SCRIPT"), S("<DIV"), S("<TABLE"), S("<A"), S("<P"), S("<BODY"), S("<!--")}
IsMWs(b) == b \in {9, 10, 12, 13, 32}
Text0(b, len) ==
  LET t == TrimL(b, IsMWs) IN
  CASE \E g \in Tags : Len(t) > Len(g) /\ EqNoCase(Take(t, Len(g)), g) /\ t[Len(g) + 1] \in {32, 62} -> << S("text/html") >>
    [] Len(t) >= 5 /\ EqNoCase(Take(t, 5), S("<?xml")) -> << S("text/xml") >>
    [] len > 2 /\ StartsWith(b, S("#!")) -> << S("text/x-shellscript") >>
    [] OTHER -> <<>>
Hits(g, b, len) == len >= g.min /\ \A i \in 1..Len(g.b) : g.b[i] = W \/ (IF i <= Len(b) THEN b[i] ELSE X) = g.b[i]
\* the media type the content tells, if any: << m >> or << >>
Sniff(b, n) ==
  LET len == Len(b) + n  h == {i \in 1..Len(Sigs) : Hits(Sigs[i], b, len)} IN
  IF h = {} THEN Text0(b \o [i \in 1..(IF n > 20 THEN 20 ELSE n) |-> X], len)
  ELSE << Sigs[CHOOSE i \in h : \A j \in h : i <= j].m >>
--------------------------------------------------------------------------------
ExtTable == [i \in {} |-> <<>>] @@ [e \in {S("7z")} |-> S("application/x-7z-compressed")] @@ [e \in {S("atom")} |-> S("application/atom+xml;charset=utf-8")]
  @@ [e \in {S("avi")} |-> S("video/x-msvideo")] @@ [e \in {S("bin"), S("exe"), S("dll"), S("iso"), S("img")} |-> S("application/octet-stream")]
  @@ [e \in {S("bmp")} |-> S("image/bmp")] @@ [e \in {S("css")} |-> S("text/css;charset=utf-8")] @@ [e \in {S("html")} |-> S("text/html;charset=utf-8")]
  @@ [e \in {S("ico")} |-> S("image/x-icon")] @@ [e \in {S("js"), S("mjs"), S("jsonp")} |-> S("text/javascript;charset=utf-8")]
  @@ [e \in {S("json")} |-> S("application/json")] @@ [e \in {S("m4a")} |-> S("audio/mp4")] @@ [e \in {S("mid"), S("midi"), S("kar")} |-> S("audio/midi")]
  @@ [e \in {S("mp3")} |-> S("audio/mpeg")] @@ [e \in {S("mp4")} |-> S("video/mp4")] @@ [e \in {S("mpeg"), S("mpg")} |-> S("video/mpeg")]
  @@ [e \in {S("ogg")} |-> S("audio/ogg")] @@ [e \in {S("otf")} |-> S("font/otf")] @@ [e \in {S("rss")} |-> S("application/rss+xml;charset=utf-8")]
  @@ [e \in {S("svg"), S("svgz")} |-> S("image/svg+xml")] @@ [e \in {S("ttf")} |-> S("font/ttf")] @@ [e \in {S("txt")} |-> S("text/plain;charset=utf-8")]
  @@ [e \in {S("wasm")} |-> S("application/wasm")] @@ [e \in {S("webm")} |-> S("video/webm")] @@ [e \in {S("webp")} |-> S("image/webp")]
  @@ [e \in {S("woff")} |-> S("font/woff")] @@ [e \in {S("woff2")} |-> S("font/woff2")] @@ [e \in {S("xml")} |-> S("application/xml;charset=utf-8")]
  @@ [e \in {S("zip")} |-> S("application/zip")]
OctetStream == S("application/octet-stream")
\* what follows the last dot of the last component, unless that dot starts it
Last0(tx, ch) == LET p == {i \in 1..Len(tx) : tx[i] = ch} IN IF p = {} THEN 0 ELSE CHOOSE i \in p : \A j \in p : j <= i
ExtOf(path) == LET f == Drop(path, Last0(path, SLASH))  d == Last0(f, DOT) IN IF d <= 1 THEN <<>> ELSE << Drop(f, d) >>
Guess(path) == LET e == ExtOf(path) IN IF e # <<>> /\ e[1] \in DOMAIN ExtTable THEN << ExtTable[e[1]] >> ELSE <<>>
TypeOf(b, n, path) == LET t == Sniff(b, n)  g == Guess(path) IN IF t # <<>> THEN t[1] ELSE IF g # <<>> THEN g[1] ELSE OctetStream

IsX(x) == x = X
Canon0(b, n) == LET h == TrimR(b, IsX) IN [head |-> h, n |-> n + Len(b) - Len(h)]
\* in: head, n, path, api (path | file | both), pos, via (body | req | res), chunk (0: all at once)
Expected(rec) ==
  LET in == rec["in"] IN
  CASE rec.op = "file" ->
       [k |-> "ok", v |-> [t |-> TypeOf(in.head, in.n, IF in.api = "file" THEN <<>> ELSE in.path), len |-> Len(in.head) + in.n, data |-> Canon0(in.head, in.n)]]
    \* head, then zeros up to g * 2^20 + k bytes
    [] rec.op = "sparse" -> Ok([t |-> TypeOf(in.head, 0, in.path), g |-> in.g, k |-> in.k, data |-> in.head])
    [] rec.op = "nofile" -> Err(0)
    [] rec.op = "sniff" -> LET t == Sniff(in.head, in.n) IN IF t = <<>> THEN Err(0) ELSE [k |-> "ok", v |-> t[1]]
    [] rec.op = "sniffany" -> DontCare
    [] rec.op = "ext" -> LET e == in.e IN IF e \in DOMAIN ExtTable THEN [k |-> "ok", v |-> ExtTable[e]] ELSE [k |-> "none"]
--------------------------------------------------------------------------------
CONSTANT Wide
ConcreteW(b) == [i \in 1..Len(b) |-> IF b[i] = W THEN X ELSE b[i]]
Heads == LET full == {ConcreteW(Sigs[i].b) : i \in 1..Len(Sigs)}
             text == UNION {{g \o << 62 >>, Lower(g) \o << 32 >>, g, S(" \n") \o g \o << 62 >>, g \o << 50 >>} : g \in Tags} \cup {S("<?xml"), S("<?XML "), S("\t<?xml"), S("#!"), S("#!/bin/sh"), S("<?xm")}
         IN full \cup {SubSeq(h, 1, Len(h) - 1) : h \in full} \cup text \cup {<<>>, <<0>>, <<0, 0>>, <<0, 0, 1>>, <<0, 1>>, S("hello"), S(" "), S("{}"), S("wOFF"), S("wOFF") \o <<0, 1>>, <<0, 97, 115, 109, 1>>, S("OTTO"), <<0, 0, 0, 12, 106, 80, 32, 32, 13, 10, 135, 10>>}
Names0 == {<<>>, S("a"), S("a.html"), S("a.b.css"), S(".html"), S("a.zzz")}
Names1 == {S("a."), S("d.html/a"), S("a.bin"), S("d.css/a.js"), S("a.tar.xml")}
Exts == DOMAIN ExtTable \cup {<<>>, S("zzz"), S("htm"), S(".html"), S("html "), S("jpeg7"), S("woff3"), S("a.html")}
VARIABLE cs
F(h, n, p, a, pos, via, ch) == [op |-> "file", in |-> [head |-> h, n |-> n, path |-> p, api |-> a, pos |-> pos, via |-> via, chunk |-> ch]]
Cases == {F(h, n, p, "both", 0, "body", 0) : h \in Heads, n \in {0, 1, 60}, p \in {<<>>, S("a.html")}}
    \cup {F(h, n, p, "path", 0, "body", 700) : h \in Heads, n \in {0, 400}, p \in {S("a"), S("a.css")}}
    \cup {F(h, 300, p, "file", pos, via, 0) : h \in {<<>>, S("hello"), S("GIF"), S("{}")}, p \in {S("a.html")}, pos \in {0, 1, 299, 400}, via \in {"body", "req", "res"}}
    \cup {F(h, n, p, "both", pos, via, ch) : h \in {<<>>, S("hello"), S("GIF8")}, n \in {0, 5, 299, 300, 301, 8192, 20000}, p \in Names0 \cup Names1, pos \in {0, 3, 100000}, via \in {"body", "res"}, ch \in (IF Wide THEN {0, 1, 512, 8192} ELSE {0, 512})}
    \cup {[op |-> "sparse", in |-> [head |-> h, path |-> p, g |-> g, k |-> k]] : h \in {S("GIF89a"), S("hello"), S("%PDF-1")}, p \in {S("f"), S("f.css")}, g \in {1, 15, 16, 17, 256, 2047, 2048, 4095, 4096, 4097, 8192}, k \in {0, 1, 70000}}
    \cup {[op |-> "nofile", in |-> [path |-> p, api |-> "path"]] : p \in {S("no"), S("no.html"), S("no/no.css")}}
    \cup {[op |-> "sniff", in |-> [head |-> h, n |-> n]] : h \in Heads, n \in {0, 1, 60, 400}}
    \cup {[op |-> "ext", in |-> [e |-> e]] : e \in Exts}
Start == [op |-> "start"]
Init == cs = Start
Next == /\ cs = Start
        /\ cs' \in Cases
Emit == PrintT(ToJson([op |-> cs'.op, in |-> cs'["in"], exp |-> Expected(cs')]))
\* laws
FileCase == cs.op = "file"
WholeFile == FileCase => Expected(cs).v.len = Len(Expected(cs).v.data.head) + Expected(cs).v.data.n
ContentWins == FileCase => LET t == Sniff(cs["in"].head, cs["in"].n) IN t # <<>> => Expected(cs).v.t = t[1]
PositionFree == FileCase => Expected(cs) = Expected([cs EXCEPT !["in"].pos = 0])
SomeType == FileCase => Expected(cs).v.t # <<>>
================================================================================
