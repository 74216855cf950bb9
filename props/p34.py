"""P34: bodies backed by files, and the media types told by content and name (spec/File.tla)."""
import itertools
def txt(t): return [ord(c) for c in t]
HEADS = [bytes(h) for h in ([0,97,115,109,1,0,0,0],[127,69,76,70],[77,90],[255,216,255],[137,80,78,71],b"GIF",b"xxxxxxxxWEBP",b"BM",b"8BPS",[0,0,1,0],b"xxxxftypisom",b"xxxxftypM4V",[26,69,223,163],b"RIFFxxxxAVI",
  [0,0,1,176],b"MThd",b"ID3",[255,251],b"xxxxftypM4A",b"OggS",b"fLaC",b"RIFFxxxxWAVE",b"wOFF\0\1\0\0",b"wOF2\0\1\0\0",[0,1,0,0,0],b"OTTO\0",b"PK\3\4",[31,139,8],b"BZh",b"%PDF",b"CWS",b"{\\rtf",b"%!",b"SQLi",b"LZIP",[40,181,47,253],
  b"<!doctype html>",b"<html>",b"<a ",b"<?xml",b"#!/bin/sh",b"hello",b"",b" ",b"{\"a\":1}",b"body { color: red }")]
PATHS = ["", "a", "a.html", "a.css", "b.js", "x.y.json", ".css", "d.html/f", "d.html/f.txt", "a.zip", "a.woff2", "a.svgz", "a.unknown", "a.mp4", "a.jsonx", "html", "a..xml"]
def legs(ctx):
    ctx.cases("files", "File", {"Wide": "TRUE" if ctx.thorough else "FALSE"}, ["WholeFile", "ContentWins", "PositionFree", "SomeType"])
    r, reqs = ctx.rng, []
    def head():
        h = list(r.choice(HEADS))
        x = r.random()
        if x < 0.15 and h: h = h[:r.randint(0, len(h))]
        elif x < 0.3 and h: h[r.randrange(len(h))] = r.choice(b"qvyj")
        elif x < 0.4: h = [r.choice(b" \n\t")] * r.randint(1, 3) + h
        elif x < 0.5: h = h + [120] * (257 - len(h)) + list(r.choice([b"ustar", b"usta", b"ustaq"]))
        return h
    for _ in range(ctx.q(700, 8000)):
        size = r.choice([0, 0, 1, 2, r.randint(0, 60), r.randint(200, 320), r.randint(0, 9000), r.choice([8191, 8192, 8193, 65536])])
        api = r.choice(["path", "file", "both", "both"])
        p = r.choice(PATHS)
        if api == "path" and ("/" in p or p == ""): p = "f"
        h = head()
        reqs.append(("file", dict(head=h, n=size, path=txt(p), api=api, pos=0 if api == "path" else r.choice([0, 0, 1, 5, size, size + 9]), via=r.choice(["body", "req", "res"]), chunk=r.choice([0, 0, 1 if size < 400 else 100, 7 if size < 400 else 300, 299, 300, 4096, 100000]))))
        reqs.append(("sniff", dict(head=h, n=r.choice([0, size, 60]))))
    E = "7z atom avi bin exe dll iso img bmp css html ico js mjs jsonp json m4a mid midi kar mp3 mp4 mpeg mpg ogg otf rss svg svgz ttf txt wasm webm webp woff woff2 xml zip".split()
    for _ in range(ctx.q(500, 5000)):
        e = r.choice(E); k = r.randint(0, len(e))
        e = r.choice([e, e[:k] + r.choice("~ .-_0sx#?\u00e9") + e[k:], e[:max(0, k - 1)] + e[k:], e + e[-1:], e[::-1], e.title(), e.upper() if False else e + "z"])
        if not any(c.isupper() for c in e): reqs.append(("ext", dict(e=txt(e))))
        if not any(c.isupper() for c in e) and "/" not in e: reqs.append(("file", dict(head=txt("plain words"), n=r.choice([0, 9]), path=txt("f." + e), api=r.choice(["path", "both"]), pos=0, via="body", chunk=0)))
    for _ in range(ctx.q(1500, 20000)):
        b = list(r.choice(HEADS)) + [r.choice([0, 1, 4, 20, 24, 32, 60, 62, 65, 102, 116, 121, 112, 120, 255, r.randint(0, 255)]) for _ in range(r.choice([0, 3, 12, 30, 300]))]
        if r.random() < 0.4 and len(b) > 4: b[4:8] = b"ftyp"; b[8:12] = r.choice([b"heic", b"mif1", b"msf1", b"avif", b"isom", b"qt  "])
        if r.random() < 0.3 and b[:2] == list(b"PK") and len(b) > 30: b[30:30] = list(r.choice([b"mimetype", b"word/", b"[Content_Types].xml", b"_rels/.rels"]))
        if r.random() < 0.1: b[:8] = [0xD0, 0xCF, 0x11, 0xE0, 0xA1, 0xB1, 0x1A, 0xE1]
        reqs.append(("sniffany", dict(b=b)))
    ctx.ftrace("files", "File", reqs, {"Wide": "FALSE"}, fixvars="cs = Start")
