"""P14: media type parsing and formatting (spec/Mime.tla)."""
def txt(t): return [ord(c) for c in t]
def legs(ctx):
    c = {"HeadChars": "<- HeadChars1", "HeadLen": ctx.q(4, 5), "TailChars": "<- TailChars1", "TailLen": ctx.q(4, 5), "Pieces": "<- Pieces1", "NPieces": ctx.q(2, 3)}
    ctx.cases("grammar", "Mime", c, ["RoundTrip", "UniqueLower", "Reflexive"])
    r, reqs = ctx.rng, []
    P = ["charset", "CharSet", "a", "A", "boundary", "q", "x-y", "utf-8", "UTF-8", "gbk", "text", "html", "*", "application", "vnd.x+json", "b", "us-ascii", "utf-16", "utf8", "iso-8859-1", "windows-1252", "level", "version"]
    def token(): return r.choice(P) if r.random() < 0.8 else "".join(r.choice("aZ0!#$%&'*+-.^_`|~") for _ in range(r.randint(1, 6)))
    def value():
        x = r.random()
        if x < 0.4: return token()
        if x < 0.46: # long, or any code point near the edges of what a value may hold
            if r.random() < 0.5: return '"' + "".join(r.choice("ab  \t;=") for _ in range(r.choice([63, 64, 65, 127, 128, 200, 300]))) + r.choice(["", " ", "  "]) + '"'
            e = chr(r.choice([r.randint(0, 31), 127, r.randint(128, 255), r.randint(256, 700), r.randint(0x2000, 0x2100), 0xFEFF, 0xFFFD, 0x1F600]))
            return r.choice(["", "x", '"', '"x ']) + e + r.choice(["", "y", '"'])
        if x < 0.8: return '"' + "".join(r.choice(["a", " ", ";", "=", ",", '\\"', "\\\\", "\\a", "é", "\t", "utf-8", "ÿ"]) for _ in range(r.randint(0, 6))) + ('"' if r.random() < 0.9 else "") + r.choice(["", "", " ", "junk", "é"])
        return "".join(r.choice(["a", " ", "=", "(", "é", "Ā", "\x7f", "/", '"', "\n"]) for _ in range(r.randint(0, 4)))
    for k in range(ctx.q(2500, 30000)):
        t = r.choice(["", "", " ", "\t", "\n"]) + token() + "/" + token() + r.choice(["", "", " "])
        for _ in range(r.choice([0, 1, 1, 2, 3, 5])): t += ";" + r.choice(["", " ", "\t", "  "]) + (token() + r.choice(["", "", "", " "]) + "=" + value() if r.random() < 0.92 else r.choice(["", " ", "a", "="]))
        if r.random() < 0.03: t += "".join(";p%d=%d" % (j, j % 7) for j in range(r.choice([9, 17, 33, 34, 40, 65]))) + ";charset=x;z=1"
        if r.random() < 0.15:
            i = r.randrange(len(t)); t = t[:i] + r.choice([";", "=", '"', "\\", " ", "/", "\x00", "\x0b", "é", "\u0100", "\U0001f600"]) + t[i + r.randint(0, 1):]
        if k % 12 == 0:
            t = "".join(x for x in t if x == "\t" or " " <= x <= "~")
            reqs.append(("ctype", dict(vals=[txt(r.choice(["", "a/b", t, "x", t[::-1]])) for _ in range(ctx.few((0, 1, 2)))] + [txt(t)], how=r.choice(["typed", "req", "res"]))))
            continue
        reqs.append(("mime", dict(t=txt(t), names=[txt(r.choice([r.choice(P[:8]).upper(), r.choice(P[:8]), r.choice(P[:8]), "z", "p16", "P32", "\u00e9", "\u0130", ""])) for _ in range(3)])))
    CS = ["utf-8", "utf-8", "utf-8", "UTF-8", "utf8", "us-ascii", "iso-8859-1", "utf-16", "gbk", "windows-1252", '"utf-8"', '"UTF-8"', "", "utf-8 ", " utf-8", '""']
    for _ in range(ctx.q(500, 4000)):
        t = "text/html" + "".join(r.choice([";", "; ", ";", ";a=1;"]) + r.choice(["charset", "charset", "Charset", "CHARSET"]) + "=" + r.choice(CS) for _ in range(r.choice([1, 2, 2, 3])))
        reqs.append(("mime", dict(t=txt(t), names=[txt("charset"), txt("a"), txt("CHARSET")])))
    ctx.ftrace("random", "Mime", reqs, c, fixvars="cs = Start")
