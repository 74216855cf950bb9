"""P17: Forwarded headers and their X- predecessors (spec/Forwarded.tla)."""
def txt(t): return [ord(c) for c in t]
FX = "cs = Start"
def consts(ctx): return {"Chars": ctx.q("<- CharsQ", "<- CharsT"), "NChars": ctx.q(4, 5), "Pieces": ctx.q("<- PiecesQ", "<- PiecesT"), "NPieces": ctx.q(3, 4)}
def value(r):
    x = r.random()
    if x < 0.006: return "".join(r.choice("aZ9!~-") for _ in range(r.choice([127, 128, 254, 255, 256, 257, 300])))
    if x < 0.4: return r.choice(["192.0.2.43", "unknown", "_hid", "https", "a.b", "!#$%&'*+-.^_`|~"])
    return "".join(r.choice(['"', "\\", ";", ",", "=", " ", "\t", "a", "[::1]:80", "!", "for=", "(", "~"]) for _ in range(r.randint(0, 6) if r.random() < .99 else r.choice([40, 300])))
def address(r):
    """an IPv6 address, or nearly"""
    h = lambda: r.choice(["0", "0", "0", "00", "1", "ffff", "FFFF", "0a0", "%x" % r.randrange(65536), "%X" % r.randrange(65536)])
    if r.random() < 0.5: t = ":".join(h() for _ in range(r.choice([8, 8, 8, 7, 9])))
    else:
        a = r.randint(0, 7); t = ":".join(h() for _ in range(a)) + "::" + ":".join(h() for _ in range(r.randint(0, 7 - a if r.random() < .9 else 7)))
    if r.random() < 0.15: t = r.choice(["::ffff:", "::", "0:0:0:0:0:ffff:", "64:ff9b::"]) + ".".join(str(r.choice([0, 1, 99, 255, r.randrange(260)])) for _ in range(r.choice([4, 4, 4, 4, 3, 5])))
    if r.random() < 0.1:
        i = r.randrange(len(t) + 1); t = t[:i] + r.choice([":", "g", "0", ".", " ", "%1", "[", ""]) + t[i + r.randint(0, 1):]
    return t
def quoted(r, v):
    if v and all(c.isalnum() or c in "!#$%&'*+-.^_`|~" for c in v) and r.random() < 0.7: return v
    if r.random() < 0.05: return v
    return '"' + "".join("\\" + c if c in '"\\' or r.random() < 0.1 else c for c in v) + '"'
def header(r):
    t, first = "", True
    for _ in range(r.choice([1, 1, 2, 2, 3, 4]) if r.random() < .99 else r.choice([33, 70])):
        ks = r.sample(["for", "by", "host", "proto", r.choice(["secret", "foo", "f", "fork", "host2", "p", "byte"])], r.choice([1, 1, 2, 3]))
        if "for" in ks and r.random() < 0.7: ks.remove("for"); ks.insert(0, "for")
        if not first: ks = [k for k in ks if k == "for" or r.random() < 0.4] or ["for"]
        el = ";".join("".join(c.upper() if r.random() < 0.2 else c for c in k) + "=" + quoted(r, value(r)) for k in ks)
        t += ("" if first else r.choice([",", ", ", ",  ", ", \t", " , "] if r.random() < 0.9 else [";", " ", ""])) + el; first = False
    if r.random() < 0.2:
        i = r.randrange(len(t) + 1); t = t[:i] + r.choice(['"', "\\", ";", ",", "=", " ", "\x00", "\x0f", "é", "Ģ", "Ŝ", "\U0001f600", "for"]) + t[i + r.randint(0, 1):]
    return t
def legs(ctx):
    c = consts(ctx)
    ctx.cases("parse", "Forwarded", c, ["ParseFormats"], next="NextP")
    ctx.cases("format", "Forwarded", c, ["FormatParses"], next="NextB")
    ctx.cases("headers", "Forwarded", c, [], next="NextH")
    ctx.cases("addresses", "Forwarded", c, ["V6Law"], next="NextI")
    r, reqs = ctx.rng, []
    for _ in range(ctx.q(2500, 40000)):
        x = r.random()
        if x < 0.5: reqs.append(("fwdparse", dict(t=txt(header(r)))))
        elif x < 0.85:
            o = lambda: [txt(value(r))] if r.random() < 0.5 else []
            reqs.append(("fwdbuild", dict(v=dict(fors=[txt(value(r)) for _ in range(ctx.size(3, 70))], by=o(), host=o(), proto=o()))))
        else:
            o = lambda f, p: [txt(f)] if r.random() < p else []
            h = header(r)
            if not h.isascii(): continue
            reqs.append(("fwdheaders", dict(fwd=o(h, 0.4), xf=o(r.choice([" ", ""]) + r.choice([",", ", "]).join(value(r) if r.random() < 0.6 else address(r) for _ in range(ctx.size(3, 70, 1))), 0.6), xb=o(value(r), 0.3), xh=o(value(r), 0.3), xp=o("https", 0.3))))
    ctx.ftrace("random", "Forwarded", reqs, c, fixvars=FX)
