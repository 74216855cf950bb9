"""P29: Referer, SourceMap and Content-Location (spec/Location.tla, spec/UrlText.tla)."""
def txt(t): return [ord(c) for c in t]
def legs(ctx):
    c = {"NChars": ctx.q(4, 5), "NPieces": ctx.q(2, 3)}
    ctx.cases("references", "Location", c, ["Stable", "BaseLaw", "NoDots"])
    r, reqs = ctx.rng, []
    def seg(): return "".join(r.choice("abz019-._~!$&'()*+,;=:@%2E\"<>`{}|^[] \t") for _ in range(ctx.size(5, 300)))
    def dots(): return r.choice([".", "..", "%2e", ".%2E", "", seg(), "x", "..."])
    def path(): return "/".join(dots() for _ in range(ctx.size(7, 60)))
    def host(): return r.choice(["h", "example.com", "A.B.c", "x-y.z", "a..b", "h.", "1a.b2", "", "a b", "a<b", "10.0.0.1", "[::1]", "[2001:db8::9]", "%d.%d.%d.%d" % tuple(r.randrange(260) for _ in range(4))]) if r.random() < 0.5 else "".join(r.choice("abcxyzQ9-.") for _ in range(r.randint(1, 10)))
    def user(): return r.choice(["", "", "", "", seg() + "@", seg() + ":" + seg() + "@", "u:p@"])
    def port(): return r.choice(["", "", ":80", ":443", ":", ":%d" % r.randrange(70000), ":00080", ":x"])
    def tail(): return r.choice(["", "", "?" + seg(), "#" + seg(), "?" + seg() + "#" + seg()])
    def absu(): return r.choice(["http", "https", "HTTPS", "ftp", "ws", "wss"]) + ":" + r.choice(["//", "//", "//", "\\\\", "///"]) + user() + host() + port() + r.choice(["", "/" + path()]) + tail()
    def ref():
        k = r.random()
        if k < 0.3: return absu()
        if k < 0.4: return "//" + user() + host() + port() + "/" + path() + tail()
        if k < 0.6: return "/" + path() + tail()
        if k < 0.9: return path() + tail()
        return r.choice(["mailto:", "data:", "urn:", "x+y:"]) + seg() + tail()
    for _ in range(ctx.q(6000, 60000)):
        h = r.choice(["referer", "sourcemap", "clocation"])
        base = absu() if r.random() < 0.7 else "https://a.example/b/c/d?q#f"
        if r.random() < 0.2: reqs.append(("locwrite", dict(h=h, url=txt(absu()), base=txt(base))))
        else: reqs.append(("locread", dict(h=h, vals=[txt(ref()) for _ in range(ctx.few())], base=txt(base))))
    ctx.ftrace("random", "Location", reqs, c, fixvars="cs = Start")
