"""P24: totality of reading typed headers (spec/Total.tla)."""
def txt(t): return [ord(c) for c in t]
SEEDS = {
    "server-timing": ['db;dur=53.5;desc="a,b", cpu', "m;desc=x;dur=1e3", 'a;dur=0.0000001'],
    "traceparent": ["00-0af7651916cd43dd8448eb211c80319c-00f067aa0ba902b7-01"],
    "allow": ["GET, POST", "VERSION-CONTROL,PUT"], "www-authenticate": ['Basic realm="a b", charset="UTF-8"', "Bearer x=y, realm=z"],
    "basic-auth": ["Basic dTpw", "Basic Og==", "basic dTpwOnE="], "authorization": ["Bearer abc", "Digest a=b, c=d"],
    "age": ["12", "18446744073709551615"], "content-length": ["12", "18446744073709551615"],
    "cache-control": ['no-store, max-age=3, private="a,b", x="y"', "max-stale, stale-if-error=18446744073709551615, s-maxage=0"],
    "expires": [], "date": [], "if-unmodified-since": [], "if-modified-since": [], "last-modified": [], "retry-after": ["120"],
    "clear-site-data": ['"cache", "*"', '"cookies","storage"'], "forwarded": ['for="[::1]:8";by=_x;host=h;proto=http, for=b', "for=1.2.3.4"], "x-forwarded": ["a", "1.2.3.4, [::1]"],
    "content-location": ["https://u@h:1/p?q#f", "/a/../b"], "referer": ["https://u@h:1/p?q#f", "?x"], "sourcemap": ["/a.map", "https://[::1]/"],
    "content-encoding": ["gzip"], "transfer-encoding": ["chunked", "gzip, chunked"], "content-type": ['text/html; charset="a\\"b";x=y'], "message-type": ["a/b;c=d", "text/html;charset=utf-8"],
    "accept-encoding": ["gzip, *;q=0.5, br;q=1"], "te": ["gzip;q=0.5, trailers, chunked"], "accept": ['text/*;q=0.3, */*;x="a,b", a/b;q=1.000'], "expect": ["100-continue"],
    "if-match": ['"a"', 'W/"b", "c,d"'], "if-none-match": ["*", '"a", W/"b"'], "etag": ['"a"', 'W/"b"'], "vary": ["Accept, *", "x-a,x-b"],
    "strict-transport-security": ["max-age=31536000; includeSubDomains; preload"], "timing-allow-origin": ["https://a.b, *", "null"]}
DATES = ["Sun, 06 Nov 1994 08:49:37 GMT", "Sunday, 06-Nov-94 08:49:37 GMT", "Sun Nov  6 08:49:37 1994", "Fri, 31 Dec 9999 23:59:59 GMT"]
def legs(ctx):
    c = {"NChars": ctx.q(2, 3), "NInsert": ctx.q(0, 1), "NPairs": ctx.q(1, 2)}
    ctx.cases("texts", "Total", c, ["EveryHeader"])
    r, reqs = ctx.rng, []
    allt = sorted({t for v in SEEDS.values() for t in v} | set(DATES))
    def mutate(t):
        for _ in range(r.choice([0, 1, 1, 2, 3, 6])):
            i = r.randrange(len(t) + 1); j = min(len(t), i + r.choice([0, 0, 1, 1, 3]))
            t = t[:i] + r.choice([lambda: chr(r.randrange(128)), lambda: r.choice('",;= \\*/-:0'), lambda: "9" * r.choice([1, 4, 20, 40, 400]), lambda: t[i:j] * 2, lambda: "", lambda: r.choice(allt)[:r.randint(0, 8)]])() + t[j:]
        return t[:1200]
    heads = sorted(SEEDS)
    for k in range(ctx.q(5000, 60000)):
        h = heads[k % len(heads)]
        own = SEEDS[h] + (DATES if not SEEDS[h] or h == "retry-after" else [])
        vals = [mutate(r.choice(own if r.random() < 0.85 else allt)) for _ in range(r.choice([1, 1, 1, 1, 2, 3, 4]))]
        reqs.append(("total", dict(h=h, vals=[txt(v) for v in vals], base=r.choice(["https://b.example/x/y", "mailto:a", "", "data:x", "/rel"]))))
    ctx.ftrace("random", "Total", reqs, c, fixvars="cs = Start")
