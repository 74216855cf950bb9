"""P28: Strict-Transport-Security and Timing-Allow-Origin (spec/Transport.tla)."""
def txt(t): return [ord(c) for c in t]
def legs(ctx):
    c = {"NPieces": ctx.q(2, 3), "NList": ctx.q(3, 4)}
    ctx.cases("policies", "Transport", c, ["HstsRoundTrip", "HstsOrder", "TaoSplit", "TaoRoundTrip"])
    r, reqs = ctx.rng, []
    def case(t): return "".join(x.upper() if r.random() < 0.5 else x for x in t)
    def num(): return str(r.choice([r.randrange(10), r.randrange(2**32), r.randrange(2**64), 2**64 - 1, 2**32]))
    def tok(): return "".join(r.choice("abcxyz-019_") for _ in range(ctx.size(8, 300, 1)))
    def near(n):
        i = r.randrange(len(n) + 1); x = r.choice(["", "s", "-", "_", "x", "0", "z" * r.choice([1, 60, 256])])
        return n[:i] + x + n[i + (r.randint(0, 1) if x else 1):]
    def directive(): return r.choice([lambda: near(r.choice(["max-age", "includesubdomains", "preload", "Preload"])) + r.choice(["", "=5", "="]), lambda: case("max-age") + "=" + num(), lambda: case("includesubdomains"), lambda: case("preload"), tok, lambda: tok() + "=" + tok()])()
    def origin(): return r.choice(["http", "https", "HTTPS"]) + "://" + r.choice(["a.b", "example.com", "X.y-z.net", tok()]) + r.choice(["", ":%d" % r.randrange(66000), ":443"]) + r.choice(["", "", "/", "/" + tok()])
    for _ in range(ctx.q(3000, 40000)):
        k = r.random()
        if k < 0.4:
            vals = []
            for _ in range(ctx.few((1, 1, 1, 2))):
                ds = [case("max-age") + "=" + num()] * (r.random() < 0.8) + [case("includesubdomains")] * r.randint(0, 1) + [case("preload")] * r.randint(0, 1) + [directive() for _ in range(r.choice([0, 0, 1, ctx.size(3, 40)]))]
                r.shuffle(ds)
                t = r.choice([";", "; ", " ; ", ";;"]).join(ds)
                if r.random() < 0.15 and t: i = r.randrange(len(t)); t = t[:i] + r.choice('"=;, -+xX\x00') + t[i + r.randint(0, 1):]
                vals.append(txt(t))
            reqs.append(("hstsread", dict(vals=vals)))
        elif k < 0.5: reqs.append(("hstswrite", dict(age=txt(num()), sub=r.random() < 0.5, pre=r.random() < 0.5, ns=r.choice([0, r.randrange(10**9)]))))
        elif k < 0.8:
            vals = [txt(r.choice([",", ", ", " , ", ",,"]).join(r.choice([origin, origin, origin, lambda: "*", tok])() if r.random() < 0.3 else origin() for _ in range(ctx.size(5, 70)))) for _ in range(ctx.few())]
            reqs.append(("taoread", dict(vals=vals)))
        else: reqs.append(("taowrite", dict(us=[txt(origin()) for _ in range(ctx.size(8, 70))], any=r.random() < 0.5)))
    for k in [64, 130]:
        us = [txt("https://a%d.example" % r.randrange(10**6) + r.choice(["", ":81", "/", "/" + tok()])) for _ in range(k)]
        reqs.append(("taowrite", dict(us=us, any=k == 64))); reqs.append(("taoread", dict(vals=[[c for u in us for c in u + [44, 32]][:-2]])))
        reqs.append(("hstsread", dict(vals=[txt("; ".join(["x" + tok() for _ in range(k)] + ["max-age=7"] + ["y=" + tok() for _ in range(k)] + ["preload"]))])))
    for k in [3, 20, 40, 70]:
        pool = [txt(origin()) for _ in range(3)]; us = [r.choice(pool) for _ in range(k)]
        reqs.append(("taowrite", dict(us=us, any=k == 3))); reqs.append(("taoread", dict(vals=[[c for u in us for c in u + [44, 32]][:-2]])))
    ctx.ftrace("random", "Transport", reqs, c, fixvars="cs = Start")
