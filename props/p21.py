"""P21: Content-Length, Age and Retry-After (spec/Numbers.tla)."""
def txt(t): return [ord(c) for c in t]
def legs(ctx):
    c = {"Chars": "<- Chars1", "NChars": ctx.q(3, 4)}
    ctx.cases("numbers", "Numbers", c, ["RoundTrip"])
    r, reqs = ctx.rng, []
    def num():
        return r.choice([r.randint(0, 100), r.getrandbits(r.randint(1, 64)), 2**64 - 1 - r.randint(0, 3), 2**63 + r.randint(-2, 2), 2**53 + r.randint(-3, 3), 10**r.randint(0, 19)])
    for _ in range(ctx.q(2500, 30000)):
        x = r.random()
        if x < 0.25: reqs.append(("numwrite", dict(h=r.choice(["age", "content-length"]), t=txt(str(num())))))
        elif x < 0.4: reqs.append(("retrydelay", dict(t=txt(str(num())), ns=r.choice([0, r.randrange(10**9)]))))
        elif x < 0.5: reqs.append(("retryat", dict(d=r.randint(0, 2932896), s=r.randint(0, 86399), ns=r.choice([0, r.randrange(10**9)]))))
        else:
            t = "0" * r.choice([0, 0, 0, 1, 25]) + str(r.choice([num(), num(), num() * 10, 2**64 + r.randint(0, 9)]))
            if r.random() < 0.4: i = r.randrange(len(t) + 1); t = t[:i] + r.choice(["+", "-", " ", ".", "e", ",", "_", "\t", "\x00", "x", "/", ":"]) + t[i:]
            vals = [txt("7")] * ctx.few((0, 0, 0, 1)) + [txt(t)]
            reqs.append(("retryread", dict(vals=vals)) if r.random() < 0.3 else ("numread", dict(h=r.choice(["age", "content-length"]), vals=vals)))
    ctx.ftrace("random", "Numbers", reqs, c, fixvars="cs = Start")
