"""P26: Server-Timing metrics (spec/Timing.tla)."""
def txt(t): return [ord(c) for c in t]
TCHAR = "!#$%&'*+-.^_`|~abcXYZ019"
QTEXT = "\t" + "".join(map(chr, range(32, 127)))
def legs(ctx):
    c = {"NChars": ctx.q(4, 5), "NPieces": ctx.q(2, 3), "NWrite": ctx.q(2, 3)}
    ctx.cases("metrics", "Timing", c, ["RoundTrip", "QuoteLaw"])
    r, reqs = ctx.rng, []
    def name(): return "".join(r.choice(TCHAR) for _ in range(ctx.size(8, 300, 1)))
    def desc(): return "".join(r.choice(r.choice([QTEXT, '",;=\\ '])) for _ in range(r.choice([0, 1, 3, 10, ctx.size(30, 600)])))
    tame = [False]   # long lists hold nothing unreadable, so that all of them counts
    def sized(n, lo=0):
        k = ctx.size(n, 70, lo); tame[0] = k > 6
        return k
    def ns():
        if tame[0]: return str(r.randrange(10**r.randint(1, 12)))
        return str(r.choice([r.randrange(10**r.randint(1, 13)), r.randrange(10**r.randint(1, 12)) * 10**6, r.randrange(10**r.randint(14, 28))]))
    def q(t): return '"' + "".join("\\" + x if x in '"\\' or r.random() < 0.05 else x for x in t) + '"'
    def ms():
        if tame[0]: return str(r.randrange(10**r.randint(1, 9)))
        return r.choice([str(r.randrange(10**r.randint(1, 12))), "%d.%0*d" % (r.randrange(10**r.randint(1, 7)), r.randint(1, 6), r.randrange(10)), "0.%06d" % r.randrange(10**6), str(r.randrange(10**r.randint(13, 30))), "-%d" % r.randrange(9), "1e%d" % r.randrange(400), "inf", "nan"] if r.random() < 0.2 else [str(r.randrange(10**r.randint(1, 12))), "%d.%d" % (r.randrange(10**r.randint(1, 7)), r.randrange(10**6))])
    def ows(): return r.choice(["", "", " ", "\t"])
    def metric():
        t = name()
        ps = []
        if r.random() < 0.6: ps.append("dur" + ows() + "=" + ows() + ms())
        if r.random() < 0.6: ps.append("desc" + ows() + "=" + ows() + (q(desc()) if r.random() < 0.8 else name()))
        if r.random() < 0.2: ps.append(r.choice(["x=1", 'y="a, b;"', "z=" + name(), "x"]))
        r.shuffle(ps)
        return t + "".join(ows() + ";" + ows() + p for p in ps)
    for _ in range(ctx.q(2000, 30000)):
        if r.random() < 0.35:
            reqs.append(("stwrite", dict(ms=[dict(n=txt(name()), dur=[txt(ns())] if r.random() < 0.6 else [], desc=[txt(desc())] if r.random() < 0.6 else []) for _ in range(sized(6))])))
        else:
            vals = []
            for _ in range(ctx.few()):
                t = r.choice([",", ", ", " , ", ",,"]).join(metric() for _ in range(sized(4)))
                if r.random() < 0.06:   # one long value, its ends damaged
                    k = r.choice(["desc", "desc", "dur", "x", name()]); body = "".join(r.choice("019" if k == "dur" and r.random() < .8 else TCHAR + " ") for _ in range(r.choice([60, 64, 65, 128, 255, 256, 300, 600])))
                    tame[0] = True; t = r.choice(["", "a,"]) + name() + ";" + k + r.choice(["=", "=", "= ", ""]) + r.choice(["", '"', "\\"]) + body + r.choice(["", '"', '\\"', "\\", '"x', '""', ";"])
                if r.random() < 0.15 and t and not tame[0]: i = r.randrange(len(t)); t = t[:i] + r.choice(['"', "=", ",", " ", "\x00", ";", "\\", "-"]) + t[i + r.randint(0, 1):]
                vals.append(txt(t))
            reqs.append(("stread", dict(vals=vals)))
    for k in [2, 5, 20, 40, 70]:   # the same few metrics over and over
        tame[0] = True; pool = [metric() for _ in range(3)]; ws = [dict(n=txt(name()), dur=[txt(ns())], desc=[txt(desc())]) for _ in range(3)]
        for _ in range(3):
            reqs.append(("stread", dict(vals=[txt(", ".join(r.choice(pool) for _ in range(k))) for _ in range(ctx.few())])))
            reqs.append(("stwrite", dict(ms=[r.choice(ws) for _ in range(k)])))
    ctx.ftrace("random", "Timing", reqs, c, fixvars="cs = Start")
