"""P22: entity tags and the conditional lists (spec/Conditional.tla)."""
def txt(t): return [ord(c) for c in t]
ETAGC = "".join(chr(i) for i in range(33, 127) if i != 34)
TCHAR = "!#$%&'+-.^_`|~abcXYZ019"
def legs(ctx):
    c = {"NChars": ctx.q(4, 5), "NParts": ctx.q(3, 4), "NWrite": ctx.q(2, 3)}
    ctx.cases("tags", "Conditional", c, ["TagRoundTrip", "ListRoundTrip", "SplitLaw"])
    r, reqs = ctx.rng, []
    def opaque(): return "".join(r.choice(r.choice([ETAGC, ",W/*\\"])) for _ in range(r.choice([0, 1, 2, 5, ctx.size(20, 600)])))
    def tag(): return dict(w=r.random() < 0.5, t=txt(opaque()))
    def name(): 
        t = "".join(r.choice(TCHAR) for _ in range(ctx.size(12, 300, 1)))
        return t
    def spell(): return r.choice(["", "W/"]) + '"' + opaque() + '"'
    def harm(t):
        i = r.randrange(len(t) + 1)
        return t[:i] + r.choice(['"', ",", " ", "\x00", "W/", "\x7f", ""]) + t[i + r.randint(0, 1):]
    for _ in range(ctx.q(3000, 40000)):
        h, k = r.choice(["if-match", "if-none-match", "vary"]), r.random()
        if k < 0.1: reqs.append(("etagwrite", dict(g=tag())))
        elif k < 0.3: reqs.append(("etagread", dict(vals=[txt(harm(spell()) if r.random() < 0.5 else spell()) for _ in range(ctx.few())])))
        elif k < 0.6: reqs.append(("condwrite", dict(h=h, l=dict(es=[txt(name()) if h == "vary" else tag() for _ in range(ctx.size(8, 70))], wild=r.random() < 0.5))))
        else:
            vals = []
            for _ in range(ctx.few()):
                t = r.choice([",", ", ", " , ", ",,", ",\t"]).join("*" if r.random() < 0.1 else name() if h == "vary" else spell() for _ in range(ctx.size(6, 70)))
                vals.append(txt(harm(t) if r.random() < 0.15 else t))
            reqs.append(("condread", dict(h=h, vals=vals)))
    for h in ["if-match", "if-none-match", "vary"]:
        for k in [64, 130]:
            reqs.append(("condwrite", dict(h=h, l=dict(es=[txt(name()) if h == "vary" else tag() for _ in range(k)], wild=r.random() < 0.5))))
            reqs.append(("condread", dict(h=h, vals=[txt(", ".join(name() if h == "vary" else spell() for _ in range(k)))])))
        for k in [5, 20, 40, 70]:   # the same few members over and over
            pool = [name() if h == "vary" else tag() for _ in range(3)]; sp = [name() if h == "vary" else spell() for _ in range(3)]
            reqs.append(("condwrite", dict(h=h, l=dict(es=[txt(x) if h == "vary" else x for x in (r.choice(pool) for _ in range(k))], wild=r.random() < 0.5))))
            reqs.append(("condread", dict(h=h, vals=[txt(", ".join(r.choice(sp) for _ in range(k))) for _ in range(ctx.few())])))
    ctx.ftrace("random", "Conditional", reqs, c, fixvars="cs = Start")
