"""P25: trace contexts (spec/Trace.tla)."""
def txt(t): return [ord(c) for c in t]
def legs(ctx):
    c = {"NOps": ctx.q(4, 6), "NPieces": ctx.q(5, 6)}
    ctx.cases("contexts", "Trace", c, ["Propagates"])
    r, reqs = ctx.rng, []
    OPS = ["child", "wire", "on", "off"]
    def hx(n): return "%0*x" % (n, r.getrandbits(r.choice([4 * n, 4 * n, 8, 1])))
    for _ in range(ctx.q(1500, 20000)):
        t = "-".join([hx(2), hx(32), hx(16), hx(2)])
        if r.random() < 0.1: t += "-" + hx(3)
        k = r.random()
        if k < 0.3: i = r.randrange(len(t) + 1); t = t[:i] + r.choice(["", "-", "+", "0", "g", "A", " ", "\x00", "--"]) + t[i + r.randint(0, 2):]
        elif k < 0.35: t = t[:r.randrange(len(t))]
        reqs.append(("trace", dict(start="new" if r.random() < 0.2 else "read", vals=[txt(t)], ops=[r.choice(OPS) for _ in range(r.choice([0, 1, 3, 10, 30]))])))
    ctx.ftrace("random", "Trace", reqs, c, fixvars="cs = Start")
