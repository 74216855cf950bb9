"""P18: a request's remote address and host (spec/Forwarded.tla)."""
from props import p17
def txt(t): return [ord(c) for c in t]
def legs(ctx):
    c = p17.consts(ctx)
    ctx.cases("sources", "Forwarded", c, [], next="NextR")
    r, reqs = ctx.rng, []
    def hs(f, p):
        k = 0 if r.random() > p else r.choice([1, 1, 1, 2])
        return [[c for c in txt(f()) if c < 128] for _ in range(k)]
    A = ["1.2.3.4", "[::1]:80", "2001:db8::9", "h.example", "x", "::ffff:1.2.3.4", ""]
    lst = lambda: r.choice(["", " ", "\t"]) + r.choice([",", ", ", " ,"]).join(r.choice(A) for _ in range(r.randint(1, 3)))
    for _ in range(ctx.q(2500, 40000)):
        if r.random() < 0.5: reqs.append(("remote", dict(fwd=hs(lambda: p17.header(r), 0.6), xf=hs(lst, 0.5), peer=[txt(r.choice(A))] if r.random() < 0.5 else [])))
        else: reqs.append(("host", dict(fwd=hs(lambda: p17.header(r), 0.6), xh=hs(lst, 0.5), hosts=hs(lambda: r.choice(A + ["u@h", "h:80", "[::1]", "H.", "a,b", "xn--a", "h;x", "-", "", "H.Example:80"]), 0.5), url=[txt(r.choice(["url.org", "[::1]", "10.0.0.1"]))] if r.random() < 0.7 else [])))
    ctx.ftrace("random", "Forwarded", reqs, c, fixvars=p17.FX)
