"""P20: Cache-Control (spec/Cache.tla)."""
def txt(t): return [ord(c) for c in t]
F = ["immutable", "no-cache", "no-store", "no-transform", "only-if-cached", "must-revalidate", "public", "private", "proxy-revalidate"]
N = ["max-age", "min-fresh", "s-maxage", "stale-if-error", "stale-while-revalidate", "max-stale"]
def legs(ctx):
    c = {"NPieces": ctx.q(3, 4), "NWrite": ctx.q(2, 3)}
    ctx.cases("directives", "Cache", c, ["RoundTrip", "SomewhereValid"])
    r, reqs = ctx.rng, []
    def num(): return str(r.choice([0, 1, 60, r.getrandbits(r.randint(1, 64)), 2**64 - 1]))
    def near(n):
        i = r.randrange(len(n) + 1); x = r.choice(["", "s", "-", "_", "x", "0", "~", "z" * r.choice([1, 60, 256])])
        return n[:i] + x + n[i + (r.randint(0, 1) if x else 1):]
    def one():
        if r.random() < 0.04: return near(r.choice(F + N)) + r.choice(["", "=1", "=x", '="q"'])
        n = r.choice(F + N + N + ["foo", "s-max-age", "community"])
        m = "".join(x.upper() if r.random() < 0.2 else x for x in n)
        if n in F: return m + (r.choice(['="a, max-age"', '="set-cookie"', "=x"]) if n in ("no-cache", "private") and r.random() < 0.3 else "")
        if n in N: return m + ("=" + num() if r.random() < 0.9 else r.choice(["", "=", "=x", "=+1", "=1=1", '="1"', "= 1", "=" + "9" * 25]))
        return m + r.choice(["", "=1", '="a,b"', "="])
    for _ in range(ctx.q(2500, 40000)):
        if r.random() < 0.3:
            ds = [(n, [txt(num())] if n in N and not (n == "max-stale" and r.random() < 0.5) else []) for n in (r.choice(F + N) for _ in range(ctx.size(8, 70)))]
            reqs.append(("ccwrite", dict(ds=[dict(n=n, a=a) for n, a in ds])))
        else:
            vals = []
            for _ in range(ctx.few()):
                t = r.choice([",", ", ", " , ", ",,", ",\t"]).join(one() for _ in range(ctx.size(5, 70)))
                if r.random() < 0.1 and t: i = r.randrange(len(t)); t = t[:i] + r.choice(['"', "=", ",", " ", "\x00", "-", "\\"]) + t[i + r.randint(0, 1):]
                vals.append(txt(t))
            reqs.append(("ccread", dict(vals=vals)))
    ctx.ftrace("random", "Cache", reqs, c, fixvars="cs = Start")
