"""P10: errors and their statuses (spec/Errors.tla)."""
def legs(ctx):
    c = {"Sts": "{200, 404, 511, 0, 600}" , "Msgs": '{"m1"}' if not ctx.thorough else '{"m1", "m2"}'}
    ctx.machine("model", "Errors", "err", c, ["AlwaysKnown"], ["StatusFrame", "Kept"], init="EInit", next="ENext", emit="EEmit")
    r = ctx.rng
    S = [100, 101, 200, 204, 301, 400, 404, 418, 422, 451, 500, 503, 511, 0, 1, 99, 102, 299, 432, 512, 600, 65535, 65736]
    def op():
        x = r.random(); m = r.choice(["m1", "m2", "", "x y", "{}", "%s", " pad ", "end\n", "two\nlines", "\u00e9", "long " * ctx.size(3, 800)]); k = r.choice(S) % 65536
        if x < 0.15: return dict(n="new", src=r.choice(["my", "io", "text", "ctx", "any"]), c=k, m=m)
        if x < 0.22: return dict(n="from", src=r.choice(["my", "io", "ctx", "any"]), m=m)
        if x < 0.26: return dict(n=r.choice(["display", "fmtargs"]), m=m)
        if x < 0.28: return dict(n=r.choice(["debug", "debugs"]), m="plain")
        if x < 0.32: return dict(n=r.choice(["fmtstexpr", "fmtstargs"]), c=r.choice([418, 503, 600]), m=m)
        if x < 0.5: return dict(n=r.choice(["ensure", "ensureeq", "bail"]), c=r.choice([0, 0, 418, 503, 600]), form=r.choice(["expr", "args"]), m=m, hold=r.random() < 0.5)
        if x < 0.72: return dict(n="attach", q=r.choice(["okres", "okerr", "some", "none", "held", "held", "my", "io"]), c=k, m=m, lazy=r.random() < 0.5)
        if x < 0.84: return dict(n=r.choice(["set", "mut"]), c=k)
        if x < 0.9: return dict(n="downcast", ty=r.choice(["my", "io", "other"]))
        if x < 0.96: return dict(n="mutate", m=m)
        return dict(n=r.choice(["inner", "boxed"]))
    hs = [(dict(x=0), [op() for _ in range(r.randint(5, 30))]) for _ in range(ctx.q(300, 5000))]
    ctx.mtrace("histories", "Errors", "err", hs, c, fix="cs = Start", fixn="UNCHANGED cs")
