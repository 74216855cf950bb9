"""P09: extensions (spec/Ext.tla)."""
T = ["i32", "u32", "string", "tag", "unit", "boxed", "vec", "twina", "twinb", "sref", "opt", "arc", "dyn", "fn", "json", "name"] + ["g%d" % i for i in range(16)]
def legs(ctx):
    c = {"Vals": "{1, 2}", "Types": ctx.q('{"i32", "twina", "twinb"}', '{"i32", "twina", "twinb", "boxed"}')}
    ctx.machine("model", "Ext", "ext", c, [], ["Frame", "RemoveInverse"])
    r = ctx.rng
    pool = T
    def op():
        x = r.random()
        if x < 0.03: return dict(n="clear")
        if x < 0.6: return dict(n=r.choice(["insert", "insert", "mutate"]), t=r.choice(pool), v=r.randint(0, 99))
        return dict(n=r.choice(["remove", "get", "contains"]), t=r.choice(pool))
    hs = []
    for i in range(ctx.q(400, 5000)):
        pool = T if i % 4 == 0 else r.sample(T, r.randint(1, 5))  # a few types, so that they meet often
        all_in = [dict(n="insert", t=t, v=r.randint(0, 99)) for t in r.sample(T, len(T))] if i % 8 == 0 else []  # the collection full
        hs.append((dict(kind=r.choice(["ext", "req", "res"])), all_in + [op() for _ in range(r.randint(5, 60 if i % 20 else 300))]))
    ctx.mtrace("histories", "Ext", "ext", hs, c)
