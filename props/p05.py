"""P05: header collections (spec/Headers.tla)."""
PROPS = ["Frame", "AppendKeeps", "FailedKeeps", "ReadKeeps", "InsertReturns"]
NAMES = ["X-A", "x-a", "X-a", "Set-Cookie", "set-cookie", "SET-COOKIE", "Accept", "accept", "B", "b", "content-type", "Content-Type", "X_Y~z", "a"]
VALS = ["", "1", "2", "a, b", "text/html; q=0.5", "x" * 40, "\t tab", "A, B", "TEXT/html; Q=0.5", " 1", "1 ", "1\r\n", "\n", "\x00", "\x7f", "X" * 40, "gzip", "Gzip"]
MANY = ["n-%d" % i for i in range(90)]

def op(r, names=NAMES, sizes=(0, 1, 1, 1, 2, 3, 5)):
    h, x = r.choice(names), r.random()
    vs = [r.choice(VALS) for _ in range(r.choice(sizes))]
    if x < 0.30: return dict(n="app", h=h, vs=vs)
    if x < 0.45: return dict(n="ins", h=h, vs=vs)
    if x < 0.55: return dict(n="rm", h=h)
    if x < 0.63: return dict(n="get", h=h)
    if x < 0.67: return dict(n="index", h=h)
    if x < 0.74: return dict(n="push", h=h, vs=vs)
    if x < 0.80: return dict(n="edit", h=h, i=r.randint(1, 4), v=r.choice(VALS))
    if x < 0.83: return dict(n="editall", v=r.choice(VALS))
    if x < 0.88: return dict(n="copy", h=h, to=r.choice(names))
    if x < 0.92: return dict(n="contains", h=h, v=r.choice(VALS))
    if x < 0.96: return dict(n=r.choice(["insbad", "appbad"]), h=h)
    if x < 0.97: return dict(n="drain")
    return dict(n="get", h=h)

def legs(ctx):
    c = {"Keys": "{}", "Spellings": '{"X-A", "x-a", "b"}', "Values": '{"1", "2"}', "MaxLen": ctx.q(2, 3)}
    ctx.machine("model", "Headers", "headers", c, ["NonEmpty"], PROPS)
    hs = [(dict(kind=ctx.rng.choice(["req", "res", "trailers", "headers"])), [op(ctx.rng) for _ in range(ctx.rng.randint(5, 50))]) for _ in range(ctx.q(400, 6000))]
    # few names with many values, and many names
    for i in range(ctx.q(8, 60)):
        names = ["x-a", "X-A"] if i % 2 else MANY
        ops = [op(ctx.rng, names, (1, 9, 30) if i % 2 else (1, 2)) for _ in range(60)]
        if i % 2: ops = [o for o in ops if o["n"] in ("app", "push", "get", "contains", "edit")] + ops[-4:]
        else: ops = [dict(n="ins", h=h, vs=["1"]) for h in names] + ops
        hs.append((dict(kind=ctx.rng.choice(["req", "res", "trailers", "headers"])), ops))
    # names and values by the hundred
    for i in range(ctx.q(4, 30)):
        r, k = ctx.rng, ctx.rng.choice([130, 200, 300])
        names = ["n-%d" % r.randrange(k + 5) for _ in range(6)] + ["x-a", "X-A"]
        ops = [dict(n="many", pre="n-", **{"from": 0}, to=k, vs=["1", "2"][:r.randint(1, 2)]), dict(n="app", h="x-a", vs=[str(j) for j in range(k)]), dict(n="app", h="X-A", vs=["z"]), dict(n="push", h="x-a", vs=["y"] * 70), dict(n="edit", h="x-a", i=k - 3, v="e")]
        hs.append((dict(kind=["req", "res", "trailers", "headers"][i % 4]), ops + [op(r, names) for _ in range(10)]))
    ctx.mtrace("histories", "Headers", "headers", hs, c)
