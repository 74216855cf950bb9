"""P07: trailers hand-over (spec/Channel.tla)."""
PROPS = ["AtMostOnce", "NothingEarly", "Kept"]
VALS = ["one", "two", "", "a, b; c", "none", "many", "x" * 300]
def history(r, kinds):
    """A random legal schedule; the verdict is TLC's."""
    k = r.choice(kinds); msg, snd, rcv = "alive", "in", "in"; ops = []; copies = 0
    for _ in range(r.randint(3, 25)):
        c = []
        if msg == "alive": c += ["mksender", "mkreceiver", "mkreceiver", "clone"] + (["dropmsg"] if r.random() < 0.4 else [])
        if snd == "held": c += ["send", "start"] + (["dropsender"] if r.random() < 0.5 else [])
        if snd == "started": c += ["run", "run"] + (["dropsender"] if r.random() < 0.5 else [])
        if rcv == "held": c += ["poll"] * 4 + (["dropreceiver"] if r.random() < 0.15 else [])
        if copies: c += ["dropcopies"] if r.random() < 0.3 else []
        if not c: break
        n = r.choice(c); o = dict(n=n)
        if n == "mksender" and snd == "in": snd = "held"
        elif n == "mkreceiver" and rcv == "in": rcv = "held"
        elif n in ("send", "start"): o["v"] = r.choice(VALS); snd = "gone" if n == "send" else "started"
        elif n in ("run", "dropsender"): snd = "gone"
        elif n == "dropreceiver": rcv = "gone"
        elif n in ("clone", "dropcopies"): copies = n == "clone"
        elif n == "dropmsg": msg = "gone"
        ops.append(o)
    return dict(kind=k), ops

def family(r, kinds):
    """A random legal history of a message and its copies."""
    k = r.choice(kinds); m = [dict(a=True, s="in", r="in")]; ops = []
    for _ in range(r.randint(4, 40)):
        c = []
        for i, x in enumerate(m, 1):
            if x["a"]: c += [("mksender", i)] * dict(lost=0).get(x["s"], 3 if x["s"] == "in" else 1) + [("mkreceiver", i)] * dict(lost=0).get(x["r"], 3 if x["r"] == "in" else 1) + [("try", i)] + ([("clone", i)] * 2 if len(m) < 5 else [])
            if x["a"] and r.random() < 0.3: c.append(("dropmsg", i))
            if x["s"] == "held": c += [("send", i)] * 4 + [("dropsender", i)]
            if x["r"] == "held": c += [("poll", i)] * 4 + ([("dropreceiver", i)] if r.random() < 0.2 else [])
        if not c: break
        n, i = r.choice(c); x = m[i - 1]; o = dict(n=n, i=i)
        if n == "clone": m.append(dict(a=True, s="lost", r="lost") if k == "req" else dict(a=True, s="in" if x["s"] == "in" else "lost", r="in" if x["r"] == "in" else "lost"))
        elif n == "mksender": x["s"] = "held" if x["s"] == "in" else x["s"]
        elif n == "mkreceiver": x["r"] = "held" if x["r"] == "in" else x["r"]
        elif n == "dropmsg": x["a"] = False
        elif n in ("send", "dropsender"): x["s"] = "gone"
        elif n == "dropreceiver": x["r"] = "gone"
        if n == "send": o["v"] = r.choice(VALS)
        ops.append(o)
    return dict(kind=k), ops

def share(ctx, kinds):
    c = {"Kinds": "{%s}" % ", ".join('"%s"' % k for k in kinds), "Vals": '{"one"}', "Most": ctx.q("2", "3")}
    ctx.machine("family", "Share", "share", c, ["Kin"], ["Ordered", "NoneMeansNone"])
    ctx.mtrace("families", "Share", "share", [family(ctx.rng, kinds) for _ in range(ctx.q(300, 4000))], c)
    r = ctx.rng; kind = [k for k in kinds if k != "req"]
    ctx.ftrace("crowd", "Share", [("crowd", dict(kind=r.choice(kind), vs=sorted("v%d" % j for j in range(r.randint(0, 8))), delays=[r.choice([0, 0, 20, 100, 500]) for _ in range(4)])) for _ in range(ctx.q(150, 3000))], c, fixvars="s = 0 /\\ op = 0")

def run(ctx, kinds):
    share(ctx, kinds)
    c = {"Kinds": "{%s}" % ", ".join('"%s"' % k for k in kinds), "Vals": '{"one", "none"}'}
    ctx.machine("model", "Channel", "channel", c, ["Reports"], PROPS, liveness=("FairSpec", ["Answered"]))
    ctx.mtrace("schedules", "Channel", "channel", [history(ctx.rng, kinds) for _ in range(ctx.q(600, 8000))], c)
    r = ctx.rng
    race = [("race", dict(kind=r.choice(kinds), send=r.random() < 0.7, v="v%d" % i, delays=[r.choice([0, 0, 20, 100, 500]) for _ in range(3)])) for i in range(ctx.q(400, 8000))]
    ctx.ftrace("threads", "Channel", race, c, fixvars="s = 0 /\\ op = 0")

def legs(ctx): run(ctx, ["req", "res"])
