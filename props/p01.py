"""P01: length-bounded, ordered, exactly-once body reads (spec/Body.tla)."""
INV = ["Bounded"]
PROPS = ["InOrder", "EofMeansDone", "LenStable", "NoTouch"]
ASSUMPTIONS = ["sources obey the AsyncRead/AsyncBufRead contract", "callers consume at most what the last fill returned"]

def consts(ctx, chains):
    return {"Scripts": "<- " + ctx.q("Scripts1", "Scripts2"), "Lims": "<- Lims1", "BufSizes": "{1, 2, 3}",
            "Others": "<- " + (ctx.q("Others1", "Others2") if chains else "NoOthers"), "MaxChains": chains}

def script(rng, big=False):
    ev = []
    for _ in range(rng.randint(0, 7)):
        x = rng.random()
        if x < 0.65: ev.append(dict(t="d", n=rng.choice([1, 2, 3, 5, 8, 13, 30, 64]) if big else rng.randint(1, 4)))
        elif x < 0.85: ev.append(dict(t="p", n=0))
        else: ev.append(dict(t="e", n=rng.randrange(13)))
    return ev

def total(ev): return sum(e["n"] for e in ev if e["t"] == "d")

def lim(rng, ev):
    t = total(ev)
    return rng.choice([-1, 0, t, t, max(0, t - 1), t + 1, rng.randint(0, t + 3), 1, 10**7, 10**7 - 1, 10**7 - 50, 10**5, 10**5 + 2, 3 * 10**5 - 1])

def body(rng, big, id=1):
    ctor = rng.choice(["", "", "", "bytes", "vec", "slice", "string", "str", "empty"])
    if ctor == "": ev = script(rng, big); return dict(ev=ev, lim=lim(rng, ev), id=id, mime=rng.choice(["bin", "text", "text", "none", "json", "text16", "plain"]), ctor="reader")
    if ctor == "empty": return dict(ev=[], lim=0, id=id, mime="bin", ctor=ctor)
    k = rng.choice([1, 2, 7, 40]); id = 1 if ctor in ("string", "str") else id
    return dict(ev=[dict(t="d", n=k)], lim=k, id=id, mime="text" if ctor in ("string", "str") else "bin", ctor=ctor)

class Sim:
    """Tracks just enough (bytes available after a fill) to generate legal histories; the verdict is TLC's."""

def history(rng, big, chains):
    init = dict(body(rng, big), via=rng.choice(["body", "body", "req", "res"]))
    ops = []
    ids = 2
    for _ in range(rng.randint(3, 28)):
        x = rng.random()
        if x < 0.45: ops.append(dict(n="read", len=rng.choice([1, 1, 2, 3, 5, 16, 100]) if big else rng.randint(1, 5)))
        elif x < 0.80: ops.append(dict(n="fill")); ops.append(dict(n="consume", len=rng.choice([0, 1, 1, 2, 3, 9, 50]), cap=1))
        elif x < 0.80 + (0.15 if chains else 0):
            o = body(rng, big, ids); ids = ids % 5 + 1
            o.update(pre=rng.choice([0, 0, 1, 2, 5]), how=rng.choice(["read", "buf"]))
            ops.append(dict(n="chain", side=rng.choice(["after", "after", "before"]), other=o))
        else: ops.append(dict(n="mime", v=rng.choice(["bin", "text", "none", "json", "text16", "plain"])))
    return init, ops

def legal(init, ops):
    """Cap each consume at what the declared source can still offer, by a tiny shadow of the source scripts."""
    # shadow: list of [events, lim]
    def mk(c): return [[dict(e) for e in c["ev"]], c["lim"], ]
    segs = [mk(init)]
    def settle():
        while segs and (segs[0][1] == 0 or not segs[0][0]) and len(segs) > 1: segs.pop(0)
        return segs[0][1] == 0 or not segs[0][0]
    def take(k):
        e = segs[0][0][0]; e["n"] -= k
        if e["n"] == 0: segs[0][0].pop(0)
        if segs[0][1] >= 0: segs[0][1] -= k
    def window(m): return m if segs[0][1] < 0 else min(m, segs[0][1])
    def rd(k):
        if settle(): return
        e = segs[0][0][0]
        if e["t"] != "d": segs[0][0].pop(0); return
        g = min(e["n"], window(k))
        if g: take(g)
    def fill():
        if settle(): return 0
        e = segs[0][0][0]
        if e["t"] != "d": segs[0][0].pop(0); return 0
        return window(e["n"])
    out, avail = [], 0
    for o in ops:
        o = dict(o)
        if o["n"] == "read": rd(o["len"]); avail = 0
        elif o["n"] == "fill": avail = fill()
        elif o["n"] == "consume":
            o.pop("cap", None); o["len"] = min(o["len"], avail)
            if o["len"]: take(o["len"]); avail -= o["len"]
        elif o["n"] == "chain":
            keep = segs[:]
            segs[:] = [mk(o["other"])]
            if o["other"]["pre"]:
                if o["other"]["how"] == "read": rd(o["other"]["pre"])
                else:
                    a = fill(); k = min(a, o["other"]["pre"])
                    if k: take(k)
            new = segs[:]
            segs[:] = keep + new if o["side"] == "after" else new + keep
            avail = 0
        out.append(o)
    return init, out

def large(rng, chains):
    """A history whose every byte stands for `unit` bytes: chunks, buffers and lengths far beyond any internal buffer."""
    init, ops = history(rng, False, chains)
    small = lambda b: b.update(lim=b["lim"] if b["lim"] < 100 else rng.choice([-1, total(b["ev"])]))
    small(init)
    for o in ops:
        if o["n"] == "chain": small(o["other"])
    return dict(init, unit=rng.choice([1000, 4096, 8192, 32768, 65536, 65537, 100000])), ops

def legs(ctx):
    ctx.machine("model", "Body", "body", consts(ctx, 0), INV, PROPS)
    n = ctx.q(1200, 20000)
    hs = [legal(*history(ctx.rng, i % 2 == 0, False)) for i in range(n)]
    ctx.mtrace("histories", "Body", "body", hs, consts(ctx, 0))
    ctx.mtrace("large", "Body", "body", [legal(*large(ctx.rng, False)) for _ in range(ctx.q(120, 1500))], consts(ctx, 0))
