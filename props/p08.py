"""P08: upgrade hand-over and connections (spec/Channel.tla, spec/Conn.tla)."""
import p07
def legs(ctx):
    p07.run(ctx, ["upgrade"])
    c = {"RScripts": "<- RS1", "WScripts": "<- WS1", "Lens": "{0, 1, 2}"}
    ctx.machine("connection", "Conn", "conn", c, [], ["Grows"])
    r = ctx.rng
    def ev(z): return [dict(t=r.choice("dddddpe"), n=0) for _ in range(r.randint(0, 10))]
    def fill(l): return [dict(e, n=r.choice([1, 2, 3, 7, 20]) if e["t"] == "d" else r.randrange(13) if e["t"] == "e" else 0) for e in l]
    def op():
        x = r.random()
        if x < 0.45: return dict(n="read", len=r.choice([0, 1, 2, 5, 64]))
        if x < 0.85: return dict(n="write", v=[r.randrange(256) for _ in range(r.choice([0, 1, 1, 2, 8, 20, 20, ctx.size(20, 600)]))])
        return dict(n=r.choice(["flush", "close"]))
    hs = [(dict(r=fill(ev(0)), w=fill(ev(0)), f=fill(ev(0))), [op() for _ in range(r.randint(1, 30))]) for _ in range(ctx.q(300, 4000))]
    ctx.mtrace("connection histories", "Conn", "conn", hs, c)
