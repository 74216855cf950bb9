"""P02: chained bodies (spec/Body.tla with chaining)."""
import p01
ASSUMPTIONS = p01.ASSUMPTIONS
def legs(ctx):
    c = dict(p01.consts(ctx, 1), BufSizes="{1, 3}", Scripts="<- Scripts1")
    if not ctx.thorough: c["Lims"] = "<- Lims0"
    ctx.machine("model", "Body", "body", c, p01.INV, p01.PROPS)
    if ctx.thorough: # two chainings in a row
        ctx.machine("model, twice", "Body", "body", dict(c, MaxChains=2, Lims="<- LimsB", Others="<- Others1", BufSizes="{2}"), p01.INV, p01.PROPS)
    n = ctx.q(1200, 20000)
    hs = [p01.legal(*p01.history(ctx.rng, i % 2 == 0, True)) for i in range(n)]
    ctx.mtrace("histories", "Body", "body", hs, p01.consts(ctx, 0))
    ctx.mtrace("large", "Body", "body", [p01.legal(*p01.large(ctx.rng, True)) for _ in range(ctx.q(120, 1500))], p01.consts(ctx, 0))
