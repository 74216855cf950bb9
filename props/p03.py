"""P03: Content-Type / body coupling (spec/Message.tla)."""
import p11
def legs(ctx):
    ctx.machine("model", "Message", "message", {"OpSet": "<- " + ctx.q("BodyOps0", "BodyOps1"), "MaxDepth": 0}, [], p11.PROPS)
    ctx.mtrace("histories", "Message", "message", [p11.history(ctx.rng, 0.8) for _ in range(ctx.q(400, 6000))], {"OpSet": "{}", "MaxDepth": 0})
