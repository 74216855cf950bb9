"""P12: Accept negotiation (spec/Nego.tla)."""
import gen_nego
def legs(ctx):
    c = {"Kinds": '{"accept"}', "Items": "<- MItems", "Wts": "<- MWts", "Avails": "<- MAvails", "MaxLen": ctx.q(2, 3)}
    ctx.machine("model", "Nego", "nego", c, ["SortKeeps", "OneReads", "SortOrders"], ["NegoPure"], max_walk=40)
    ctx.mtrace("histories", "Nego", "nego", gen_nego.histories(ctx.rng, ["accept"], ctx.q(500, 6000)), c)
