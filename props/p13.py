"""P13: Accept-Encoding and TE negotiation (spec/Nego.tla)."""
import gen_nego
def legs(ctx):
    c = {"Kinds": '{"ae", "te"}', "Items": "<- EItems", "Wts": "<- EWts", "Avails": "<- EAvails", "MaxLen": ctx.q(2, 3)}
    ctx.machine("model", "Nego", "nego", c, ["SortKeeps", "OneReads", "SortOrders"], ["NegoPure", "NeverForbidden"], max_walk=40)
    ctx.mtrace("histories", "Nego", "nego", gen_nego.histories(ctx.rng, ["ae", "te"], ctx.q(500, 6000)), c)
