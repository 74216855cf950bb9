"""P23: headers made of registered tokens (spec/Tokens.tla)."""
def txt(t): return [ord(c) for c in t]
METHODS = "GET HEAD OPTIONS PRI PROPFIND REPORT SEARCH TRACE ACL BASELINE-CONTROL BIND CHECKIN CHECKOUT CONNECT COPY DELETE LABEL LINK LOCK MERGE MKACTIVITY MKCALENDAR MKCOL MKREDIRECTREF MKWORKSPACE MOVE ORDERPATCH PATCH POST PROPPATCH PUT REBIND UNBIND UNCHECKOUT UNLINK UNLOCK UPDATE UPDATEREDIRECTREF VERSION-CONTROL".split()
CLEARS = ["cache", "cookies", "storage", "executionContexts"]
COD = ["gzip", "deflate", "br", "zstd", "identity", "chunked"]
def legs(ctx):
    c = {"NParts": ctx.q(3, 4), "NWrite": ctx.q(4, 6)}
    ctx.cases("tokens", "Tokens", c, ["RoundTrip", "AllowRoundTrip", "SplitLaw"])
    r, reqs = ctx.rng, []
    def mix(t): return "".join(x.swapcase() if r.random() < 0.3 else x for x in t)
    def harm(t):
        i = r.randrange(len(t) + 1)
        return t[:i] + r.choice(['"', ",", " ", "\x00", "*", "\x7f", ""]) + t[i + r.randint(0, 1):]
    for _ in range(ctx.q(2500, 30000)):
        h = r.choice(["allow", "allow", "clear-site-data", "clear-site-data", "content-encoding", "transfer-encoding", "expect"])
        if r.random() < 0.3:
            p = r.random()
            v = {m: r.random() < p for m in METHODS} if h == "allow" else dict(es=[r.choice(CLEARS) for _ in range(ctx.size(8, 70))], wild=r.random() < 0.5) if h == "clear-site-data" else "100-continue" if h == "expect" else r.choice(COD[:5] if h == "content-encoding" else COD)
            reqs.append(("tokwrite", dict(h=h, v=v)))
        else:
            vals = []
            for _ in range(ctx.few()):
                if h == "allow": t = r.choice([",", ", ", " , ", ",,"]).join(mix(r.choice(METHODS)) for _ in range(ctx.size(6, 70)))
                elif h == "clear-site-data": t = r.choice([",", ", ", " , ", ",,"]).join('"%s"' % r.choice(CLEARS + ["*"]) if r.random() < 0.97 else mix(r.choice(CLEARS)) for _ in range(ctx.size(6, 70)))
                elif h == "expect": t = mix("100-continue")
                else: t = r.choice(["", "", " "]) + mix(r.choice(COD + ["foo"]))
                vals.append(txt(harm(t) if r.random() < 0.15 else t))
            reqs.append(("tokread", dict(h=h, vals=vals)))
    ctx.ftrace("random", "Tokens", reqs, c, fixvars="cs = Start")
