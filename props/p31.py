"""P31: methods, statuses, versions (spec/Registry.tla)."""
def legs(ctx):
    ctx.cases("tables", "Registry", {}, ["OneClass"])
    r, reqs = ctx.rng, []
    M = ["ACL", "BASELINE-CONTROL", "BIND", "CHECKIN", "CHECKOUT", "CONNECT", "COPY", "DELETE", "GET", "HEAD", "LABEL", "LINK", "LOCK", "MERGE", "MKACTIVITY",
         "MKCALENDAR", "MKCOL", "MKREDIRECTREF", "MKWORKSPACE", "MOVE", "OPTIONS", "ORDERPATCH", "PATCH", "POST", "PRI", "PROPFIND", "PROPPATCH", "PUT", "REBIND",
         "REPORT", "SEARCH", "TRACE", "UNBIND", "UNCHECKOUT", "UNLINK", "UNLOCK", "UPDATE", "UPDATEREDIRECTREF", "VERSION-CONTROL", "M-SEARCH", "QUERY", "SUBSCRIBE", "NOTIFY"]
    for _ in range(ctx.q(1500, 20000)):
        x = r.random()
        if x < 0.6:
            t = "".join(c.lower() if r.random() < 0.5 else c for c in r.choice(M))
            y = r.random()
            if y < 0.1: t = t.replace("K", "\u212a").replace("S", "\u017f").replace("I", "\u0130")
            elif y < 0.2: i = r.randrange(len(t) + 1); t = t[:i] + r.choice([" ", "-", "\t", "é", "A", "\x00"]) + t[i:]
            elif y < 0.3: i = r.randrange(len(t)); t = t[:i] + t[i + 1:]
            reqs.append((r.choice(["method", "methodjson"]), dict(t=[ord(c) for c in t])))
        elif x < 0.9:
            v = r.choice([r.randint(0, 1000), r.randint(0, 70000), 65536 * r.randint(-3, 3) + r.choice([200, 404, 500]), r.getrandbits(63), 2**32 * r.randint(1, 9) + r.choice([200, 301])])
            t = [ord(c) for c in str(v)]
            reqs.append(("statusjson", dict(t=t)) if r.random() < 0.5 else ("statusint", dict(t=t, w=r.choice(["i16", "i32", "i64", "u16", "u32", "u64"]))))
        else:
            t = r.choice(["HTTP/%d.%d" % (r.randint(0, 4), r.randint(0, 2)), "HTTP/%d" % r.randint(0, 9), "http/%d" % r.randint(1, 3)])
            reqs.append(("version", dict(t=[ord(c) for c in t])))
    if ctx.thorough: reqs += [("status", dict(n=k)) for k in range(65536)]
    ctx.ftrace("random", "Registry", reqs, fixvars="cs = Start")
