"""P27: content security policies and security helpers (spec/Policy.tla)."""
import json
def txt(t): return [ord(c) for c in t]
DIRS = ["base-uri", "connect-src", "default-src", "font-src", "form-action", "frame-ancestors", "frame-src", "img-src", "media-src", "object-src", "plugin-types", "report-uri", "require-sri-for", "sandbox", "script-src", "style-src", "worker-src"]
ENUM = ["SameOrigin", "Src", "None", "UnsafeInline", "Data", "Mediastream", "Https", "Blob", "Filesystem", "StrictDynamic", "UnsafeEval", "Wildcard"]
REF = ["default", "NoReferrer", "NoReferrerDowngrade", "SameOrigin", "Origin", "StrictOrigin", "CrossOrigin", "StrictCrossOrigin", "UnsafeUrl"]
HEADERS = ["content-security-policy", "content-security-policy-report-only", "referrer-policy", "server", "set-cookie", "via", "strict-transport-security", "x-content-type-options", "x-dns-prefetch-control", "x-frame-options", "x-other", "x-powered-by", "x-xss-protection"]
def legs(ctx):
    props = ["Frame", "ApplyFrame", "Repeatable"]
    ctx.machine("policies", "Policy", "policy", {"Depth": ctx.q(4, 5), "OpSet": '"policy"'}, ["Once"], props)
    ctx.machine("directives", "Policy", "policy", {"Depth": ctx.q(3, 4), "OpSet": '"sweep"'}, ["Once"], props)
    ctx.machine("helpers", "Policy", "policy", {"Depth": ctx.q(3, 4), "OpSet": '"helpers"'}, [], props)
    r, hs = ctx.rng, []
    def word(): return "".join(r.choice("abz019.:/*-'_?=%,\"") for _ in range(r.randint(1, 10)))
    def rep():
        d = {}
        if r.random() < 0.5: d["group"] = word()
        d.update(max_age=r.randint(-2**31, 2**31 - 1), endpoints=[{"url": word()} for _ in range(r.randint(0, 2))])
        if r.random() < 0.4: d["include_subdomains"] = r.random() < 0.5
        return txt(json.dumps(d, separators=(",", ":")))
    def op(helpers):
        m, x = r.choice([1, 1, 2]), r.random()
        if helpers:
            if x < 0.25: return dict(n=r.choice(["set", "add"]), m=m, h=r.choice(HEADERS), v=txt(word()))
            k = r.choice(["dns", "nosniff", "unpowered", "hsts", "xss", "default", "frame", "referrer", "powered", "apply"])
            if k == "frame": return dict(n=k, m=m, g=r.choice(["default", "SameOrigin", "Deny"]))
            if k == "referrer": return dict(n=k, m=m, g=r.choice(REF))
            if k == "powered": return dict(n=k, m=m, v=txt(word()))
            return dict(n=k, m=m)
        if x < 0.45: return dict(n="src", d=r.choice(DIRS), v=txt(word()))
        if x < 0.65: return dict(n="enum", d=r.choice(DIRS), e=r.choice(ENUM))
        if x < 0.72: return dict(n="flag", f=r.choice(["block-all-mixed-content", "upgrade-insecure-requests"]))
        if x < 0.74: return dict(n="reportonly")
        if x < 0.78: return dict(n="reportto", v=rep())
        if x < 0.8: return dict(n="clone")
        return dict(n="apply", m=m)
    for _ in range(ctx.q(400, 6000)):
        mode = r.random()
        hs.append((dict(kind=r.choice(["req", "res", "hdr"]), pol=r.choice(["new", "default"])), [op(mode < 0.3 or (mode < 0.5 and r.random() < 0.5)) for _ in range(r.randint(4, 30))]))
    for i in range(ctx.q(6, 60)):   # long policies: many sources of few directives
        ds = r.sample(DIRS, r.choice([1, 2, 3]))
        ops = [dict(n="src", d=r.choice(ds), v=txt(word())) for _ in range(r.choice([40, 70, 140]))]
        if i % 2: ops = [dict(o, d=ds[0]) if r.random() < 0.8 else dict(n="reportto", v=rep()) if r.random() < 0.5 else dict(n="enum", d=ds[0], e=r.choice(ENUM)) for o in ops]
        hs.append((dict(kind=r.choice(["req", "res", "hdr"]), pol="new"), ops + [dict(n="apply", m=1), dict(n="apply", m=1), dict(n="apply", m=2)]))
    ctx.mtrace("histories", "Policy", "policy", hs, {"Depth": 1, "OpSet": '"helpers"'})
