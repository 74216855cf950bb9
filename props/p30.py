"""P30: conversions to and from the http crate (spec/Hyper.tla)."""
def txt(t): return [ord(c) for c in t]
BODIES = ["empty", "text", "bin", "stream", "nomime", "html", "json", "form"]
VERSIONS = ["HTTP/0.9", "HTTP/1.0", "HTTP/1.1", "HTTP/2", "HTTP/3"]
TOK = "!#$%&'*+-.^_`|~019abcxyzABCXYZ"
def legs(ctx):
    c = {"NPairs": ctx.q(2, 3), "NChars": ctx.q(3, 4)}
    ctx.cases("conversions", "Hyper", c, ["Conserved", "Returns"])
    r, reqs = ctx.rng, []
    def name(low): 
        t = "".join(r.choice(TOK) for _ in range(r.randint(1, 12)))
        return t.lower() if low else t
    def pairs(bad):
        names = [r.choice(["content-type", "content-length", "cookie", "set-cookie", "x-a", name(True)]) for _ in range(r.randint(1, 6))]
        def v(): return [r.choice([32, 44, 59, 61, 34, 65, 122, 126, 9]) for _ in range((r.choice([0, 1, 3, 8]) if r.random() < 0.98 else r.choice([60, 130, 300, 1500])))]
        ps = []
        for _ in range(r.choice([0, 1, 2, 3, 5, 9]) if r.random() < 0.985 else r.choice([40, 70, 130])):
            n = r.choice(names)
            n = "".join(x.upper() if r.random() < 0.5 else x for x in n) if r.random() < 0.3 else n
            ps.append([txt(n), v()])
        if bad and ps and r.random() < 0.3:
            i = r.randrange(len(ps)); ps[i] = [ps[i][0], ps[i][1] + [r.choice([128, 233, 255])]]
        return ps
    for _ in range(ctx.q(2500, 12000)):
        op = r.choice(["hfrom", "hto", "hboth", "hfrommap", "htomap"])
        if op in ("hfrommap", "htomap"):
            reqs.append((op, dict(hs=pairs(op == "hfrommap"))))
            continue
        v = r.choice(VERSIONS)
        d = dict(kind=r.choice(["req", "res"]), hs=pairs(op == "hfrom"), body=r.choice(BODIES), ver=v if op == "hfrom" else r.choice([[], [v]]))
        if d["kind"] == "req": d.update(method=txt(r.choice(["GET", "POST", "CHECKIN", "VERSION-CONTROL"] + (["PURGE", "post"] if op == "hfrom" else []))), status=0,
            url=txt(r.choice(["http://", "https://"]) + r.choice(["h", "a.b.example:8080", "127.0.0.1", "[::1]:8", "user@h", "u:p@h"]) + "/" + "".join(r.choice(["a", "/", "%41", "%00", ";", "=", ":", "@", "~", ",", "."[:0]]) for _ in range(r.randint(0, 8))) + r.choice(["", "?", "?a=b&c=d", "?/?:@", "?%F0%9F%98%80"]) + ("" if op == "hfrom" else r.choice(["", "#", "#frag/?"]))))
        else: d.update(method=[], url=[], status=r.choice([100, 200, 204, 226, 304, 418, 451, 511] + ([102, 208, 299, 306, 509, 599, 999] if op == "hfrom" else [])))
        reqs.append((op, d))
    ctx.ftrace("random", "Hyper", reqs, c, fixvars="cs = Start")
