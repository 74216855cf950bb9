"""P19: Authorization, WWW-Authenticate and Basic credentials (spec/Auth.tla)."""
import base64
def txt(t): return [ord(c) for c in t]
SC = ["Basic", "Bearer", "Digest", "HOBA", "Mutual", "Negotiate", "OAuth", "SCRAM-SHA-1", "SCRAM-SHA-256", "vapid"]
def legs(ctx):
    c = {"Chars": "<- Chars1", "NChars": ctx.q(3, 4), "NUni": ctx.q(2, 2)}
    ctx.cases("grammar", "Auth", c, ["RoundTrip"])
    r, reqs = ctx.rng, []
    def uni(n): return [r.choice([r.randint(0, 127), r.randint(32, 126), r.randint(128, 0xd7ff), r.randint(0xe000, 0x10ffff)]) for _ in range(ctx.size(n, 300))]
    def asc(n): return [r.choice([34, 92, 32, 44, 61, r.randint(32, 126), r.randint(32, 126), r.choice([9, 0, 10, 127])]) if r.random() < 0.97 else r.randint(0, 127) for _ in range(ctx.size(n, 300))]
    def case(t): return "".join(x.upper() if r.random() < 0.5 else x.lower() for x in t)
    for _ in range(ctx.q(2500, 40000)):
        x = r.random()
        if x < 0.15: reqs.append(("authwrite", dict(scheme=r.choice(SC), w=asc(30))))
        elif x < 0.35: reqs.append(("realmwrite", dict(scheme=r.choice(SC), w=asc(20))))
        elif x < 0.55: reqs.append(("basicwrite", dict(u=[k for k in uni(12) if k != 58 or r.random() < 0.1], p=uni(12))))
        else:
            if x < 0.6: reqs.append(("creds", dict(t=txt(base64.b64encode(b"".join(chr(k).encode() for k in uni(8))).decode())))); continue
            b = bytes(r.choice([58, 97, r.randint(0, 255)]) if r.random() < 0.4 else r.randint(32, 126) for _ in range(r.randint(0, 12)))
            if r.random() < 0.5: b = b"".join(chr(k).encode() for k in uni(6)) + b":" + b[:5]
            w = base64.b64encode(b).decode()
            if r.random() < 0.3: i = r.randrange(len(w) + 1); w = w[:i] + r.choice(["", "=", "A", " ", "-", "_", "\n"]) + w[i + r.randint(0, 1):]
            if r.random() < 0.4: w = r.choice(["", " "]) + r.choice(["realm=", "realm=", "Realm=", "a=b, realm=", "x realm=", "xrealm=", "error realm=", "real=", "realm ="]) + r.choice(['"', '"', ""]) + "".join(chr(k) for k in asc(8)) + r.choice(['"', '", charset="UTF-8"', ""])
            v = (case(r.choice(SC)) if r.random() < 0.5 else "Basic" if r.random() < 0.9 else "Basics") + r.choice([" "] * 9 + ["", "  ", "\t"]) + w
            reqs.append((r.choice(["authread", "realmread", "basicread"]), dict(vals=[txt("Digest x")] * (0 if r.random() < 0.9 else ctx.few()) + [txt(v)])))
    def long(k): return [r.randint(33, 126) for _ in range(k)]
    for k in [800, 1500, 3000][:ctx.q(3, 3)] * ctx.q(1, 5):
        reqs.append(("basicwrite", dict(u=[97], p=long(k) + [58] + uni(3)))); reqs.append(("basicwrite", dict(u=[c for c in long(k) if c != 58], p=uni(3))))
        reqs.append(("authwrite", dict(scheme=r.choice(SC), w=long(k)))); reqs.append(("realmwrite", dict(scheme=r.choice(SC), w=long(k))))
        reqs.append(("basicread", dict(vals=[txt("Basic " + base64.b64encode(b"u:" + bytes(long(k))).decode())]))); reqs.append(("authread", dict(vals=[txt("Bearer ") + long(k)])))
    ctx.ftrace("random", "Auth", reqs, c, fixvars="cs = Start")
