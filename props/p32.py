"""P32: query strings (spec/Query.tla)."""
def txt(t): return [ord(c) for c in t]
def legs(ctx):
    c = {"NChars": ctx.q(2, 3), "NPieces": ctx.q(2, 3)}
    ctx.cases("queries", "Query", c, ["RoundTrip"])
    r, reqs = ctx.rng, []
    def t(): return "".join(r.choice(r.choice(["abcXYZ019", " +&=%[]#?/:;,'\"<>{}|\\^`~", "é€😀\x00\x7f\n\t\u0080\u2028"])) for _ in range(r.choice([0, 1, 2, 5, 12]) if r.random() < 0.995 else r.choice([70, 130, 300, 1100])))
    def key(): return "".join(r.choice("abcXYZ019_.-é =&+[]%") for _ in range(r.randint(0, 6)))
    def url(): return r.choice(["http://h/", "https://u.v/a/b;c?x=1#f", "http://h:81/?#", "http://h/%20?s=1&s=2", "urn:x:y", "http://h/#q?z"])
    def val(sh):
        if sh == "flat": return dict(s=txt(t()), n=txt(str(r.getrandbits(32))), b=r.random() < 0.5, o=[txt(t())] if r.random() < 0.5 else [], d=txt(str(r.randrange(256))))
        if sh == "list": return dict(l=[txt(t()) for _ in range(r.choice([0, 1, 2, 3, 11, 30]) if r.random() < 0.97 else r.choice([70, 130]))])
        if sh == "map": return dict(m=[[txt(k), txt(t())] for k in sorted({key() for _ in range(r.randint(0, 6) if r.random() < 0.97 else 70)}, key=lambda k: [ord(x) for x in k])])
        if sh == "nest": return dict(x=txt(str(r.randrange(-2**63, 2**63))), y=[txt(str(r.getrandbits(32))) for _ in range(r.choice([0, 1, 2, 12]))], e=txt(r.choice(["Red", "Green"])))
        return dict(a=[txt(t())] if r.random() < 0.5 else [], n=[txt(str(r.getrandbits(32)))] if r.random() < 0.5 else [])
    def enc(x): return "".join(c if c.isalnum() and ord(c) < 128 and r.random() < 0.9 else "+" if c == " " and r.random() < 0.5 else "".join("%%%02x" % b if r.random() < 0.5 else "%%%02X" % b for b in c.encode()) for c in x)
    for _ in range(ctx.q(3000, 40000)):
        sh = r.choice(["flat", "list", "map", "nest", "opt"])
        if r.random() < 0.5: reqs.append(("qset", dict(url=txt(url()), shape=sh, v=val(sh))))
        else:
            ps = [r.choice(["s", "n", "b", "o", "d", "a", "x"]) + "=" + r.choice([lambda: enc(t()), lambda: str(r.randrange(2**33)), lambda: str(r.randrange(300)), lambda: r.choice(["true", "false", "True", "1", "", "on"])])() for _ in range(r.randint(0, 3))]
            if r.random() < 0.7: ps += ["s=" + enc("".join(r.choice("ab +&=%é") for _ in range(r.randint(0, 6)))), "n=%d" % r.getrandbits(r.choice([3, 31, 32, 33])), "b=" + r.choice(["true", "false", "false", "true", "yes"])]
            r.shuffle(ps)
            q = "&".join(ps)
            if r.random() < 0.2 and q: i = r.randrange(len(q)); q = q[:i] + r.choice("[]=&%+#'\"é<>") + q[i + r.randint(0, 1):]
            reqs.append(("qread", dict(q=[txt(q)], shape=r.choice(["flat", "flat", "flat", "opt", sh]))))
    ctx.ftrace("random", "Query", reqs, c, fixvars="cs = Start")
