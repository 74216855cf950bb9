"""P15: media type parameters, ranges, constants, extensions (spec/MimeM.tla)."""
def txt(t): return [ord(c) for c in t]
def legs(ctx):
    c = {"Inits": "<- Inits1", "Others": "<- Texts1", "Names": "<- Names1"}
    ctx.machine("model", "MimeM", "mime", c, ["ConstsParse"], ["Frame"])
    r = ctx.rng
    B, P = ["text", "*", "application", "TEXT", "image"], ["a=1", "a=2", "A=1", "b=1", "b=2", "charset=utf-8", "charset=UTF-8", "charset=gbk", 'c="x y"', "c=x"]
    def mime(): return r.choice(B) + "/" + r.choice(["html", "*", "HTML", "css", "xml"]) + "".join(";" + r.choice(P) for _ in range(r.choice([0, 0, 1, 1, 2, 3, 4])))
    def op():
        x = r.random()
        if x < 0.2: return dict(n="get", name=txt(r.choice(["a", "A", "b", "charset", "Charset", "c", "d", "q", ""])))
        if x < 0.45: return dict(n="remove", name=txt(r.choice(["a", "A", "b", "charset", "Charset", "c", "d", "q", ""])))
        if x < 0.5: return dict(n="reparse")
        return dict(n="within", t=txt(mime()))
    hs = [({"from": "text", "t": txt(mime())}, [op() for _ in range(r.randint(3, 25))]) for _ in range(ctx.q(400, 6000))]
    ctx.mtrace("histories", "MimeM", "mime", hs, c)
