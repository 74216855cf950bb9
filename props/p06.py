"""P06: header names and values (spec/Names.tla)."""
def legs(ctx):
    c = {"Bytes": ctx.q("{0, 9, 32, 65, 97, 126, 127, 128, 195, 169, 255}", "{0, 9, 10, 31, 32, 48, 64, 65, 90, 91, 96, 97, 122, 123, 126, 127, 128, 191, 194, 195, 169, 224, 160, 255}")}
    ctx.cases("grid", "Names", c, ["EqLaw"])
    r, reqs = ctx.rng, []
    def ascii(k): return [r.choice([r.randrange(128), r.choice(b"aAbBzZ-_"), r.choice(b"aA")]) for _ in range(k)]
    for _ in range(ctx.q(2000, 30000)):
        x = r.random()
        if x < 0.5:
            b = ascii(r.randint(0, 20) if r.random() < 0.95 else r.choice([64, 127, 128, 255, 256, 257, 600]))
            if r.random() < 0.5: b[r.randint(0, len(b)):0] = list(r.choice(["é", "ÿ", "ſ", "K", "İ", "𝄞", "\x80"]).encode()) if r.random() < 0.6 else [r.randrange(128, 256)]
            try: bytes(b).decode(); vias = ["bytes", "str", "string", "tryfrom", "cow", "ref"]
            except UnicodeDecodeError: vias = ["bytes"]
            op = r.choice(["value", "name"]); v = r.choice(vias)
            if v in ("tryfrom", "cow", "ref") and op == "name": v = "str"
            reqs.append((op, dict(b=b, via=v)))
        else:
            a = ascii(r.choice([0, 1, 2, 3, 4, 5, 6, r.randint(7, 40), r.choice([127, 128, 255, 256, 300])]) if r.random() < 0.9 else 3)
            b = [c ^ 32 if r.random() < 0.5 and (chr(c).isalpha() or r.random() < 0.1) else c for c in a]
            if r.random() < 0.3 and b: b[r.randrange(len(b))] = r.randrange(128)
            reqs.append((r.choice(["nameeq", "nameeq", "valueeq", "nametext", "pair"]), dict(a=a, b=b)))
    for k in [4096, 8193, 65535, 70000]:
        b = ascii(k)
        for op, via in [("value", "bytes"), ("value", "str"), ("value", "string"), ("name", "bytes"), ("name", "str")]: reqs.append((op, dict(b=b, via=via)))
        reqs.append(("value", dict(b=b[:-2] + list("é".encode()), via="bytes")))
    ctx.ftrace("random", "Names", reqs, c, fixvars="cs = Start")
