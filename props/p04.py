"""P04: whole-body readers (spec/BodyWhole.tla)."""
import json as J
BASE = {"Scripts": "<- Scripts1", "Lims": "<- Lims0", "Others": "<- NoOthers", "BufSizes": "{1}", "MaxChains": 0}
def consts(ctx):
    return dict(BASE, Contents="<- Contents1", Vias='{"body", "req", "res", "reader"}', Kinds='{"bytes", "string", "json", "form", "formstruct"}',
                Pres=ctx.q("{0, 2}", "{0, 1, 2, 3}"))

def jdoc(rng, d=0):
    x = rng.random()
    if d > 2 or x < 0.5: return rng.choice([None, True, False, 0, -1, 7, 12345, "a", "x\"y", "é", "", "\\", "tab\t", 1.5])
    if x < 0.75: return [jdoc(rng, d + 1) for _ in range(rng.randint(0, 3))]
    return {k: jdoc(rng, d + 1) for k in sorted(rng.sample(["a", "b", "name", "é", "z z"], rng.randint(0, 3)))}

def content(rng):
    x = rng.random()
    if x < 0.35:
        b = J.dumps(jdoc(rng), separators=(",", ":"), ensure_ascii=False).encode(); comp = True
    elif x < 0.6:
        b = "&".join(rng.choice(["a=1", "a=", "a", "b=x+y", "c=%20%26", "a=%C3%A9", "=v", "", "é=ü", "d=1=2", "a%3d=1", "%=%4", "+=+"]) for _ in range(rng.randint(0, 5))).encode(); comp = False
    elif x < 0.8:
        b = "".join(rng.choice(["a", "é", "€", "𝄞", " ", "\n", "~", "\x00", "ÿ", "\u07ff", "\u0800", "\uffff", "\ufeff", "\u2028", "\u00a0", "\u200b", "\r\n", "\x1a", "\ufffd", "\x85"]) for _ in range(rng.choice([0, 1, 2, rng.randint(0, 30)]))).encode(); comp = False
    else: b = bytes(rng.choice([65, 128, 191, 192, 193, 194, 223, 224, 237, 160, 159, 239, 240, 143, 144, 244, 245, 255]) for _ in range(rng.randint(0, 9))); comp = False
    if rng.random() < 0.12:  # things readers like to strip
        e = rng.choice(["\ufeff", "\ufffe", " ", "\n", "\r\n", "\x00", "\u00a0", "\u2028", "\t", "\x1a", "?", "&", "#", ";"]).encode()
        b = rng.choice([e + b, b + e, e + b + e]); comp = False
    if rng.random() < 0.25 and b:
        k = rng.randrange(len(b)); b = rng.choice([b[:k], b[:k] + bytes([rng.choice([34, 44, 0, 128, 195, 93, 125, 92, 43])]) + b[k + 1:], b + b" ", b + b"x"]); comp = False
    return list(b), comp

def case(rng):
    b, comp = content(rng)
    ev, left = [], len(b)
    while left:
        k = rng.choice([1, 2, 3, left, left]); k = min(k, left)
        if rng.random() < 0.25: ev.append(dict(t="p", n=0))
        if rng.random() < 0.05: ev.append(dict(t="e", n=rng.randrange(13)))
        ev.append(dict(t="d", n=k)); left -= k
    if rng.random() < 0.1: ev.append(dict(t=rng.choice("pe"), n=0))
    t = len(b)
    lim = rng.choice([-1, -1, t, t, t, t + 1, max(0, t - 1), 0, rng.randint(0, t), 10**7 - 50000, 10**7, 10**5])
    if rng.random() < 0.05: return ("whole", dict(content=b, ev=ev, lim=lim, pre=rng.choice([0, 0, 1, 3]), via="reader", kind="bytes", compact=comp))
    return ("whole", dict(content=b, ev=ev, lim=lim, pre=rng.choice([0, 0, 0, 1, 3]), via=rng.choice(["body", "req", "res"]),
            kind=rng.choice(["bytes", "string", "json", "json", "form", "formstruct"]), compact=comp))

def stripped(rng):
    b = J.dumps(jdoc(rng), separators=(",", ":"), ensure_ascii=False).encode()
    e = rng.choice(["\ufeff", "\ufffe", " ", "\n", "\r\n", "\x00", "\u00a0", "\u2028", "\t", "\x1a", "\x0b", "\x0c", "\x1e", ";", ",", "//", "\u200b", "\x85"]).encode()
    b = rng.choice([e + b, b + e, b + e]); t = len(b)
    return ("whole", dict(content=list(b), ev=[dict(t="d", n=t)], lim=rng.choice([-1, t]), pre=0, via=rng.choice(["body", "req", "res"]), kind="json", compact=False))

def build(rng):
    how = rng.choice(["json", "json", "value", "form", "form"])
    def w(k): return [rng.choice([97, 66, 48, 32, 43, 38, 61, 37, 42, 45, 46, 95, 126, 47, 10, 0, 127, 233, 8364, 0x1d11e, 34, 59]) for _ in range(rng.randint(0, k))]
    b = list(J.dumps(jdoc(rng), separators=(",", ":"), ensure_ascii=False).encode())
    return ("build", dict(how=how, content=b, pairs=[[w(4), w(rng.choice([3, 6, 40]))] for _ in range(rng.choice([0, 1, 1, 2, 3, 9]))]))

BULK = [("bytes", "", None, ""), ("string", "", None, ""), ("string", "a", None, "\xff"), ("string", "\xff", None, ""), ("json", '"', None, '"'), ("json", '{"a":"', None, '"}'), ("json", '[', "1,", '2]'), ("json", '[', '"ab",', '2]'), ("json", '[', "1,", ']'),
        ("json", '', "7", ''), ("json", '', " ", '1'), ("json", '[]', " ", ''), ("formstruct", "a=", None, ""), ("formstruct", "b=1&a=", None, "&c"), ("formstruct", "", "b=1&", "a=1"), ("form", "a=", None, "\xff")]
def bulk(rng):
    kind, pre, unit, post = rng.choice(BULK)
    u = (unit or rng.choice(["x", "é", "\u20ac", "ab", "\U0001d11e"])).encode()
    pre, post = pre.encode("latin-1"), post.encode("latin-1")
    size = rng.choice([2, 1023, 1024, 1025, 4096, 8192, 65535, 65536, 65537, 70000, 200000])
    f = kind == "formstruct"
    vp, vq = (b"", b"") if f else (pre, post)
    if unit == "7": size = 3
    if f and unit: vp, vu, vq = b"1", b"", b""
    else: vu = u
    cut = kind in ("bytes", "string") and rng.random() < 0.3
    if cut: vq = b""
    return ("bulk", dict(pre=list(pre), unit=list(u), times=max(1, size // len(u) + rng.randint(-1, 1)), post=list(post), chunk=rng.choice([1000, 4096, 30000, 65536, 10**6]),
            lim=rng.choice([-1, 0]), cut=cut, kind=kind, via=rng.choice(["body", "req", "res"]), vp=list(vp), vu=list(vu), vq=list(vq), compact=unit != " "))

def legs(ctx):
    ctx.cases("grid", "BodyWhole", consts(ctx), ["Utf8Law", "LenLaw"], init="WInit", next="WNext", emit="WEmit")
    ctx.ftrace("random", "BodyWhole", [case(ctx.rng) for _ in range(ctx.q(2500, 30000))] + [stripped(ctx.rng) for _ in range(ctx.q(250, 3000))] + [build(ctx.rng) for _ in range(ctx.q(400, 5000))] + [bulk(ctx.rng) for _ in range(ctx.q(120, 1500))], consts(ctx), fixvars="s = 0 /\\ op = 0 /\\ cs = 0", match="WMatch")
