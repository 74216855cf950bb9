"""Random negotiation histories."""
def txt(t): return [ord(c) for c in t]
BADW = ["nan", "inf", "neg", "big", "negzero", "other"]
def histories(r, kinds, n):
    E = ["gzip", "deflate", "br", "zstd", "identity"]
    M = ["text/html", "text/plain", "text/*", "*/*", "application/json", "application/json;a=1", "text/html;charset=utf-8", "text/html;level=1", "image/*", "TEXT/HTML", "application/json;b=\"x y\"", "a/b;c=\"x,y\"", "text/*;c=\", ;q=0,\"", "text/plain;c=\"q\\\",\\\\\";level=1", "a/b;c=\"*, text/html\""]
    A = ["text/html", "text/html;charset=utf-8", "text/plain", "text/html;level=1;charset=utf-8", "application/json", "application/json;a=1;b=2", "image/png", "a/b;c=\"x,y\"", "text/plain;level=1;c=\"q\\\",\\\\\""]
    def qv(): return r.choice(["0", "1", "1.0", "1.000", "0.", "0.5", "0.50", "0.05", "0.123", "0.999", "0.001", "0.0", "0.000", "0.9", "%.3f" % r.random()])
    def badq(k): return r.choice(["abc", "", "1.5", "-0.5", "2", "1.001", "NaN", "inf", "0.5.5", "0,5", "q"] + ([] if k == "accept" else ['"0.5"', "'1'", "(1)"]))
    out = []
    for _ in range(n):
        k = r.choice(kinds); e = E + (["chunked"] if k == "te" else []); bare = k != "accept" or r.random() < 0.15
        def item(): return r.choice(M if k == "accept" else e)
        def case(t): return t if r.random() < 0.9 else r.choice([t.upper(), t.title()])
        def el():
            x = r.random()
            if x < 0.08: return r.choice(["", " ", "*"])
            if x < 0.14: return r.choice(["*", "unknown", "x-gzip;q=1", "*gzip", "gzip*", "xgzip", "gzipx", "*x;q=0.5", "x*", "**", "gzip-x", "br0", "identity2;q=1"]) if k != "accept" else "*"
            if x < 0.17: return r.choice(["bogus", "/", "a/b c", "text/"]) if k == "accept" else r.choice(["gzip;x=1", "br;q", "br;q=", "gzip;", "br;q 0.5", "gzip;q:1", "br; q\t=1", "gzip;q==1", "br;qq=1", "gzip;1", "br;=1"])
            if x < 0.2: return item() + ";q=" + badq(k)
            if x < 0.45: return item() if k == "accept" else case(item())
            return (item() if k == "accept" else case(item())) + r.choice([";q=", "; q=", ";Q=", ";q=" if k == "accept" else " ;q="]) + qv()
        def op():
            x = r.random()
            if x < 0.3:
                b = bare and (k == "accept" or r.random() < 0.4)
                return dict(n="push", t=txt(item()), w=[] if b or r.random() < 0.25 else [r.choice([0, 1, 5, 100, 500, 500, 999, 1000, r.randint(0, 1000)])], bare=b)
            if x < 0.33: return dict(n="badweight", w=r.choice(BADW))
            if x < 0.38: return dict(n="wild", c=r.random() < 0.6)
            if x < 0.42: return dict(n="sort")
            if x < 0.48: return dict(n="wire")
            if x < 0.6 and not (bare and k == "accept"): return dict(n="read", vals=[txt(", ".join(el() for _ in range(r.randint(0, 5))).replace(", ", r.choice([", ", ",", " ,\t"]))) for _ in range(r.randint(0, 2) if r.random() < 0.95 else r.choice([4, 5, 9, 17]))])
            return dict(n="nego", av=[txt(r.choice(A if k == "accept" else e)) for _ in range(r.randint(0, 4))])
        ops = [op() for _ in range(r.randint(5, 25))]
        if _ % 10 == 0:  # a long list, given entry by entry or on the wire
            ln = r.choice([17, 33, 40, 65, 70])
            if r.random() < 0.5 or (bare and k == "accept"): ops = [dict(n="push", t=txt(item()), w=[] if bare and k == "accept" else r.choice([[], [r.randint(0, 1000)]]), bare=bare and k == "accept") for _ in range(ln)] + ops[:8]
            else: ops = [dict(n="read", vals=[txt(", ".join(el() for _ in range(ln)))])] + ops[:8]
            ops.insert(r.randint(ln if ops[0]["n"] == "push" else 1, len(ops)), dict(n="sort"))
        if k != "accept" or not bare:  # entries are changed and compared in place while it is known how many there are
            cnt, more = 0, []
            for o in ops:
                more.append(o)
                cnt = None if o["n"] == "read" else cnt + 1 if o["n"] == "push" and cnt is not None else cnt
                if cnt and r.random() < 0.2:
                    i, j = r.randint(1, cnt), r.randint(1, cnt)
                    more.append(r.choice([dict(n="cmp", i=i, j=j), dict(n="one", i=i), dict(n="edit", i=i, t=txt(item()), w=r.choice([[], [0], [1000], [r.randint(0, 1000)]]), whole=r.random() < 0.5)]))
            ops = more
        if bare and k == "accept":  # a list of unweighted pushes only: how they rank against weighted ones is not specified
            ops = [o for o in ops if o["n"] not in ("wire",) and not (o["n"] == "push" and not o["bare"])]
        out.append((dict(kind=k), ops))
    return out
