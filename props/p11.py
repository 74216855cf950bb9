"""P11: independent message fields and clones (spec/Message.tla)."""
PROPS = ["ExplicitKept", "Filled", "BodyFrame", "Isolated", "CloneLaw", "MadeFresh"]
BODIES = ["empty", "text", "bin", "stream", "nomime", "html", "json", "form"]
CTS = ["application/octet-stream", "text/plain;charset=utf-8", "text/html;charset=utf-8", "application/json",
       "application/x-www-form-urlencoded", "image/png", "x-custom/y;k=v", "garbage", "TEXT/HTML", "", "a/b/c"]
MIMES = CTS[:7]
METHODS = ["GET", "POST", "PUT", "DELETE", "PATCH", "OPTIONS", "HEAD", "CONNECT", "TRACE"]
METHODS_ALL = METHODS * 4 + """ACL BASELINE-CONTROL BIND CHECKIN CHECKOUT COPY LABEL LINK LOCK MERGE MKACTIVITY MKCALENDAR MKCOL MKREDIRECTREF MKWORKSPACE MOVE ORDERPATCH
 PRI PROPFIND PROPPATCH REBIND REPORT SEARCH UNBIND UNCHECKOUT UNLINK UNLOCK UPDATE UPDATEREDIRECTREF VERSION-CONTROL""".split()
STATUSES = [100, 101, 200, 204, 205, 206, 304, 404, 405, 500, 511] * 4 + [100, 101, 103, 200, 201, 202, 203, 204, 205, 206, 207, 226, 300, 301, 302, 303, 304, 307, 308, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 418, 421, 422, 423, 424, 425, 426, 428, 429, 431, 451, 500, 501, 502, 503, 504, 505, 506, 507, 508, 510, 511]
URLS = ["http://a.example/", "http://a.example/#", "http://a.example/p?", "http://a.example/?#f", "mailto:x@y", "data:,x%20y", "file:///srv/x", "http://[::1]:81/%7e;a=b//c.", "x:", "http://a.example/p?q=%20+%22", "http://b.example/p?q=1", "https://c.example:8443/x/y#f", "http://u:p@d.example/"]
VERS = [[], ["HTTP/0.9"], ["HTTP/1.0"], ["HTTP/1.1"], ["HTTP/2"], ["HTTP/3"]]
OTHERS = ["X-A", "X-A", "Transfer-Encoding", "Content-Length", "host", "Connection", "Upgrade", "Content-Encoding", "Forwarded", "Trailer", "Date", "te", "Content-Disposition", "Content-Range", "X-Content-Type-Options", "Accept", "Location", "Expect", "Authorization", "Cookie"]
ADDRS = [[], ["127.0.0.1:80"], ["[::1]:443"], ["unix:/x"], [""]]

def bodyop(r):
    i = r.choice([1, 1, 2])
    x = r.random()
    if x < 0.2: return dict(n="set", i=i, b=r.choice(BODIES))
    if x < 0.35: return dict(n="replace", i=i, b=r.choice(BODIES))
    if x < 0.45: return dict(n="take", i=i)
    if x < 0.55: return dict(n="swap", i=i)
    if x < 0.63: return dict(n="hold", b=r.choice(BODIES))
    if x < 0.68: return dict(n="setmsg", i=i)
    if x < 0.74: return dict(n="setct", i=i, v=r.choice(MIMES))
    if x < 0.90: return dict(n=r.choice(["ins", "app", "push"]), i=i, h="ct", v=r.choice(CTS))
    return dict(n="rm", i=i, h="ct")

def fieldop(r):
    i = r.choice([1, 2])
    x = r.randrange(13)
    return [lambda: dict(n="method", i=i, v=r.choice(METHODS_ALL)), lambda: dict(n="status", i=i, c=r.choice(STATUSES)),
            lambda: dict(n="url", i=i, v=r.choice(URLS)), lambda: dict(n="ver", i=i, l=r.choice(VERS)), lambda: dict(n="peer", i=i, l=r.choice(ADDRS)),
            lambda: dict(n="local", i=i, l=r.choice(ADDRS)), lambda: dict(n=r.choice(["ins", "app", "push"]), i=i, h="xa", v=r.choice(["1", "2", "0", "chunked", "close", "gzip", "long value, with; stuff", ""])),
            lambda: dict(n="rm", i=i, h="xa"), lambda: dict(n="ext", i=i, x=r.randint(0, 9)), lambda: dict(n="extrm", i=i),
            lambda: dict(n="clone", i=i), lambda: dict(n="clone", i=i),
            lambda: dict(n="make", i=i, how=r.choice(["verb", "new", "urlnew", "stringnew"]), v=r.choice(METHODS), url=r.choice(URLS), **{"from": r.choice(["unit", "status", "new", "body", "body"])}, c=r.choice(STATUSES), b=r.choice(BODIES))][x]()

def history(r, pbody):
    # what the messages are like before the rest happens to them
    first = [o for o in (fieldop(r) for _ in range(r.randint(0, 12))) if o["n"] not in ("clone", "make")]
    return dict(kind=r.choice(["req", "res"]), other=r.choice(OTHERS)), first + [bodyop(r) if r.random() < pbody else fieldop(r) for _ in range(r.randint(5, 40))]

def legs(ctx):
    ctx.machine("model", "Message", "message", {"OpSet": "<- FieldOps1", "MaxDepth": ctx.q(3, 4)}, [], PROPS)
    ctx.mtrace("histories", "Message", "message", [history(ctx.rng, 0.35) for _ in range(ctx.q(500, 8000))], {"OpSet": "{}", "MaxDepth": 0})
