"""P33: typed headers in their slots and the header-name constants (spec/Slots.tla)."""
def txt(t): return [ord(c) for c in t]
KINDS = ['pairsp', 'pairempty', 'pairup', 'lenzero', 'allownone', 'server-timing', 'trace', 'allow', 'www-authenticate', 'basic-auth', 'authorization', 'age', 'cache-control', 'expires', 'clear-site-data', 'forwarded', 'content-location', 'content-encoding', 'content-length', 'content-type', 'accept-encoding', 'accept', 'retry-after', 'date', 'expect', 'sourcemap', 'referer', 'if-unmodified-since', 'if-match', 'etag', 'last-modified', 'vary', 'if-modified-since', 'if-none-match', 'transfer-encoding', 'te', 'hsts', 'tao', 'pair', 'pairlen']
NAMES = ['accept', 'accept-charset', 'accept-encoding', 'accept-language', 'accept-ranges', 'access-control-allow-credentials', 'access-control-allow-headers', 'access-control-allow-methods', 'access-control-allow-origin', 'access-control-expose-headers', 'access-control-max-age', 'access-control-request-headers', 'access-control-request-method', 'age', 'allow', 'authorization', 'cache-control', 'clear-site-data', 'connection', 'content-encoding', 'content-language', 'content-length', 'content-location', 'content-md5', 'content-range', 'content-type', 'cookie', 'date', 'etag', 'expect', 'expires', 'forwarded', 'from', 'host', 'if-match', 'if-modified-since', 'if-none-match', 'if-range', 'if-unmodified-since', 'last-modified', 'location', 'max-forwards', 'origin', 'pragma', 'proxy-authenticate', 'proxy-authorization', 'proxy-connection', 'referer', 'retry-after', 'server', 'server-timing', 'set-cookie', 'sourcemap', 'strict-transport-security', 'te', 'timing-allow-origin', 'traceparent', 'trailer', 'transfer-encoding', 'upgrade', 'user-agent', 'vary', 'via', 'warning', 'www-authenticate', 'x-other', 'x-pair']
IDS = ['ACCEPT', 'ACCEPT_CHARSET', 'ACCEPT_ENCODING', 'ACCEPT_LANGUAGE', 'ACCEPT_RANGES', 'ACCESS_CONTROL_ALLOW_CREDENTIALS', 'ACCESS_CONTROL_ALLOW_HEADERS', 'ACCESS_CONTROL_ALLOW_METHODS', 'ACCESS_CONTROL_ALLOW_ORIGIN', 'ACCESS_CONTROL_EXPOSE_HEADERS', 'ACCESS_CONTROL_MAX_AGE', 'ACCESS_CONTROL_REQUEST_HEADERS', 'ACCESS_CONTROL_REQUEST_METHOD', 'AGE', 'ALLOW', 'AUTHORIZATION', 'CACHE_CONTROL', 'CLEAR_SITE_DATA', 'CONNECTION', 'CONTENT_ENCODING', 'CONTENT_LANGUAGE', 'CONTENT_LENGTH', 'CONTENT_LOCATION', 'CONTENT_MD5', 'CONTENT_RANGE', 'CONTENT_TYPE', 'COOKIE', 'DATE', 'ETAG', 'EXPECT', 'EXPIRES', 'FORWARDED', 'FROM', 'HOST', 'IF_MATCH', 'IF_MODIFIED_SINCE', 'IF_NONE_MATCH', 'IF_RANGE', 'IF_UNMODIFIED_SINCE', 'LAST_MODIFIED', 'LOCATION', 'MAX_FORWARDS', 'ORIGIN', 'PRAGMA', 'PROXY_AUTHENTICATE', 'PROXY_AUTHORIZATION', 'PROXY_CONNECTION', 'REFERER', 'RETRY_AFTER', 'SERVER', 'SERVER_TIMING', 'SET_COOKIE', 'SOURCE_MAP', 'STRICT_TRANSPORT_SECURITY', 'TE', 'TIMING_ALLOW_ORIGIN', 'TRACEPARENT', 'TRAILER', 'TRANSFER_ENCODING', 'UPGRADE', 'USER_AGENT', 'VARY', 'VIA', 'WARNING', 'WWW_AUTHENTICATE']
def legs(ctx):
    ctx.machine("slots", "Slots", "slots", {"Depth": ctx.q(2, 3)}, ["Constants", "LowerCase"], ["OneSlot"])
    r, hs = ctx.rng, []
    def op():
        x = r.random()
        if x < 0.5: return dict(n="write", k=r.choice(KINDS), how=r.choice(["apply", "applyref", "insert", "byref"]))
        if x < 0.6: return dict(n="append", k=r.choice(KINDS))
        if x < 0.9: return dict(n=r.choice(["set", "add", "add"]), h=r.choice(NAMES), v=txt("#" + "".join(r.choice("ab,; 1") for _ in range(r.randint(0, 5)))))
        if x < 0.95: return dict(n="del", h=r.choice(NAMES))
        return dict(n="const", id=r.choice(IDS))
    for _ in range(ctx.q(400, 6000)):
        hs.append((dict(msg=r.choice(["req", "res", "hdr"]), pre=[]), [op() for _ in range(r.randint(5, 40))]))
    ctx.mtrace("histories", "Slots", "slots", hs, {"Depth": 1})
