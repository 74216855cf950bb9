"""P16: HTTP dates and the headers carrying them (spec/Dates.tla)."""
import datetime
def txt(t): return [ord(c) for c in t]
H = ["date", "expires", "last-modified", "if-modified-since", "if-unmodified-since"]
D = ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"]; L = ["Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday"]
M = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"]
def legs(ctx):
    c = {"Years": ctx.q("<- Years0", "<- Years1"), "FullYears": ctx.q("<- Full0", "<- Full1"), "MutBase": ctx.q("{1, 2, 3}", "{1, 2, 3, 4, 5, 6}")}
    ctx.cases("calendar", "Dates", c, ["RoundTrip"])
    r, reqs = ctx.rng, []
    for _ in range(ctx.q(2500, 40000)):
        d, s = r.choice([r.randint(0, 2932896), r.randint(0, 40000)]), r.randint(0, 86399)
        if r.random() < 0.3: reqs.append(("datewrite", dict(h=r.choice(H), d=d, s=s, ns=r.choice([0, 1, 999999999])))); continue
        dt = datetime.date(1970, 1, 1) + datetime.timedelta(d)
        dd, mm, yy, w = dt.day, dt.month, dt.year, dt.weekday()
        if r.random() < 0.3: dd = r.randint(0, 32)
        if r.random() < 0.1: w = r.randint(0, 6)
        if r.random() < 0.1: s = r.randint(0, 99 * 3600 + 99 * 60)
        h, m, sec = s // 3600, s // 60 % 60, s % 60
        ck = "%02d:%02d:%02d" % (min(h, 99), m, sec)
        f = r.randint(0, 2)
        t = ["%s, %02d %s %04d %s GMT" % (D[w], dd, M[mm - 1], yy, ck), "%s, %02d-%s-%02d %s GMT" % (L[w], dd, M[mm - 1], yy % 100, ck), "%s %s %s %s %04d" % (D[w], M[mm - 1], r.choice(["%2d", "%02d"]) % dd, ck, yy)][f]
        if r.random() < 0.3:
            i = r.randrange(len(t)); t = t[:i] + r.choice(["", " ", "+", "-", "0", ":", "9", "a", "\t", "+1", "1", ","]) + t[i + r.choice([0, 1, 1, 2]):]
        reqs.append(("dateread", dict(h=r.choice(H), vals=[txt("x")] * (0 if r.random() < 0.9 else ctx.few()) + [txt(t)])))
    ctx.ftrace("random", "Dates", reqs, c, fixvars="cs = Start")
