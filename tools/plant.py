#!/usr/bin/env python3
"""plant.py ID...: confirm seeded bugs in a scratch copy of /repo (builds, the 319 tests pass, demo fails with and passes without),
then, with -c, apply each to /repo, run the property's check and undo it."""
import sys, os, subprocess, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
run = lambda cmd, cwd=None, t=900: subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t)
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(V + "/seeded"))
S = "/tmp/plant/repo"
def scratch():
    os.makedirs("/tmp/plant", exist_ok=True)
    if not os.path.isdir(S): shutil.copytree("/repo", S, symlinks=True)
    run("git checkout -q -- . && git fetch -q /repo HEAD && git checkout -q FETCH_HEAD", S)
def tests():
    t = open("/opt/vp/test.sh").read().replace("/repo", S); open("/tmp/plant/test.sh", "w").write(t)
    run("bash /tmp/plant/test.sh /tmp/plant/out.json")
    g = lambda f: (lambda x: set(next(x[k] for k in ("passed", "pass", "stable") if k in x)))(json.load(open(f)))
    try: return sorted(g("/opt/vp/BASELINE.json") - g("/tmp/plant/out.json"))
    except Exception as e: return ["no results: %s" % e]
if "-c" not in sys.argv:
    scratch()
    for i in ids:
        d = V + "/seeded/" + i
        a = run("bash %s/demo.sh" % d, S)
        ap = run("git apply %s/patch.diff" % d, S)
        if ap.returncode: print(i, "DOES NOT APPLY", ap.stderr[:300]); continue
        miss = tests()
        b = run("bash %s/demo.sh" % d, S)
        run("git checkout -q -- .", S)
        good = a.returncode == 0 and b.returncode not in (0, 2, 3) and not miss
        print(i, "CONFIRMED" if good else "REJECTED", "demo clean=%d patched=%d" % (a.returncode, b.returncode), "failing tests=%s" % miss[:3], "" if good else (a.stdout + a.stderr)[-600:] + (b.stdout + b.stderr)[-300:], flush=True)
else:
    for i in ids:
        d = V + "/seeded/" + i; p = json.load(open(d + "/meta.json"))["property"]
        ap = run("git -C /repo apply %s/patch.diff" % d)
        try: r = run("./check %s" % p, V) if ap.returncode == 0 else None
        finally: run("git -C /repo checkout -- .")
        out = r.stdout if r else ""
        print(i, p, "CAUGHT" if r and r.returncode == 1 and "VIOLATION property=" + p in out else "MISSED rc=%s" % (r and r.returncode), [l[:200] for l in out.splitlines()][:1] + [l[:160] for l in (r.stderr if r else ap.stderr).splitlines()][:1], flush=True)
