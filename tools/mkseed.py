"""mkseed.py: write seeded bugs from (id, property, file, old, new, needs, breaks, demo) records given as a Python file defining BUGS."""
import sys, os, json, subprocess, shutil, importlib.util
REPO = "/tmp/plant/repo"  # made by plant.py
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location("b", sys.argv[1]); b = importlib.util.module_from_spec(spec); spec.loader.exec_module(b)
for (i, prop, edits, needs, breaks, demo) in b.BUGS:
    d = "%s/seeded/%s" % (V, i); os.makedirs(d, exist_ok=True)
    try:
        for f, old, new in edits:
            p = REPO + "/src/" + f; s = open(p).read()
            assert s.count(old) == 1, (i, f, s.count(old))
            open(p, "w").write(s.replace(old, new))
        open(d + "/patch.diff", "w").write(subprocess.run(["git", "-C", REPO, "diff"], capture_output=True, text=True).stdout)
    except AssertionError as e: print("SKIP", e); shutil.rmtree(d)
    else:
        for f in {f for f, _, _ in edits}:  # the lines taken away have to be the original repository's
            bl = subprocess.run(["git", "-C", "/repo", "blame", "-s", "src/" + f], capture_output=True, text=True).stdout.split("\n")
            dl = subprocess.run(["git", "-C", REPO, "diff", "-U0", "src/" + f], capture_output=True, text=True).stdout.split("\n")
            import re; n = 0; mine = tot = 0
            for l in dl:
                m = re.match(r"@@ -(\d+)", l)
                if m: n = int(m.group(1))
                elif l.startswith("-") and not l.startswith("---"): tot += 1; mine += not bl[n-1].startswith("^"); n += 1
            print(i, f, "removed", tot, "of which added by fixes", mine)
        shutil.copy(V + "/tools/demo.sh", d + "/demo.sh")
        open(d + "/demo.rs", "w").write(demo)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    finally: subprocess.run(["git", "-C", REPO, "checkout", "-q", "--", "."])
