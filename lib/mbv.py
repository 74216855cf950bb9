"""Model-based verification runner: TLC <-> Rust harness.

Every check is a list of legs; each leg either
  * machine  - model-check a TLA+ machine, emit all its transitions, replay covering walks into the code
  * cases    - model-check a TLA+ oracle over an enumerated input space, replay every emitted case
  * mtrace   - run seeded random histories on the code, have TLC decide whether each is a behaviour of the spec
  * ftrace   - run seeded random inputs on the code, have TLC decide every recorded input/output pair
"""
import json, os, random, re, subprocess, sys, time, shutil, tempfile, hashlib, select, threading, queue

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
WORK = os.path.join(VERIF, "work")
TLC_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

import templates
TYPE_ERR = "Attempted to check equality"

class Broken(Exception):
    """The check itself cannot give an answer."""

def env_cargo():
    e = dict(os.environ)
    e.update(HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
             CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0")
    e["PATH"] = "/usr/local/bin:/root/.cargo/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin"
    for k in ("RUSTFLAGS", "RUSTDOCFLAGS", "RUST_BACKTRACE", "CARGO_TARGET_DIR", "RUSTC_WRAPPER"): e.pop(k, None)
    return e

def build_harness():
    t = time.time()
    r = subprocess.run(["cargo", "build", "--offline", "--locked"], cwd=HARN, env=env_cargo(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        i = r.stdout.find("\nerror"); sys.stderr.write(r.stdout[max(i, 0):][:6000])
        raise Broken("harness does not build against /repo")
    return os.path.join(HARN, "target", "debug", "harness"), time.time() - t

def canon(v): return json.dumps(v, sort_keys=True, separators=(",", ":"))

# ---------------------------------------------------------------- harness
class Harness:
    def __init__(self, binary): self.bin = binary; self.executed = 0
    def run(self, reqs, case_timeout=20.0):
        """Run every request (a JSON value) in the real code; crash and hang become results."""
        out = []
        nproc = 8 if len(reqs) > 400 else 1
        if nproc == 1: return self._run1(reqs, case_timeout)
        chunks = [reqs[i::nproc] for i in range(nproc)]
        res = [None] * nproc
        def go(i):
            try: res[i] = self._run1(chunks[i], case_timeout)
            except BaseException as ex: res[i] = ex
        ts = [threading.Thread(target=go, args=(i,)) for i in range(nproc)]
        [t.start() for t in ts]; [t.join() for t in ts]
        for r in res:
            if isinstance(r, BaseException): raise r
        out = [None] * len(reqs)
        for i in range(nproc): out[i::nproc] = res[i]
        return out
    def _run1(self, reqs, case_timeout):
        out, pos, deaths = [], 0, 0
        while pos < len(reqs):
            p = subprocess.Popen([self.bin], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
            def feed(p=p, pos=pos):
                try:
                    for r in reqs[pos:]: p.stdin.write((json.dumps(r) + "\n").encode())
                    p.stdin.close()
                except (BrokenPipeError, ValueError, OSError): pass
            th = threading.Thread(target=feed, daemon=True); th.start()
            q = queue.Queue()
            def rd(p=p, q=q):
                for line in p.stdout: q.put(line)
                q.put(None)
            threading.Thread(target=rd, daemon=True).start()
            bad = None
            while len(out) < len(reqs):
                try: line = q.get(timeout=case_timeout)
                except queue.Empty: bad = "hang"; break
                if line is None: bad = "crash"; break
                out.append(json.loads(line))
            if bad:
                p.kill(); p.wait()
                out.append({"k": bad, "dead": bad}); deaths += 1
                if deaths > 5:
                    while len(out) < len(reqs): out.append({"k": "skipped", "dead": "skipped"})
            else: p.wait()
            pos = len(out)
        self.executed += len(reqs)
        return out

# ---------------------------------------------------------------- TLC
class TLC:
    def __init__(self, ctx): self.ctx = ctx; self.n = 0
    def run(self, module, cfg_text, env=None, workers="auto", simulate=None, timeout=800, heap="6g", wrapper=None):
        self.n += 1; t0 = time.time()
        d = os.path.join(self.ctx.work, "tlc%d" % self.n); os.makedirs(d)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"): shutil.copy(os.path.join(SPEC, f), d)
        if wrapper:
            module = "TR"
            with open(os.path.join(d, "TR.tla"), "w") as f: f.write(wrapper)
        with open(os.path.join(d, "M.cfg"), "w") as f: f.write(cfg_text)
        cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + d, "-cp", TLC_CP, "tlc2.TLC",
               "-config", "M.cfg", "-workers", str(workers), "-noGenerateSpecTE", "-metadir", os.path.join(d, "meta")]
        if simulate: cmd += ["-simulate", simulate, "-seed", str(self.ctx.seed)]
        cmd += [module + ".tla"]
        e = dict(os.environ); e.update(env or {}); e.pop("JAVA_TOOL_OPTIONS", None)
        outp = os.path.join(d, "out.txt")
        with open(outp, "w") as fo:
            try: rc = subprocess.run(cmd, cwd=d, env=e, stdout=fo, stderr=subprocess.STDOUT, timeout=timeout).returncode
            except subprocess.TimeoutExpired: raise Broken("TLC timed out on " + module)
        emitted, rest = [], []
        with open(outp) as f:
            for line in f:
                if line.startswith('"{'):
                    emitted.append(json.loads(json.loads(line)))
                else: rest.append(line)
        text = "".join(l for l in rest if not re.match(r"(Parsing file|Semantic processing|Linting of) ", l))
        st = dict(states=0, generated=0)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", text)
        if m: st = dict(generated=int(m[-1][0]), states=int(m[-1][1]))
        shutil.rmtree(d, ignore_errors=True)
        if os.environ.get("MBV_TIMES"): sys.stderr.write("TLC %s %.1fs\n" % (module, time.time() - t0))
        return rc, emitted, text, st

def cfg(init="Init", next="Next", constants=None, invariants=(), properties=(), action_constraint=None, view=None,
        constraint=None, postcondition=None, spec=None):
    L = []
    if spec: L.append("SPECIFICATION " + spec)
    else: L += ["INIT " + init, "NEXT " + next]
    for k, v in (constants or {}).items():
        L.append("CONSTANT %s %s" % (k, v if str(v).startswith("<-") else "= %s" % v))
    for i in invariants: L.append("INVARIANT " + i)
    for i in properties: L.append("PROPERTY " + i)
    if action_constraint: L.append("ACTION_CONSTRAINT " + action_constraint)
    if constraint: L.append("CONSTRAINT " + constraint)
    if view: L.append("VIEW " + view)
    if postcondition: L.append("POSTCONDITION " + postcondition)
    L.append("CHECK_DEADLOCK FALSE")
    return "\n".join(L) + "\n"

# ---------------------------------------------------------------- comparison of expected and observed outputs
def match(exp, out):
    """Does an observed output refine the expected one?  st 0 = any status, 4 = any 4xx; k any = unconstrained."""
    if isinstance(out, dict) and out.get("dead"): return False
    if isinstance(exp, dict) and exp.get("k") == "someok": return isinstance(out, dict) and out.get("k") == "ok"
    if isinstance(exp, dict) and exp.get("k") == "any": return not (isinstance(out, dict) and out.get("k") == "panic")
    if isinstance(exp, dict) and exp.get("k") == "calm" and isinstance(out, dict) and out.get("k") == "unstable": return True
    if isinstance(exp, dict) and exp.get("k") in ("sane", "calm"): return isinstance(out, dict) and (out.get("k") in ("ok", "none", "unit") or out.get("k") == "err" and 400 <= out.get("st", 0) <= 499)
    if isinstance(exp, dict) and exp.get("k") == "maybe": return isinstance(out, dict) and (out.get("k") == "err" or out.get("k") == "ok" and match(exp["v"], out.get("v")))
    if isinstance(exp, dict) and exp.get("k") == "err" and "st" in exp:
        if not (isinstance(out, dict) and out.get("k") == "err"): return False
        s = out.get("st", 0)
        return exp["st"] == 0 or (exp["st"] == 4 and 400 <= s <= 499) or exp["st"] == s
    if isinstance(exp, dict) and isinstance(out, dict):
        return exp.keys() == out.keys() and all(match(exp[k], out[k]) for k in exp)
    if isinstance(exp, list) and isinstance(out, list):
        return len(exp) == len(out) and all(match(a, b) for a, b in zip(exp, out))
    return type(exp) == type(out) and exp == out

def illformed(o):
    """Values TLC cannot read (the harness never writes them when the code behaves)."""
    if isinstance(o, dict): return any(map(illformed, o.values()))
    if isinstance(o, list): return any(map(illformed, o))
    return o is None or isinstance(o, float) or isinstance(o, int) and not -2**31 < o < 2**31
def txt(s): return [ord(c) for c in s]
def untxt(a):
    """Readable form of nested code-point arrays, for reports."""
    if isinstance(a, list) and a and all(isinstance(x, int) and 0 <= x < 0x110000 for x in a):
        return "".join(chr(x) for x in a)
    if isinstance(a, list): return [untxt(x) for x in a]
    if isinstance(a, dict): return {k: untxt(v) for k, v in a.items()}
    return a

class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == "thorough"
        self.work = os.path.join(WORK, "%s-%d" % (pid, os.getpid())); shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.rng = random.Random("%s/%d" % (pid, seed))
        self.tlc = TLC(self)
        self.states = self.transitions = self.generated = 0
        self.traces = self.replayed = self.pairs = 0
        self.samples, self.failures, self.legs, self.notes = [], [], [], []
        self.nontrivial = set()
        self.harness = None
    def q(self, quick, thorough): return thorough if self.thorough else quick
    def size(self, n, big, lo=0):
        """a random size up to n, rarely far beyond it"""
        return self.rng.randint(lo, n) if self.rng.random() < 0.98 else self.rng.choice([33, big, big])
    def few(self, ns=(1, 1, 1, 2, 3)):
        """how many values a header has: mostly one, rarely more than a handful"""
        return self.rng.choice(ns) if self.rng.random() < 0.985 else self.rng.choice([4, 5, 6, 9, 17, 40])
    def fail(self, leg, req, expected, observed, note=""):
        self.failures.append(dict(property=self.pid, leg=leg, request=req, expected=expected, observed=observed, note=note))
    def sample(self, s):
        if len(self.samples) < 12: self.samples.append(s)

    # ---- spec -> code
    def machine(self, leg, module, kind, constants=None, invariants=(), properties=(), init_params=None, max_walk=60, liveness=None,
                workers=1, timeout=700, init="Init", next="Next", emit="Emit"):
        """Model check `module`, emitting each transition; cover every transition with walks; replay in the code."""
        c = cfg(init=init, next=next, constants=constants, invariants=invariants, properties=properties, action_constraint=emit, view="View")
        rc, em, text, st = self.tlc.run(module, c, workers=workers, timeout=timeout)
        if rc != 0: raise Broken("TLC: %s does not satisfy its own properties\n%s" % (module, text[-3000:]))
        if liveness: # (spec, properties): temporal properties under fairness, on the same bounded instance
            rc, _, text, _ = self.tlc.run(module, cfg(spec=liveness[0], constants=constants, properties=liveness[1]), workers="auto", timeout=timeout)
            if rc != 0: raise Broken("TLC: %s does not satisfy its temporal properties\n%s" % (module, text[-3000:]))
        self.states += st["states"]; self.generated += st["generated"]
        edges = {}
        inits = {}
        for e in em:
            if "f" not in e: inits[canon(e["t"])] = e; continue
            edges.setdefault(canon(e["f"]), []).append(e)
        tos = {canon(e["t"]) for L in edges.values() for e in L}
        roots = [s for s in edges if s not in tos] if not inits else list(inits)
        # the initial states are flagged in the state itself
        roots = [s for s in edges if isinstance(edges[s][0]["f"], dict) and edges[s][0]["f"].get("fresh") == 1] or roots
        n_edges = sum(len(v) for v in edges.values())
        self.transitions += n_edges
        parent, order = {}, []
        for r in roots: parent[r] = None; order.append(r)
        i = 0
        while i < len(order):
            s = order[i]; i += 1
            for e in edges.get(s, ()):
                t = canon(e["t"])
                if t not in parent: parent[t] = (s, e); order.append(t)
        def path(s):
            p = []
            while parent[s] is not None: s, e = parent[s]; p.append(e)
            return p[::-1]
        ptr = {s: 0 for s in edges}
        walks = []
        for s in order:
            while s in edges and ptr[s] < len(edges[s]):
                w = path(s); cur = s
                while cur in edges and ptr[cur] < len(edges[cur]) and len(w) < max_walk:
                    e = edges[cur][ptr[cur]]; ptr[cur] += 1
                    w.append(e); cur = canon(e["t"])
                walks.append(w)
        unreached = [s for s in edges if s not in parent]
        if unreached: raise Broken("%s: %d emitted states unreachable from roots" % (module, len(unreached)))
        reqs = [dict(k="machine", m=kind, init=w[0]["f"], ops=[e["o"] for e in w]) for w in walks]
        res = self.harness.run(reqs)
        for w, rq, rs in zip(walks, reqs, res):
            self.traces += 1; self.replayed += len(w)
            bad = self._cmp_walk(w, rs)
            if bad is not None:
                i, exp, obs = bad
                self.fail(leg, dict(rq, ops=rq["ops"][:i + 1]), exp, obs, "step %d of a walk of the model" % (i + 1))
        for rq in reqs[:2]: self.sample(dict(leg=leg, walk=untxt(rq["ops"][:12])))
        for w in walks:
            for e in w: self.nontrivial.add(hash(canon(e["o"]) + canon(e["f"])))
        self.legs.append(dict(leg=leg, kind="machine", module=module, states=st["states"], transitions=n_edges,
                              walks=len(walks), steps_replayed=sum(map(len, walks)), constants=constants or {},
                              invariants=list(invariants), properties=list(properties)))
    def _cmp_walk(self, w, rs):
        if rs.get("dead"): return len(w) - 1, w[-1].get("r"), rs
        steps = rs["steps"]
        for i, e in enumerate(w):
            if i >= len(steps): return i, dict(r=e["r"], p=e["p"]), {"k": "missing"}
            if not match(e["r"], steps[i]["r"]) or not match(e["p"], steps[i]["p"]):
                return i, dict(r=e["r"], p=e["p"]), steps[i]
        return None

    def cases(self, leg, module, constants=None, invariants=(), workers=4, timeout=700, properties=(), emit="Emit", init="Init", next="Next"):
        """Enumerate the oracle's input space with TLC (checking its laws), replay each case."""
        c = cfg(init=init, next=next, constants=constants, invariants=invariants, properties=properties, action_constraint=emit)
        rc, em, text, st = self.tlc.run(module, c, workers=workers, timeout=timeout)
        if rc != 0: raise Broken("TLC: %s does not satisfy its own properties\n%s" % (module, text[-3000:]))
        self.states += st["states"]; self.generated += st["generated"]; self.transitions += len(em)
        if not em: raise Broken("TLC emitted no case for " + module)
        res = self.harness.run([dict(k="fn", op=e["op"], **{"in": e["in"]}) for e in em])
        for e, o in zip(em, res):
            self.replayed += 1
            if not match(e["exp"], o): self.fail(leg, dict(k="fn", op=e["op"], **{"in": e["in"]}), e["exp"], o)
            self.nontrivial.add(hash(canon(e["in"]) + e["op"]))
        for e in (em[len(em) // 3], em[-1]): self.sample(dict(leg=leg, op=e["op"], input=untxt(e["in"]), expected=untxt(e["exp"])))
        self.traces += len(em)
        self.legs.append(dict(leg=leg, kind="cases", module=module, states=st["states"], cases=len(em),
                              constants=constants or {}, invariants=list(invariants)))

    # ---- code -> spec
    def ftrace(self, leg, module, reqs, constants=None, timeout=700, fixvars="TRUE", fixnext=None, match="Match"):
        """Run inputs on the code, let TLC (module) decide each recorded input/output pair."""
        seen, uniq = set(), []
        for op, i in reqs:
            k = op + canon(i)
            if k not in seen: seen.add(k); uniq.append(dict(k="fn", op=op, **{"in": i}))
        res = self.harness.run(uniq)
        log, idx = [], []
        for rq, o in zip(uniq, res):
            if o.get("dead") == "skipped": continue
            if o.get("dead") or o.get("k") == "panic":
                self.fail(leg, rq, {"k": "no panic/hang/crash"}, o); continue
            if illformed(o): self.fail(leg, rq, {"k": "comparable outputs"}, o); continue
            log.append(dict(op=rq["op"], **{"in": rq["in"]}, out=o)); idx.append(rq)
        if log:
            path = os.path.join(self.work, "trace-%s.ndjson" % re.sub(r"\W", "_", leg))
            with open(path, "w") as f:
                for r in log: f.write(json.dumps(r) + "\n")
            consts = dict(constants or {})
            c = cfg(init="TInit", next="TNext", constants=consts, invariants=["TOk"])
            rc, em, text, st = self.tlc.run(module, c, env=dict(TRACE=path), workers="auto", timeout=timeout,
                                            wrapper=templates.TRF % dict(mod=module, fix=fixvars, fixn=fixnext or ("UNCHANGED << %s >>" % ", ".join(re.findall(r"(\w+) =", fixvars)) if fixvars != "TRUE" else "TRUE"), match=match, chunk=max(1, (len(log) + 31) // 32)))
            if rc != 0 and TYPE_ERR in text:
                self.fail(leg, dict(k="fn", op="?"), {"k": "comparable outputs"}, {"k": "ill-typed"}, text[-1500:]); return
            if rc != 0: raise Broken("TLC trace check failed to run (%s)\n%s" % (leg, text[-3000:]))
            if st["states"] != len(log): raise Broken("trace check covered %d of %d records" % (st["states"], len(log)))
            for m in em:
                i = m["mismatch"] - 1
                self.fail(leg, idx[i], m["expected"], log[i]["out"])
            self.states += st["states"]
            for r in (log[0], log[len(log) // 2]):
                self.sample(dict(leg=leg, op=r["op"], input=untxt(r["in"]), observed=untxt(r["out"])))
            os.remove(path)
        self.pairs += len(log); self.traces += len(log)
        for r in log: self.nontrivial.add(hash(canon(r["in"]) + r["op"]))
        self.legs.append(dict(leg=leg, kind="ftrace", module=module, records=len(log)))

    def mtrace(self, leg, module, kind, histories, constants=None, timeout=700, fix="TRUE", fixn="TRUE"):
        """histories: list of (init, [ops]).  Execute on the code, TLC decides whether each log is a behaviour."""
        reqs = [dict(k="machine", m=kind, init=i, ops=o) for i, o in histories]
        res = self.harness.run(reqs)
        lines, where = [], []
        for h, (rq, rs) in enumerate(zip(reqs, res)):
            if rs.get("dead") == "skipped": continue
            if rs.get("dead"): self.fail(leg, rq, {"k": "no hang/crash"}, rs); continue
            if illformed(rs["steps"]): self.fail(leg, rq, {"k": "comparable outputs"}, {"k": "ill-typed"}, untxt(rs["steps"])); continue
            lines.append(dict(n="new", init=rq["init"])); where.append((h, -1))
            for j, (o, s) in enumerate(zip(rq["ops"], rs["steps"])):
                lines.append(dict(n="op", o=o, r=s["r"], p=s["p"])); where.append((h, j))
        n = len(lines)
        for lo, hi in batches(lines):
            path = os.path.join(self.work, "mtrace-%s.ndjson" % re.sub(r"\W", "_", leg))
            with open(path, "w") as f:
                for r in lines[lo:hi]: f.write(json.dumps(r) + "\n")
            c = cfg(init="TInit", next="TNext", constants=constants)
            rc, em, text, st = self.tlc.run(module, c, env=dict(TRACE=path), workers="auto", timeout=timeout,
                                            wrapper=templates.TRM % dict(mod=module, fix=fix, fixn=fixn))
            if rc != 0 and TYPE_ERR in text:
                self.fail(leg, dict(k="machine", m=kind), {"k": "comparable outputs"}, {"k": "ill-typed"}, text[-1500:]); return
            if rc != 0: raise Broken("TLC trace check failed to run (%s)\n%s" % (leg, text[-3000:]))
            bad = [m for m in em if "mismatch" in m]
            for m in bad:
                i = lo + m["mismatch"] - 1
                h, j = where[i]
                self.fail(leg, dict(reqs[h], ops=reqs[h]["ops"][:j + 1]), m["expected"],
                          dict(r=lines[i]["r"], p=lines[i]["p"]), "history %d step %d" % (h, j + 1))
            if not bad and st["states"] != hi - lo: raise Broken("%s: trace check consumed %d of %d events" % (leg, st["states"], hi - lo))
            self.states += st["states"]
            os.remove(path)
        for rq in reqs[:1]: self.sample(dict(leg=leg, init=rq["init"], history=untxt(rq["ops"][:12])))
        self.traces += len(reqs); self.replayed += n
        for rq in reqs: self.nontrivial.add(hash(canon(rq["ops"])))
        self.legs.append(dict(leg=leg, kind="mtrace", module=module, histories=len(reqs), events=n))

def batches(lines, limit=30000, size=12 << 20):
    """Cut a trace at history boundaries so that TLC loads at most about `limit` events, `size` bytes, at a time."""
    cuts, count, weight = [0], 0, 0
    for i, r in enumerate(lines):
        if r["n"] == "new" and (count >= limit or weight >= size): cuts.append(i); count = weight = 0
        count += 1; weight += len(json.dumps(r))
    return list(zip(cuts, cuts[1:] + [len(lines)])) if lines else []

# ---------------------------------------------------------------- known findings
def known_findings(pid):
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("{"):
                d = json.loads(line)
                if d["property"] == pid and d.get("state") == "known": out.append(d)
    return out

def finding_for(f, known):
    """A known finding matches only the specific failing input/site it names."""
    req = f["request"]
    for d in known:
        m = d["match"]
        if m.get("op") is not None and m["op"] != req.get("op"): continue
        if "input" in m and canon(m["input"]) != canon(req.get("in")): continue
        if "input_regex" in m and not re.search(m["input_regex"], json.dumps(untxt(req.get("in")))): continue
        if "observed" in m and not match(m["observed"], f["observed"]): continue
        return d
    return None

def replay(path):
    """Re-execute the recorded failing requests on the current tree; 1 while one of them still answers something else."""
    binary, _ = build_harness()
    fails = json.load(open(path))
    still = 0
    for f, o in zip(fails, Harness(binary).run([f["request"] for f in fails])):
        if f["request"].get("k") == "machine" and not o.get("dead"): o = o["steps"][-1] if o.get("steps") else {"k": "missing"}
        ok = match(f["expected"], o) or (f["expected"] == {"k": "no panic/hang/crash"} and not o.get("dead") and o.get("k") != "panic")
        still += not ok
        print("%s request=%s\n  expected=%s\n  observed=%s" % ("ok  " if ok else "FAIL", json.dumps(untxt(f["request"]))[:600],
              json.dumps(untxt(f["expected"]))[:400], json.dumps(untxt(o))[:400]))
    print("%d of %d recorded failures reproduce" % (still, len(fails)))
    return 1 if still else 0

def main(pid, legs, level="model_checking", assumptions=()):
    if "--replay" in sys.argv: return replay(sys.argv[sys.argv.index("--replay") + 1])
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv: tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    ctx = Ctx(pid, tier, seed)
    try:
        binary, bt = build_harness()
        ctx.harness = Harness(binary)
        legs(ctx)
    finally:
        shutil.rmtree(ctx.work, ignore_errors=True)
    known = known_findings(pid)
    new, hit = [], {}
    for f in ctx.failures:
        d = finding_for(f, known)
        if d is None: new.append(f)
        else: hit.setdefault(d["id"], (d, f))
    for d in known: print("KNOWN-FINDING: property=%s %s%s" % (pid, d["what"], "" if d["id"] in hit else " (not reproduced in this run)"))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = dict(property=pid, tier=tier, seed=seed, level=level, wall_s=round(time.time() - t0, 2), violations=len(new),
              assumptions=list(assumptions),
              coverage=dict(states=ctx.states, transitions=ctx.transitions, traces_validated_against_impl=ctx.traces,
                            steps_replayed=ctx.replayed, io_pairs_decided_by_tlc=ctx.pairs,
                            distinct_cases=len(ctx.nontrivial), legs=ctx.legs, samples=ctx.samples[:8] or ["none"]))
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    if new:
        rp = os.path.join(VERIF, "evidence", "replay-%s.json" % pid)
        with open(rp, "w") as f: json.dump(new[:int(os.environ.get("KEEP", "50"))], f, indent=1)
        for f in new[:8]:
            print("FAIL leg=%s request=%s\n  expected=%s\n  observed=%s %s" % (f["leg"], json.dumps(untxt(f["request"]))[:600],
                  json.dumps(untxt(f["expected"]))[:400], json.dumps(untxt(f["observed"]))[:400], f["note"]))
        print("%d failing cases" % len(new))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("OK property=%s tier=%s seed=%d states=%d transitions=%d traces=%d steps=%d pairs=%d wall=%.1fs (build %.1fs)" % (
        pid, tier, seed, ctx.states, ctx.transitions, ctx.traces, ctx.replayed, ctx.pairs, time.time() - t0, bt))
    return 0
