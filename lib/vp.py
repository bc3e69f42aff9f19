"""Check runner: scratch sessions of the harness, verdicts, replay files, evidence.

    python3 /verif/lib/vp.py C04 quick|thorough [--seed N] [--case K] [-v]

exit 0 held on everything explored, 1 violation, 3 no verdict (build failure...).
"""
import os, sys, json, time, tempfile, shutil, subprocess, hashlib, random, importlib, traceback, re, math
import multiprocessing as mp
LIB = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(LIB)
sys.path[:0] = [LIB, os.path.join(VERIF, "checks")]
import build as B

SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=86:detect_leaks=1:allocator_may_return_null=1:max_allocation_size_mb=4000:detect_stack_use_after_return=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=86",
    "LSAN_OPTIONS": "exitcode=87",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=88:second_deadlock_stack=1:report_bugs=1",
}

class Run:
    """What one execution of the harness produced."""
    def __init__(self, rc, recs, err, d, timeout, script, files):
        self.rc, self.recs, self.err, self.dir, self.timeout = rc, recs, err, d, timeout
        self.script, self.files = script, files
        self.ended = bool(recs) and recs[-1].get("c") == "end"
    def of(self, c, s=None):
        return [r for r in self.recs if r.get("c") == c and (s is None or r.get("s") == s)]
    def read(self, name):
        p = os.path.join(self.dir, name)
        if not os.path.exists(p): return None
        return open(p, errors="replace").read()
    def bad(self):
        """Abnormal end of the execution, or None."""
        if self.timeout: return "hang: did not end within its time limit (last command: %s)" % (self.recs[-1].get("c") if self.recs else "?")
        if self.rc != 0 or not self.ended:
            m = re.search(r"(ERROR: AddressSanitizer: [^\n]*|runtime error: [^\n]*|ERROR: LeakSanitizer[^\n]*|WARNING: ThreadSanitizer[^\n]*|terminate called[^\n]*|Assertion[^\n]*)", self.err)
            fr = re.findall(r"#\d+ 0x[0-9a-f]+ in ([^\n]*?) /\S*?/source/([\w/\.]+):(\d+)", self.err)
            where = (" at %s (%s)" % (fr[0][0].split("(")[0], fr[0][1])) if fr else ""
            last = self.recs[-1].get("c") if self.recs else "start"
            return "abnormal end rc=%s after '%s': %s%s" % (self.rc, last, m.group(1) if m else self.err[-200:].replace("\n", " | "), where)
        for r in self.recs:
            if "unknown" in r: raise RuntimeError("unknown harness command " + r["c"])
            if "exc" in r: return "exception escaped from the API in '%s': %s" % (r.get("c"), r["exc"])
        return None

def parse(path):
    recs = []
    try:
        with open(path, errors="replace") as f:
            for line in f:
                try: recs.append(json.loads(line))
                except ValueError:
                    m = re.match(r'\{"c":"(\w+)"', line)
                    recs.append({"c": m.group(1) if m else "?", "partial": line[:300]})
    except OSError: pass
    return recs

class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="vp_", dir="/tmp"); return self.d
    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)

def execute(exe, files, script, d, timeout=60, env=None, args=None, name="s", tail=None):
    """Run SCRIPT (list of harness commands) in scratch directory d holding FILES."""
    for n, t in files.items():
        p = os.path.join(d, n); os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f: f.write(t if isinstance(t, bytes) else t.encode("utf8", "surrogateescape"))
    sp, op = os.path.join(d, name + ".script"), os.path.join(d, name + ".out")
    with open(sp, "w") as f: f.write("\n".join(script) + "\n")
    e = dict(os.environ); e.update(SAN_ENV); e.update(env or {})
    ep = os.path.join(d, name + ".err")
    to = False
    with open(ep, "wb") as ef, open(os.devnull, "wb") as dn:
        p = subprocess.Popen((args or []) + [exe, sp, op] + (tail or []), cwd=d, stdin=subprocess.DEVNULL, stdout=dn, stderr=ef, env=e, start_new_session=True)
        try: rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            to = True
            try: os.killpg(p.pid, 9)
            except OSError: p.kill()
            rc = p.wait()
    err = open(ep, errors="replace").read()[-20000:]
    return Run(rc, parse(op), err, d, to, script, files)

class Out(dict):
    """Result of one case."""
    def __init__(self):
        super().__init__(viol=[], n=0, shapes=set(), samples=[], stats={})
    def v(self, key, msg, run=None, **kw):
        d = {"key": key, "msg": str(msg)[:2000]}
        if run is not None:
            d["files"] = {k: (t if isinstance(t, str) else t.decode("latin1")) for k, t in run.files.items()}
            d["script"] = list(run.script); d["err"] = run.err[-6000:]
        d.update(kw)
        if len(self["viol"]) < 8: self["viol"].append(d)
    def ob(self, n=1, shape=None):
        self["n"] += n
        if shape is not None: self["shapes"].add(shape if isinstance(shape, str) else json.dumps(shape, default=str))
    def merge(self, o):
        for v in o["viol"]:
            if len(self["viol"]) < 8: self["viol"].append(v)
        self["n"] += o["n"]; self["shapes"] |= o["shapes"]
        for k, x in o["stats"].items():
            if k.startswith("max "): self.mx(k[4:], x)
            else: self.stat(k, x)
    def stat(self, k, n=1): self["stats"][k] = self["stats"].get(k, 0) + n
    def mx(self, k, x):
        if x == x: self["stats"]["max " + k] = max(self["stats"].get("max " + k, 0.0), float(x))

class Ctx:
    def __init__(self, pid, tier, seed, verbose=False, only=None):
        self.pid, self.tier, self.seed, self.verbose, self.only = pid, tier, seed, verbose, only
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.res, self.assume, self.exes = [], [], {}
        self.rule = ""
        self.level_note = ""
    def exe(self, flavor="plain", main="mdh.cpp"):
        k = (flavor, main)
        if k not in self.exes: self.exes[k] = B.build(flavor, main)
        return self.exes[k]
    def rng(self, *k):
        return random.Random("%s|%s|%s" % (self.pid, self.seed, k))
    def map(self, fn, cases, budget=None, workers=8):
        """fn(ctx, case) -> Out, in forked workers.  Stops handing out cases when the
        time budget (seconds) is used up; cases are ordered so that the important ones come first."""
        cases = list(cases)
        if self.only is not None: cases = [c for i, c in enumerate(cases) if str(i) == self.only or (isinstance(c, (list, tuple)) and str(c[0]) == self.only) or c == self.only]
        self._fn = fn
        t1 = time.time()
        if workers == 1 or len(cases) == 1 or self.only is not None:
            for c in cases: self._take(c, _guard(self, fn, c))
            return
        q = mp.get_context("fork")
        global _CUR
        _CUR = (self, fn)
        done = 0
        with q.Pool(workers) as pool:
            it = iter(cases); pend = []
            def feed():
                while len(pend) < workers + 2:
                    if budget and time.time() - t1 > budget: return
                    try: c = next(it)
                    except StopIteration: return
                    pend.append((c, pool.apply_async(_work, (c,))))
            feed()
            while pend:
                for i, (c, r) in enumerate(pend):
                    if r.ready(): break
                else:
                    time.sleep(0.005); continue
                pend.pop(i); self._take(c, r.get()); done += 1; feed()
        self.stats_skip = len(cases) - done
    def _take(self, c, o):
        self.res.append((c, o))
        if self.verbose:
            for v in o["viol"]: print("  case %s: %s: %s" % (str(c)[:80], v["key"], v["msg"][:400]))
    # -- verdict
    def finish(self, assumptions=()):
        import meta
        level, rule = meta.finish_args(self.pid)
        known = load_known(self.pid)
        viol, kf = [], {}
        n, shapes, samples, stats = 0, set(), [], {}
        for c, o in self.res:
            n += o["n"]; shapes |= set(o["shapes"])
            for k, x in o["stats"].items():
                stats[k] = max(stats.get(k, 0), x) if k.startswith("max ") else stats.get(k, 0) + x
            if len(samples) < 6: samples += o["samples"][:6 - len(samples)]
            for v in o["viol"]:
                hit = next((k for k in known if re.fullmatch(k[0], v["key"])), None)
                if hit: kf.setdefault(hit, 0); kf[hit] += 1
                else: viol.append((c, v))
        for (k, desc), cnt in kf.items():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, desc))
        seen = {}
        for c, v in viol: seen.setdefault(v["key"], []).append((c, v))
        for key, lst in list(seen.items())[:10]:
            c, v = lst[0]
            rp = write_replay(self, c, v)
            print("violation %s (%d cases): %s" % (key, len(lst), v["msg"][:600]))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": {"evaluations": max(len(self.res), getattr(self, "nexec", 0)), "monitor_observations": int(n), "distinct_nontrivial": len(shapes), "rule": rule,
                           "samples": samples[:6] or [str(s)[:300] for s in sorted(shapes)[:6]], "shapes": sorted(shapes)[:400], "stats": stats, "cases_not_started_for_time": getattr(self, "stats_skip", 0)},
              "wall_s": round(time.time() - self.t0, 2), "violations": len(viol), "assumptions": list(assumptions)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f: json.dump(ev, f, indent=1, default=str)
        if n == 0:
            print("ERROR: no observation was made", file=sys.stderr); return 3
        print("%s %s: %d observations, %d distinct shapes, %d cases, %.1f s, %d violations %s" % (
            self.pid, self.tier, n, len(shapes), len(self.res), time.time() - self.t0, len(viol),
            {k: (round(v, 14) if isinstance(v, float) else v) for k, v in stats.items()} if self.verbose else ""))
        return 1 if viol else 0

def _guard(ctx, fn, c):
    try:
        return fn(ctx, c)
    except Exception:
        o = Out(); o["harness_error"] = traceback.format_exc()
        o.v("trace-unusable", "the recorded execution cannot be interpreted: " + o["harness_error"][-1500:])
        return o
def _work(c):
    return _guard(_CUR[0], _CUR[1], c)

def load_known(pid):
    p = os.path.join(VERIF, "known_findings.txt"); r = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid: r.append((m.group(2), m.group(3)))
    return r

def write_replay(ctx, case, v):
    h = hashlib.sha1((v["key"] + repr(case)).encode()).hexdigest()[:10]
    d = os.path.join(VERIF, "replay", "%s_%s" % (ctx.pid, h))
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    with open(os.path.join(d, "violation.txt"), "w") as f:
        f.write("property %s\ncase %r\nseed %s tier %s\nkey %s\n%s\n\n%s\n" % (ctx.pid, case, ctx.seed, ctx.tier, v["key"], v["msg"], v.get("err", "")))
    for n, t in v.get("files", {}).items():
        p = os.path.join(d, "files", n); os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w", encoding="latin1", errors="replace") as f: f.write(t)
    if "script" in v:
        with open(os.path.join(d, "script.txt"), "w") as f: f.write("\n".join(v["script"]) + "\n")
    return d

def main():
    a = sys.argv[1:]
    pid = a[0]; tier = a[1] if len(a) > 1 and not a[1].startswith("-") else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if "--seed" in a: seed = int(a[a.index("--seed") + 1])
    only = a[a.index("--case") + 1] if "--case" in a else None
    ctx = Ctx(pid, tier, seed, "-v" in a, only)
    mod = importlib.import_module(pid.lower())
    rc = mod.run(ctx)
    errs = [(c, o["harness_error"]) for c, o in ctx.res if "harness_error" in o]
    if errs:
        print("harness errors: %d, first (case %s):\n%s" % (len(errs), errs[0][0], errs[0][1]), file=sys.stderr)
    sys.exit(rc)
if __name__ == "__main__":
    sys.modules["vp"] = sys.modules["__main__"]
    main()
