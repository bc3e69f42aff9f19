"""C01: valid decks and legal call sequences under AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer and valgrind memcheck."""
import vp, deck, rich, c10, trace
from trace import A

def sess(rng, m, sid, ns, path="m.txt"):
    """a legal life of one system"""
    mot = deck.Motion(rng, m, amp=.5); x = mot.x(0.0); h = m.opts["dtM"]; s = ["create %s %s" % (sid, path)]
    end = rng.random()
    def q():
        L = []
        for _ in range(rng.randint(0, 3)):
            L.append(rng.choice(["dump %s", "wk %s", "sfstat %s", "depth %s 1.0 2.0", "wave %s 1.0 -3.0 -4.0 1", "wave %s 1.0 -3.0 4.0 0", "ser %s H" + sid, "save %s S_%s.md" % ("%s", sid), "vtk %s out", "fast %s %d" % ("%s", len(m.lines)), "ewn %s", "loglevel %s 1", "log %s 2 hello", "verb %s 6"]) % sid)
        return L
    if rng.random() < .3: s.append("logfile %s own_%s.log" % (sid, sid))
    if rng.random() < .3: s.append("loglevel %s %d" % (sid, rng.choice([0, 1, 2, 3, 6])))
    s += q() if rng.random() < .4 else []
    if end < .06: return s + ["close " + sid]
    if rng.random() < .25: s.append("scheme %s %s" % (sid, rng.choice(rich.SCHEMES)))
    if rng.random() < .15: s.append(rng.choice(["setdt %s %r" % (sid, h), "setcfl %s 0.2" % sid]))
    s.append(deck.init_cmd(sid, x, mot.v(0.0), rng.random() < .6)); s += q()
    ext = m.opts.get("WaveKin") == 1
    # the ground body and every body, rod node, point and line node
    n = 1 + len(m.bodies) + sum(r["N"] + 1 for r in m.rods) + len(m.points) + sum(l["N"] + 1 for l in m.lines)
    if ext: s += ["ewinit " + sid, "ewn " + sid, "ewcoords %s %d" % (sid, n)]
    if end < .12: return s + ["close " + sid]
    for k in range(ns):
        if rng.random() < .2: s += c10.controls(rng, m, sid)
        if ext and rng.random() < .8: s.append("ewset %s %r %d %s %s" % (sid, k * h, n, deck.fmt([rng.uniform(-1, 1) for _ in range(3 * n)]), deck.fmt([rng.uniform(-1, 1) for _ in range(3 * n)])))
        if rng.random() < .08: s.append(rng.choice(["setdt %s %r" % (sid, h * .5), "setcfl %s 0.1" % sid, "scheme %s %s" % (sid, rng.choice(rich.SCHEMES))]))
        if rng.random() < .1: s += ["ser %s J%s" % (sid, sid), "deser %s J%s" % (sid, sid)]
        if rng.random() < .05: s += ["save %s T_%s.md" % (sid, sid), "load %s T_%s.md" % (sid, sid)]
        H = h * rng.choice([1, 1, 2.5, .3, 0]); s.append(deck.step_cmd(sid, k * h, H, x, mot.v(k * h))); x = x + mot.v(k * h) * H; s += q()
    return s + (["close " + sid] if end < .97 else [])

def v1(rng, m, ns):
    mot = deck.Motion(rng, m, amp=.5); x = mot.x(0.0); h = m.opts["dtM"]; n = len(x)
    s = ["v1init v m.txt %d %s %s" % (n, deck.fmt(x), deck.fmt(mot.v(0.0)))]
    for k in range(ns):
        s.append("v1step v %r %r %d %s %s" % (k * h, h, n, deck.fmt(x), deck.fmt(mot.v(k * h)))); x = x + mot.v(k * h) * h
        s += [rng.choice(["v1fair v 1", "v1node v 1 0", "v1ppos v 1", "v1pforce v 1", "v1fast v %d" % len(m.lines), "v1fair v %d" % len(m.lines)]) for _ in range(2)]
    return s + ["v1close v"]

def weave(rng, seqs):
    seqs = [list(q) for q in seqs if q]; s = []
    while seqs:
        q = rng.choice(seqs); s.append(q.pop(0)); seqs = [z for z in seqs if z]
    return s

SER = None
def case(ctx, c):
    out = vp.Out(); rng = ctx.rng(c); m = rich.model(rng, fails=True)
    ns = rng.choice([1, 3, 6]); flav, args = ("vg", ["valgrind", "-q", "--error-exitcode=89", "--leak-check=full", "--show-leak-kinds=definite,indirect,possible", "--errors-for-leak-kinds=definite,indirect,possible", "--track-origins=no", "--num-callers=12"]) if c[0] == "vg" else ("asan", None)
    mode = rng.random()
    if mode < .6: s = sess(rng, m, "a", ns)
    elif mode < .8: s = weave(rng, [sess(rng, m, "a", ns), sess(rng, m, "b", 2)])
    else: s = v1(rng, m, ns)
    if "close a" not in s and mode < .8: s = [l for l in s]  # left open on purpose only when it never was closed
    if mode < .8: s += [l for l in ("close a", "close b") if l not in s and any(q.startswith("create " + l[-1]) for q in s)]
    with vp.Scratch() as d: run = vp.execute(ctx.exe(flav), m.deck(), s, d, 200 if flav == "vg" else 60, args=args)
    if run.timeout:
        with vp.Scratch() as d: run = vp.execute(ctx.exe(flav), m.deck(), s, d, 400, args=args)
        if run.timeout: out.stat("slow"); return out
    b = run.bad()
    if b:
        if run.rc == 89: b = "valgrind: " + " ".join(run.err.split("\n")[:14])[:600]
        out.v("memory" if run.rc else "abnormal-end", b, run); return out
    if any(r.get("over") for r in run.recs): out.v("overrun", "values written beyond the advertised size", run)
    cr = run.of("create"); ok = not cr or cr[0]["ok"]
    if not ok: out.v("deck-refused", "valid deck refused", run)
    for r in run.recs:
        out.ob(1); k = r["c"]; out.stat(k)
        if k in ("init", "initnoic", "step", "v1init", "v1step") and r.get("rc"): out.stat("%s rc=%d" % (k, r["rc"]))
    out.ob(0, "|".join([flav, m.kind, m.opts["tScheme"], "v1" if mode >= .8 else "two" if mode >= .6 else "one", "out" if m.outs else "-"]))
    if not out["samples"]: out["samples"].append({"deck": m.text()[:3000], "calls": [l[:120] for l in s[:12]]})
    return out

def run(ctx):
    ctx.exe("asan"); ctx.exe("vg")
    n, k = (1600, 96) if ctx.quick else (20000, 1500)
    ctx.map(case, [("vg", i) for i in range(k)] + [("s", i) for i in range(n)])
    return ctx.finish()
