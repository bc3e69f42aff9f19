"""C10: snapshots.  The continuation of a restored system is compared, value by value, with that of the original run."""
import numpy as np
import vp, deck, trace, phys, water
import c09
from trace import A

KEYS = ("lines", "points", "rods", "bodies")

def diff(a, b, keys=KEYS):
    """first difference between two dumps, None when they are identical"""
    def go(x, y, path):
        if isinstance(x, dict):
            if set(x) != set(y): return "%s: fields differ" % path
            for k in x:
                d = go(x[k], y[k], "%s.%s" % (path, k))
                if d: return d
        elif isinstance(x, list):
            if len(x) != len(y): return "%s: %d and %d entries" % (path, len(x), len(y))
            for i, (p, q) in enumerate(zip(x, y)):
                d = go(p, q, "%s[%d]" % (path, i))
                if d: return d
        elif x != y and not (x != x and y != y): return "%s: %r and %r" % (path, x, y)
    for k in keys:
        if k in a or k in b:
            d = go(a.get(k), b.get(k), k)
            if d: return d

def controls(rng, m, sid="a"):
    """run-time line controls, within what the lines admit"""
    s = []
    for i, l in enumerate(m.lines):
        lt = next(t for t in m.ltypes if t["name"] == l["ltype"])
        if rng.random() < .25: s.append("setul %s %d %r" % (sid, i + 1, l["L"] * rng.uniform(.98, 1.03)))
        if rng.random() < .2: s.append("setulv %s %d %r" % (sid, i + 1, rng.uniform(-.5, .5)))
        if rng.random() < .2 and not isinstance(lt["EA"], str): s.append("setea %s %d %r" % (sid, i + 1, float(lt["EA"]) * rng.uniform(.7, 1.0)))
        if rng.random() < .2: s.append("pb %s %d 1" % (sid, i + 1)); s.append("pint %s %d %d %s" % (sid, i + 1, l["N"] + 1, deck.fmt([rng.uniform(0, 1e5) for _ in range(l["N"] + 1)])))
    return s

def build(rng, c):
    m = deck.rnd_model(rng, zfree=rng.random() < .4, nmax=6, small=rng.random() < .5)
    kind = rng.choice(["still", "still", "current", "airy", "bathy", "grid", "dyn"])
    H = m.opts["WtrDpth"]
    if kind == "grid": water.add_waves(m, rng, rng.choice([2, 3]), m.opts.get("g", 9.80665), m.opts.get("rho", 1025.0), H)
    elif kind == "dyn": water.add_current(m, rng, rng.choice([2, 5]), H)
    else: phys.add_water(m, rng, kind)
    return m, kind

def case(ctx, c):
    out = vp.Out(); rng = ctx.rng(c)
    m, kind = build(rng, c)
    sch = rng.choice(c09.ALL) if c[1] % 3 else rng.choice(["rk2", "euler", "ab4", "lab4", "leuler", "heun"])
    h = deck.safe_dt(m, .1, .01); dtM = h * rng.choice([1.0, .5, .37]); mot = deck.Motion(rng, m, amp=rng.choice([.3, 2.0]))
    m.opts.update(dtM=dtM, tScheme=sch, writeLog=0, disableOutput=1)
    if rng.random() < .3: m.opts["TmaxIC"] = 20 * dtM; m.opts["dtIC"] = 5 * dtM; ic = True
    else: ic = False
    k1, k2 = rng.choice([0, 1, 3, 6]), 4 if ctx.quick else 10
    ctl = rng.random() < .3; byfile = rng.random() < .5; xs = [mot.x(0.0)]
    def stp(sid, k, x): return deck.step_cmd(sid, k * h, h, x, mot.v(k * h))
    for k in range(k1 + k2 + 4): xs.append(xs[-1] + mot.v(k * h) * h)
    save = (lambda sid, n: ["save %s %s.md" % (sid, n)]) if byfile else (lambda sid, n: ["ser %s %s" % (sid, n)])
    load = (lambda sid, n: ["load %s %s.md" % (sid, n)]) if byfile else (lambda sid, n: ["deser %s %s" % (sid, n)])
    cts = {k: controls(rng, m) for k in range(k1 + k2) if ctl and rng.random() < .5}
    retag = lambda l, sid: [q.replace(" a ", " %s " % sid, 1) for q in l]
    start = lambda sid, ic_: ["create %s m.txt" % sid, deck.init_cmd(sid, xs[0], mot.v(0.0), ic_)]
    def go(sid, a, b, mark, saves=False):
        s = []
        for k in range(a, b):
            s += retag(cts.get(k, []), sid)
            if saves: s += ["ser %s junk" % sid, "save %s junk.md" % sid]
            s += [stp(sid, k, xs[k]), "# %s %d" % (mark, k), "dump %s" % sid, "wk %s" % sid]
        return s
    see = lambda sid: ["dump %s" % sid, "wk %s" % sid]
    s = start("a", ic) + see("a") + go("a", 0, k1, "pre") + save("a", "S") + ["ser a H0"] + see("a") + ["ser a H1"] + go("a", k1, k1 + k2, "on")
    # restored into a fresh system, which may have lived a while on its own
    live = rng.choice([0, 0, 2]); s += start("b", rng.random() < .3 and ic) + go("b", 0, live, "live") + load("b", "S") + ["ser b H2"] + see("b") + go("b", k1, k1 + k2, "on")
    # rewound
    s += load("a", "S") + ["ser a H3"] + see("a") + go("a", k1, k1 + k2, "on")
    # undisturbed reference, and one saved at every step
    s += start("c", ic) + see("c") + go("c", 0, k1, "pre") + see("c") + go("c", k1, k1 + k2, "on")
    s += start("d", ic) + see("d") + go("d", 0, k1, "pre", True) + see("d") + go("d", k1, k1 + k2, "on", True)
    s += ["close %s" % q for q in "abcd"]; s = [l for l in s if not l.startswith("#")]
    with vp.Scratch() as d: run = vp.execute(ctx.exe(), m.deck(), s, d, 120)
    if not phys.usable(run, out, m): return out
    tag = "%s, %s, %s%s" % (sch, kind, "file" if byfile else "buffer", ", controls" if ctl else "")
    for r in run.recs:
        if r["c"] in ("save", "load", "ser", "deser") and r["rc"]: out.v("call-failed", "%s: %s failed with %d" % (tag, r["c"], r["rc"]), run); return out
        if r["c"] == "ser" and r["size"] != r["size2"]: out.v("size", "two sizes reported: %d and %d" % (r["size"], r["size2"]), run)
    # traces: per system, list of (dump, wk, step forces) between marks
    T = {q: [] for q in "abcd"}; f = {q: None for q in "abcd"}
    for r in run.recs:
        q = r.get("s")
        if q not in T: continue
        if r["c"] == "step": f[q] = (r["rc"], r["f"], r["t"])
        elif r["c"] == "dump": T[q].append([r, None, f[q]]); f[q] = None
        elif r["c"] == "wk": T[q][-1][1] = r
    a, b, cc, dd = T["a"], T["b"], T["c"], T["d"]
    A1 = a[:k1 + 2 + k2]; A2 = a[k1 + 2 + k2:]; B = b[-(k2 + 1):]
    def same(name, X, Y, base):
        if len(X) != len(Y): out.v("trace", "%s: %d and %d records" % (name, len(X), len(Y)), run); return
        for i, (p, q) in enumerate(zip(X, Y)):
            if trace.speed(p[0]) > 1e4: out.stat("cut at divergence"); return
            out.ob(1, "%s|%s|%s|%s" % (name, sch, kind, byfile))
            e = diff(p[0], q[0]) or diff(p[1], q[1], "LRPB")
            if not e and (p[2] or q[2]) and p[2] and q[2] and repr(p[2]) != repr(q[2]):
                e = diff({"f": list(p[2])}, {"f": list(q[2])}, ("f",))
            if e: out.v("%s-%s" % (name, "at-once" if i == 0 and name in ("fresh", "rewind") else "later"), "%s: record %d of %d after %d steps: %s" % (tag, i, len(X), base, e), run); return
    same("fresh", A1[k1 + 1:], B, k1); same("rewind", A1[k1 + 1:], A2, k1); same("undisturbed", A1, cc, 0); same("saved-often", cc, dd, 0)
    hs = [r["hash"] for r in run.recs if r["c"] == "ser" and r["s"] in "ab"]
    out.ob(len(hs))
    if len(set(hs)) != 1: out.v("resave", "%s: serialised data of the original, again, the restored and the rewound system: %s" % (tag, hs), run)
    return out

def run(ctx):
    ctx.exe()
    ctx.map(case, [("s", k) for k in range(2000 if ctx.quick else 20000)])
    return ctx.finish()
