"""Shared workload of the force-balance monitors: random systems under random water, stepped with
the explicit Euler scheme so that every evaluation can be paired with the state it belongs to."""
import math, random
import numpy as np
import vp, deck, trace, ref
from trace import A

def bilinear(b, x, y):
    xs, ys, d = b
    def loc(v, t):
        if t <= v[0]: return 0, 0.0
        if t >= v[-1]: return len(v) - 2, 1.0
        i = max(k for k in range(len(v) - 1) if v[k] <= t)
        return i, (t - v[i]) / (v[i + 1] - v[i])
    i, f = loc(xs, x); j, g = loc(ys, y)
    return (d[i][j] * (1 - f) + d[i + 1][j] * f) * (1 - g) + (d[i][j + 1] * (1 - f) + d[i + 1][j + 1] * f) * g

HEAD3 = "----\nheader\n----\n"

def add_water(m, rng, kind):
    """kind: still, current, regular, airy (irregular), bathy, or a + combination"""
    for k in kind.split("+"):
        H = m.opts["WtrDpth"]
        if k == "current":
            n = rng.randint(2, 5)
            zs = [-H] + sorted(rng.uniform(-H, 0) for _ in range(n - 2)) + [0.0]
            m.opts["Currents"] = 1
            m.files["current_profile.txt"] = HEAD3 + "".join("%r %r %r %r\n" % (z, rng.uniform(-2, 2), rng.uniform(-2, 2), rng.uniform(-.2, .2)) for z in zs)
        elif k == "airy":
            n = rng.randint(3, 8); w0 = rng.uniform(0.1, 0.25)
            m.opts["WaveKin"] = 7
            a = rng.choice([0.3, 1.5])
            rows = ["0.0 0.0 0.0 0.0"] + ["%r %r %r %r" % (w0 * (i + 1), rng.uniform(-a, a), rng.uniform(-a, a), rng.uniform(-3, 3)) for i in range(n)]
            m.files["wave_frequencies.txt"] = "\n".join(rows) + "\n"
        elif k == "bathy":
            nx, ny = rng.randint(2, 5), rng.randint(2, 5)
            xs = sorted(rng.uniform(-80, 80) for _ in range(nx)); ys = sorted(rng.uniform(-80, 80) for _ in range(ny))
            dep = [[-H * rng.uniform(0.8, 1.0) for _ in ys] for _ in xs]
            m.opts["SeafloorFile"] = "bathy.txt"
            m.bathy = (xs, ys, dep)
            for p in m.points:
                if deck.ptype(p["att"]) == "FIXED" and deck.attbody(p["att"]) is None: p["r"][2] = bilinear(m.bathy, *p["r"][:2]) + 0.02
            m.files["bathy.txt"] = "%d %d\n%s\n%s\n" % (nx, ny, " ".join(map(repr, xs)), " ".join(map(repr, ys))) + "".join(
                "%r %r %r\n" % (xs[i], ys[j], dep[i][j]) for i in range(nx) for j in range(ny))
    return m

WATERS = ["still", "current", "airy", "bathy", "current+airy", "current+bathy", "airy+bathy", "still"]

def euler_run(ctx, m, mot, dt, n, rng, pre=(), mid=None, flavor="plain", timeout=120):
    # one internal step per call: the step given by the caller when it is not longer than the deck's
    m.opts["dtM"] = dt * rng.choice([1, 1, 1.7, 6.0]); m.opts["tScheme"] = "Euler"; m.opts["writeLog"] = 0; m.opts["disableOutput"] = 1
    with vp.Scratch() as d:
        r = vp.execute(ctx.exe(flavor), m.deck(), trace.euler_script(m, mot, dt, n, pre=pre, mid=mid), d, timeout)
    return r

def buried(m):
    """A deck is refused when line ends start below the bed."""
    if not getattr(m, "bathy", None): return False
    P = [p["r"] for p in m.points] + [r["a"] for r in m.rods] + [r["b"] for r in m.rods]
    lo = min(min(c) for c in m.bathy[2])
    hi = max(max(c) for c in m.bathy[2])
    return any(p[2] < hi + 10 for p in P)

def usable(run, out, m=None):
    b = run.bad()
    if b: out.v("abnormal-end", b, run); return False
    if not run.of("create")[0]["ok"]: out.v("deck-refused", "valid generated deck was refused", run); return False
    i = (run.of("init") + run.of("initnoic"))[0]
    if i["rc"] == -4 and i["c"] == "init":      # explicit relaxation of a stiff random system diverged, and said so
        out.stat("initial conditions diverged"); return False
    if i["rc"] and m is not None and buried(m): out.stat("refused: starts below the bed"); return False
    if i["rc"]: out.v("init-failed", "initialisation of a valid deck failed with %d" % i["rc"], run); return False
    if not out["samples"]: out["samples"].append({"deck": next(iter(v for k, v in run.files.items() if k.endswith(".txt") and "LINES" in v), "")[:3000], "calls": [l[:200] for l in run.script[:4]], "n_calls": len(run.script)})
    return True
