"""C16: externally supplied water kinematics."""
import math
import numpy as np
import vp, deck, trace, ref, phys, felt, water
from trace import A

def sizes(m): return sum(l["N"] + 1 for l in m.lines) + sum(r["N"] + 1 for r in m.rods) + len(m.points) + len(m.bodies) + 1       # the ground is one

def case(ctx, c):
    out = vp.Out(); rng = ctx.rng(c)
    m = deck.rnd_model(rng, zfree=rng.random() < .5, nmax=5, small=rng.random() < .6)
    cur = rng.choice([None, None, 1, 2, 5]); H = m.opts["WtrDpth"]
    m.opts["WaveKin"] = 1
    if cur: water.add_current(m, rng, cur, H)
    n = sizes(m); dt = deck.safe_dt(m); steps = 10 if ctx.quick else 30; mot = deck.Motion(rng, m, amp=rng.choice([.5, 3.0]))
    val = {}; mid = {}; last = None; start = rng.choice([0, 0, 2])
    for k in range(steps):
        s = ["ewn a", "ewcoords a %d" % n]
        if k == 0: s = ["ewinit a"] + s
        if k >= start and (k == start or rng.random() < .6):
            for rep in range(rng.choice([1, 1, 2])):        # the last set wins
                sc = rng.choice([.5, 3.0])
                if rng.random() < .3:       # one node only
                    U, Ud = np.zeros((n, 3)), np.zeros((n, 3)); q = rng.randrange(n); U[q] = [rng.uniform(-sc, sc) for _ in range(3)]; Ud[q] = [rng.uniform(-sc, sc) for _ in range(3)]
                else: U, Ud = (A([[rng.uniform(-sc, sc) for _ in range(3)] for _ in range(n)]) for _ in range(2))
                s.append("ewset a %r %d %s %s" % (rng.choice([k * dt, 0.0, (k + 1) * dt]), n, deck.fmt(U.ravel()), deck.fmt(Ud.ravel())))
            last = (U, Ud)
        mid[k] = s; val[k] = last
    run = phys.euler_run(ctx, m, mot, dt, steps, rng, mid=mid)
    if not phys.usable(run, out, m): return out
    for r in run.of("ewinit") + run.of("ewn"):
        out.ob(1)
        if r["rc"] or r["n"] != n: out.v("number", "%s: %s sampling points advertised, the system has %d nodes (rc %d)" % (r["c"], r["n"], n, r["rc"]), run)
    dumps = run.of("dump")
    sane = [trace.speed(d) < trace.VMAX for d in dumps]; bad = sane.index(False) if False in sane else 1e9
    for r in run.of("ewset") + [r for k, r in enumerate(run.of("ewcoords")) if k < bad]:
        if (r["rc"] and bad == 1e9) or r.get("over"): out.v("call-failed", "%s: rc %d, %s entries written beyond the array" % (r["c"], r["rc"], r.get("over")), run)
    for k, r in enumerate(run.of("ewcoords")):
        if k >= bad: break
        want = A([z[3] for z in felt.order(dumps[k])]); got = A(r["r"]).reshape(-1, 3); out.ob(1)
        if got.shape != want.shape or not np.array_equal(got, want):
            if trace.speed(dumps[k]) < trace.VMAX: out.v("coordinates", "step %d: sampling points are not the node positions (largest difference %s)" % (k, np.abs(got - want).max() if got.shape == want.shape else "shape"), run)
    def expect(p):
        U, Ud = val[p.k] if val[p.k] is not None else (np.zeros((n, 3)),) * 2
        w = {q: [list(map(list, o)) if q in "LR" else list(o) for o in p.wk[q]] for q in "LRPB"}
        for (kd, i, k, _), u, ud in zip(felt.order(p.E), U, Ud):
            if kd == "G": continue
            o = w[kd][i] if k is None else w[kd][i][k]
            for a in range(3): o[a] += u[a]; o[3 + a] += ud[a]
        return w
    felt.judge(m, run, out, expect, "%s|%s" % (cur, "late" if start else "")); return out

def sub_case(ctx, c):
    """What is set holds over the internal steps of any scheme: one long call equals several short ones."""
    out = vp.Out(); rng = ctx.rng(c)
    m = deck.rnd_model(rng, zfree=rng.random() < .5, nmax=4, small=True); m.opts["WaveKin"] = 1
    cur = rng.choice([None, 1]); H = m.opts["WtrDpth"]
    if cur: water.add_current(m, rng, cur, H)
    n = sizes(m); q = 2.0 ** -20; h = math.floor(deck.safe_dt(m, .1) / q) * q; k = rng.choice([2, 3, 4]); x = A(m.x0()); z = np.zeros(len(x))
    m.opts.update(dtM=h, tScheme=rng.choice(["Euler", "RK2", "rk4"]), writeLog=0, disableOutput=1)
    sets = [["ewset a 0 %d %s" % (n, deck.fmt([rng.uniform(-2, 2) for _ in range(6 * n)]))] if not i or rng.random() < .6 else [] for i in range(4)]
    R = []
    for split in (1, k):
        s = ["create a m.txt", deck.init_cmd("a", x, z), "ewinit a"]; t = 0.0
        for S in sets:
            s += S
            for _ in range(split): d = h * k / split; s.append(deck.step_cmd("a", t, d, x, z)); t += d
            s.append("dump a")
        with vp.Scratch() as d: run = vp.execute(ctx.exe(), m.deck(), s + ["close a"], d, 60)
        if not phys.usable(run, out, m): return out
        R.append(run)
    for i, (a, b) in enumerate(zip(R[0].of("dump"), R[1].of("dump"))):
        if trace.speed(a) > 50: break
        out.ob(1, "hold|%s|%s" % (m.opts["tScheme"], cur))
        for kd in ("lines", "points", "rods", "bodies"):
            for j, (o, w) in enumerate(zip(a[kd], b[kd])):
                e = np.abs(A(o["pos"]) - A(w["pos"])).max() + np.abs(A(o["vel"]) - A(w["vel"])).max()
                if not e <= 1e-6 * (1 + np.abs(A(o["vel"])).max()): out.v("hold", "after set %d, %s %d: one call of %d internal steps and %d calls differ by %g" % (i, kd, j + 1, k, k, e), R[0]); return out
    return out

def any_case(ctx, c): return case(ctx, c) if c[0] == "e" else sub_case(ctx, c)

def run(ctx):
    ctx.exe(); a, b = (500, 200) if ctx.quick else (8000, 3000)
    ctx.map(any_case, [("e", k) for k in range(a)] + [("h", k) for k in range(b)])
    return ctx.finish()
