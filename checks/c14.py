"""C14/C15: water kinematics queried over space and time against the reference."""
import math
import numpy as np
import vp, deck, water, phys, felt
from trace import A

def model(rng):
    m = deck.Model(); H = rng.choice([12.0, 30.0, 60.0, 200.0])
    g, rho = rng.choice([(9.80665, 1025.0), (9.81, 1000.0)])
    m.opts.update(g=g, WtrDnsty=rho, WtrDpth=H, dtM=.5, kb=1e5, cb=1e4, writeLog=0, disableOutput=1, tScheme=rng.choice(["Euler", "RK2", "rk4"]))
    m.point("Fixed", [0.0, 0.0, -1.0])
    avg = -H; bathy = None
    if rng.random() < .3:
        xs = sorted(round(rng.uniform(-80, 80)) for _ in range(rng.randint(2, 4))); ys = sorted(round(rng.uniform(-80, 80)) for _ in range(rng.randint(2, 4)))
        if len(set(xs)) == len(xs) and len(set(ys)) == len(ys):
            d = [[round(-64 * H * rng.uniform(.75, 1.25)) / 64 for _ in ys] for _ in xs]; bathy = (xs, ys, d); avg = float(np.mean(d)); m.opts["SeafloorFile"] = "bathy.txt"
            m.files["bathy.txt"] = "%d %d\n%s\n%s\n" % (len(xs), len(ys), " ".join(map(repr, xs)), " ".join(map(repr, ys))) + "".join("%r %r %r\n" % (x, y, d[i][j]) for i, x in enumerate(xs) for j, y in enumerate(ys))
    return m, g, rho, H, avg, bathy

def places(rng, W, C, H, bot):
    P = []
    for _ in range(10):
        x, y = rng.uniform(-90, 90), rng.uniform(-90, 90)
        if rng.random() < .25: x = y = 0.0
        if isinstance(W, water.Grid) and rng.random() < .3: x, y = rng.choice(W.ax[0]), rng.choice(W.ax[1])
        if C and rng.random() < .3: x, y = rng.choice(C.ax[0]), rng.choice(C.ax[1])
        b = bot(x, y); z = rng.choice([rng.uniform(b, 0), rng.uniform(b, 4), 0.0, b, rng.uniform(-.3, .3), rng.uniform(-5, 0)])
        if C and rng.random() < .2: z = rng.choice(C.ax[2])
        P.append((x, y, max(z, b)))
    return P

def kin_case(ctx, c, wave=None, cur=None, unify=None):
    out = vp.Out(); rng = ctx.rng(c); m, g, rho, H, avg, bathy = model(rng)
    h = float(np.float32(-avg)) if bathy else H
    W = water.add_waves(m, rng, wave, g, rho, -avg) if wave else None
    C = water.add_current(m, rng, cur, H) if cur else None
    if unify is not None: m.opts["UnifyCurrentGrid"] = unify
    uni = isinstance(W, water.Grid) and C and unify in (None, 1)
    if uni:
        for i, x in enumerate(W.ax[0]):
            for j, y in enumerate(W.ax[1]):
                for k, z in enumerate(W.ax[2]):
                    for l in range(W.nt): W.U[i, j, k, l] += C((x, y, z) if cur == 5 else (0, 0, z), l * W.dt)
    bot = (lambda x, y: phys.bilinear(bathy, x, y)) if bathy else (lambda x, y: -H)
    T, plan = 0.0, []
    for _ in range(8 if ctx.quick else 25):
        dt = rng.choice([rng.uniform(.01, .5), rng.uniform(.5, 3), rng.uniform(3, 30)])
        if isinstance(W, water.Grid) and rng.random() < .3: dt = (math.floor(T / W.dt) + rng.randint(1, 5)) * W.dt - T      # exactly on a sample
        if C and len(C.ax[3]) > 1 and rng.random() < .3 and any(q > T for q in C.ax[3]): dt = rng.choice([q for q in C.ax[3] if q > T]) - T
        plan.append(dt); T += dt
    s = ["create a m.txt", "initnoic a 0", ]; t = 0.0; Q = []
    for dt in [0] + plan:
        if dt: s.append("step a %r %r 0" % (t, dt)); t += dt
        for p in places(rng, W, C, H, bot): s.append("wave a %r %r %r %d" % (*p, 1 if bathy else 0)); Q.append((t, p))
    s.append("close a"); m.opts["dtM"] = 3.0
    with vp.Scratch() as d: run = vp.execute(ctx.exe(), m.deck(), s, d, 120)
    if not phys.usable(run, out, m): return out
    rs = run.of("wave"); ts = 0.0
    if any(r["rc"] for r in run.of("step")): out.v("step-failed", "a step of a motionless system failed", run); return out
    for (t, p), r in zip(Q, rs):
        b = bot(*p[:2])
        if W:
            k = W.kin(p, t, b, avg)
            if k is None: out.stat("last interval of the period"); continue
            z, U, Ud, pd = k
            sc = (float(np.abs(W.U).max()), float(np.abs(W.Ud).max()), float(np.abs(W.zeta).max()), float(np.abs(W.pd).max())) if isinstance(W, water.Grid) else (sum(c_[0] * c_[1] * 1.5 for c_ in W.c) + 1e-3, sum(c_[0] ** 2 * c_[1] * 1.5 for c_ in W.c) + 1e-3, sum(c_[1] for c_ in W.c) + 1e-3, 1.0)
        else: z, U, Ud, pd, sc = 0.0, np.zeros(3), np.zeros(3), 0.0, (1, 1, 1, 1)
        if C and not uni: U = U + C(p, t); sc = (sc[0] + 2,) + sc[1:]
        out.ob(1)
        for name, want, got, q in (("velocity", U, A(r["U"]), sc[0]), ("acceleration", Ud, A(r["Ud"]), sc[1]), ("elevation", A([z]), A([r["zeta"]]), sc[2]), ("pressure", A([pd]), A([r["pd"]]), sc[3])):
            e = np.abs(got - want).max() / (q + 1e-6); out.mx(name, e)
            if not e <= 3e-5: out.v(name + ("-unified" if uni else ""), "WaveKin=%s Currents=%s: %s at %s, t=%r: reported %s, expected %s" % (wave, cur, name, p, t, got.tolist(), want.tolist()), run)
    kind = "%s/%s/%s|%s" % (wave, cur, unify, "bathy" if bathy else "flat")
    if isinstance(W, water.Grid): kind += "|%dx%dx%dx%d" % (*[len(a) for a in W.ax], min(W.nt // 16, 4))
    if C: kind += "|" + "x".join(str(len(a)) for a in C.ax)
    out.ob(0, kind); return out

def num_case(ctx, c):
    out = vp.Out(); rng = ctx.rng(c); s = []
    for _ in range(200):
        h = 10 ** rng.uniform(-1, 4); g = rng.choice([9.81, 9.80665, 1.6]); w = 10 ** rng.uniform(-2, 1.5)
        s.append("wavenum %r %r %r" % (w, g, h))
    s.append("wavenum 0 9.81 30")
    with vp.Scratch() as d: run = vp.execute(ctx.exe(), {}, s, d, 60)
    if run.bad(): out.v("abnormal-end", run.bad(), run); return out
    for r in run.of("wavenum"):
        k = water.dispersion(r["o"], r["g"], r["h"]); e = abs(r["k"] - k) / (k or 1); out.ob(1, "dispersion|%d" % math.floor(math.log10(r["h"] * (k or 1e-9)))); out.mx("wave number", e)
        if not e <= 2e-6: out.v("dispersion", "wave number of w=%(o)r g=%(g)r h=%(h)r is %(k)r" % r + ", dispersion relation gives %r" % k, run)
    return out

def case(ctx, c):
    if c[0] == "n": return num_case(ctx, c)
    if c[0] == "f": return felt.water_case(ctx, c, wave=(7, 2, 3)[c[1] % 3])
    return kin_case(ctx, c, wave=(7, 2, 3)[c[1] % 3])

def run(ctx):
    ctx.exe(); n = 360 if ctx.quick else 6000
    ctx.map(case, [("n", k) for k in range(10 if ctx.quick else 100)] + [("w", k) for k in range(n)] + [("f", k) for k in range(300 if ctx.quick else 4000)])
    return ctx.finish()
