"""C17: seabed depth and contact."""
import math
import numpy as np
import vp, deck, trace, ref, phys, felt
from trace import A
import c04

def grid(rng, H):
    def ticks(n): return sorted(rng.sample(range(-640, 641), n))
    nx, ny = rng.choice([1, 2, 2, 3, 5, 7]), rng.choice([1, 2, 2, 3, 5, 7])
    xs, ys = [q / 8 for q in ticks(nx)], [q / 8 for q in ticks(ny)]
    d = [[-round(H * rng.uniform(.6, 1.2) * 16) / 16 for _ in ys] for _ in xs]
    rows = ["%r %r %r\n" % (x, y, d[i][j]) for i, x in enumerate(xs) for j, y in enumerate(ys)]
    k = rng.choice(["xy", "yx", "shuffle"])
    if k == "yx": rows = ["%r %r %r\n" % (x, y, d[i][j]) for j, y in enumerate(ys) for i, x in enumerate(xs)]
    elif k == "shuffle": rng.shuffle(rows)
    return xs, ys, d, "%d %d\n%s\n%s\n" % (nx, ny, " ".join(map(repr, xs)), " ".join(map(repr, ys))) + "".join(rows), "%dx%d|%s" % (min(nx, 3), min(ny, 3), k)

def depth(b, x, y):
    """bilinear, nearest edge beyond the grid; dyadic grids: exact in single precision"""
    def loc(v, t):
        if len(v) == 1 or t <= v[0]: return 0, 0, 0.0
        if t >= v[-1]: return len(v) - 1, len(v) - 1, 0.0
        i = max(k for k in range(len(v) - 1) if v[k] <= t); return i, i + 1, (t - v[i]) / (v[i + 1] - v[i])
    (i, I, f), (j, J, g) = loc(b[0], x), loc(b[1], y); d = b[2]
    return (d[i][j] * (1 - f) + d[I][j] * f) * (1 - g) + (d[i][J] * (1 - f) + d[I][J] * f) * g

def query_case(ctx, c):
    out = vp.Out(); rng = ctx.rng(c); m = deck.Model(); H = rng.uniform(20, 200)
    m.opts.update(WtrDpth=H, dtM=.1, kb=1e5, cb=1e4, writeLog=0, disableOutput=1); m.point("Fixed", [0.0, 0.0, -1.0])
    xs, ys, d, txt, kind = grid(rng, H); m.opts["SeafloorFile"] = "bed.txt"; m.files["bed.txt"] = txt; P = []
    for _ in range(120):
        def one(v):
            k = rng.random(); a = rng.choice(v)
            if k < .2: return a
            if k < .35: return a + rng.choice([-1, 1]) * 10 ** rng.uniform(-12, -3)
            if k < .5: return rng.choice([v[0] - 10 ** rng.uniform(-3, 4), v[-1] + 10 ** rng.uniform(-3, 4)])
            return rng.uniform(v[0], v[-1])
        P.append((one(xs), one(ys)))
    s = ["create a m.txt"] + (["initnoic a 0"] if rng.random() < .7 else []) + ["depth a %r %r" % p for p in P] + ["sfstat a", "close a"]
    with vp.Scratch() as w: run = vp.execute(ctx.exe(), m.deck(), s, w, 60)
    if run.bad(): out.v("abnormal-end", run.bad(), run); return out
    if not run.of("create")[0]["ok"]: out.v("deck-refused", "valid bathymetry refused", run); return out
    for r in run.of("depth"):
        want = depth((xs, ys, d), r["x"], r["y"]); out.ob(1, "depth|%s|%s%s" % (kind, "i" if xs[0] <= r["x"] <= xs[-1] else "o", "i" if ys[0] <= r["y"] <= ys[-1] else "o"))
        e = abs(r["d"] - want); out.mx("depth", e)
        if r["rc"] or not e <= 1e-9 * H: out.v("depth", "seabed at (%(x)r, %(y)r) reported %(d)r (rc %(rc)d), " % r + "interpolated %r" % want, run)
    r = run.of("sfstat")[0]; avg, mn = float(np.mean(d)), float(np.max(d)); out.ob(1)
    if not r["sf"] or abs(r["avg"] - avg) > 1e-9 * H: out.v("average-depth", "average depth %r, expected %r" % (r["avg"], avg), run)
    if r["min"] != mn: out.v("min-depth", "shallowest point %r, expected %r" % (r["min"], mn), run)
    return out

def lying(rng, H, bed):
    """lines laid on and above the bed between points near it, rods near it"""
    m = deck.Model(); deck.rnd_env(rng, m, H); lt = deck.rnd_ltype(rng, m, "lt"); t = m.ltypes[0]; t["w"] = max(t["w"], 1025 * math.pi * t["d"] ** 2 / 4 * 1.5); t["EA"] = min(t["EA"], 3e5)
    z = lambda x, y: bed(x, y)
    for k in range(rng.randint(1, 2)):
        a = deck.vec_in(rng, (-60, -60, 0), (60, 60, 0)); b = deck.vec_in(rng, (-60, -60, 0), (60, 60, 0))
        a[2] = z(a[0], a[1]) + rng.choice([.02, 1.0]); b[2] = z(b[0], b[1]) + rng.choice([.02, 1.0, 15.0])
        ka, kb = rng.choice(["Fixed", "Coupled"]), rng.choice(["Fixed", "Coupled", "Free"])
        pa = m.point(ka, a); pb = m.point(kb, b, m=rng.uniform(10, 100) if kb == "Free" else 0.0, V=.05, CdA=1.0, Ca=1.0)
        m.line("lt", str(pa), str(pb), float(np.linalg.norm(A(a) - A(b))) * rng.uniform(1.02, 1.4) + 2, rng.randint(3, 9))
    if rng.random() < .7:
        deck.rnd_rtype(rng, m, "rt"); a = deck.vec_in(rng, (-60, -60, 0), (60, 60, 0)); q = deck.unit(rng); q[2] *= .05; q /= np.linalg.norm(q); L = rng.uniform(2, 12)
        a[2] = z(a[0], a[1]) + rng.choice([.3, -.1, .05]); m.rod("rt", rng.choice(["Free", "Free", "Pinned", "Fixed"]), a, list(A(a) + L * q), rng.randint(2, 6))
    return m

def contact_case(ctx, c):
    out = vp.Out(); rng = ctx.rng(c); H = math.ceil(rng.uniform(30, 90)) * 1.0; flat = c[1] % 4 == 0
    if flat: bed = lambda x, y: -H; kind = "flat"
    else:
        xs, ys, d, txt, kind = grid(rng, H); bed = lambda x, y: depth((xs, ys, d), x, y)
    m = lying(rng, H, bed)
    if not flat: m.opts["SeafloorFile"] = "bed.txt"; m.files["bed.txt"] = txt; m.bathy = (xs, ys, d)
    dt = deck.safe_dt(m, .1, .01)
    for r in m.rods: dt = min(dt, .004)
    n = 25 if ctx.quick else 80; mot = deck.Motion(rng, m, amp=rng.choice([.2, 1.0]))
    run = phys.euler_run(ctx, m, mot, dt, n, rng)
    b = run.bad()
    if b: out.v("abnormal-end", b, run); return out
    if not phys.usable(run, out, m): return out
    hit = [0]
    def expect(p):
        w = felt.field(lambda r: [0.0] * 8 + [bed(r[0], r[1])])(p.E); hit[0] += sum(np.abs(A(l["B"])).max() > 0 for l in p.D["lines"])
        return w
    felt.judge(m, run, out, expect, "bed", pre="contact")
    out.ob(0, "contact|%s|%s|%s" % (kind, "touching" if hit[0] else "clear", "friction" if m.opts.get("FrictionCoefficient") else ""))
    return out

def case(ctx, c): return query_case(ctx, c) if c[0] == "q" else contact_case(ctx, c)
def run(ctx):
    ctx.exe(); a, b = (300, 500) if ctx.quick else (4000, 8000)
    ctx.map(case, [("q", k) for k in range(a)] + [("c", k) for k in range(b)])
    return ctx.finish()
