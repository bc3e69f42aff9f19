"""C04: line node forces and motion."""
import math
import numpy as np
import vp, deck, trace, ref, phys
from trace import A, close

def check_line(m, i, L, env, p, out, run, UL=None, curv=True):
    E, D, w = p.E["lines"][i], p.D["lines"][i], A(p.wk["L"][i])
    N = E["N"]
    deps = np.where(np.isnan(w[:, 8]), -env.H, w[:, 8])
    r, v = A(E["pos"]), A(E["vel"])
    env.depth = lambda x, y, _d={(a[0], a[1]): b for a, b in zip(r, deps)}: _d[(x, y)]
    qA, qB = trace.line_q(m, i, p.E)
    o = ref.line_rhs(L, env, r, v, w[:, :3], w[:, 3:6], w[:, 6], w[:, 7], qA if not isinstance(qA, str) else np.zeros(3), qB if not isinstance(qB, str) else np.zeros(3), UL)
    tag = "line %d step %d" % (i + 1, p.k)
    scale = np.abs(o["W"]).max() + np.abs(o["T"]).max() + np.abs(o["D"]).max() + np.abs(o["B"]).max() + np.abs(o["Bs"]).max() + 1e-6
    def cmp(key, got, want, at, rt=1e-7):
        ok, e = close(got, want, rt, at); out.mx(key, e * rt)
        out.ob(1)
        if not ok: out.v("line-" + key, "%s: %s observed %s, model %s" % (tag, key, np.array2string(A(got), precision=9), np.array2string(A(want), precision=9)), run)
    cmp("mass", A(D["M"]).reshape(N + 1, 3, 3), o["M"], 1e-9 * np.abs(o["M"]).max())
    cmp("weight", D["W"], o["W"], 1e-9 * scale)
    cmp("drag", D["D"], o["D"], 1e-9 * scale)
    cmp("fluid-inertia", D["A"], o["A"], 1e-9 * scale)
    if not o["fric_edge"]: cmp("seabed", D["B"], o["B"], 1e-8 * scale)
    cmp("tension", D["T"], o["T"], 1e-8 * scale)
    # curvature is 4/l sqrt((1-c)/2) with c -> 1: a rounding of c is worth 1e-8 of sqrt
    ktol = 4 / o["ls"].min() * 4e-8
    EImax = 0 if not L.hasEI else L.EI if L.EI is not None else max(y / max(x, 1e-9) for x, y in zip(*L.tab["EI"]) if x > 0)
    btol = EImax * ktol * 4 / o["ls"].min(); ptol = L.A * L.UL / N * (np.abs(L.pin).max() + env.rho * env.g * 200) * ktol if L.pb else 0
    cmp("bending", D["Bs"], o["Bs"], 1e-7 * scale + btol, 1e-6)
    if curv: cmp("curvature", D["curv"], o["curv"], ktol, 1e-6)
    if not o["fric_edge"]: cmp("net-force", D["F"], o["F"], 2e-8 * scale + btol + ptol)
    # motion of internal nodes over the step, from the *observed* forces and masses
    if N > 1:
        a = np.array([np.linalg.solve(A(D["M"][k]).reshape(3, 3), A(D["F"][k])) for k in range(1, N)])
        S = p.S["lines"][i]
        v1 = A(S["vel"])[1:-1] + p.dt * a; r1 = A(S["pos"])[1:-1] + p.dt * A(S["vel"])[1:-1]
        cmp("node-velocity", A(D["vel"])[1:-1], v1, 1e-9 + 1e-9 * np.abs(v1).max())
        cmp("node-position", A(D["pos"])[1:-1], r1, 1e-9)
    cmp("fairlead-tension", D["ft"], np.linalg.norm(o["Tseg_vec"][-1]) if "Tseg_vec" in o else np.linalg.norm(o["T"][N]), 1e-8 * scale)
    return o

def shape(o, r, deps):
    t = []
    if (o["sub"] == 0).any(): t.append("dry")
    if ((o["sub"] > 0) & (o["sub"] < 1)).any(): t.append("part")
    if (o["Tseg"] == 0).any(): t.append("slack")
    if (o["Tseg"] > 0).any(): t.append("taut")
    if np.abs(o["B"]).max() > 0: t.append("bed")
    if np.abs(o["Bs"]).max() > 0: t.append("bend")
    if np.abs(o["Pb"]).max() > 0: t.append("press")
    return "+".join(t)

def tables(rng, m):
    """replace some line properties by tables"""
    for t in m.ltypes:
        k = rng.choice(["EA", "BA", "EI", "EA", None])
        if k is None: continue
        n = rng.randint(2, 6)
        if k == "EA":
            xs = [0.0] + sorted(rng.uniform(0.01, 0.4) for _ in range(n)); ys = [0.0]
            for a, b in zip(xs, xs[1:]): ys.append(ys[-1] + (b - a) * 10 ** rng.uniform(5, 6.3))
        elif k == "BA":
            if rng.random() < .5:
                xs = [0.0] + sorted(rng.uniform(0.01, 1) for _ in range(n)); ys = [0.0]
                for a, b in zip(xs, xs[1:]): ys.append(ys[-1] + (b - a) * 10 ** rng.uniform(4, 6))
            else:
                xs = sorted([rng.uniform(-1, -.01) for _ in range(n)]) + [0.0] + sorted(rng.uniform(.01, 1) for _ in range(n))
                ys = sorted(rng.uniform(-3e5, 0) for _ in range(n)) + [0.0] + sorted(rng.uniform(0, 3e5) for _ in range(n))
        else:
            xs = [0.0] + sorted(rng.uniform(0.01, 1) for _ in range(n)); ys = [0.0]
            for a, b in zip(xs, xs[1:]): ys.append(ys[-1] + (b - a) * 10 ** rng.uniform(1, 3.5))
        fn = "tab_%s_%s.dat" % (t["name"], k)
        m.files[fn] = "table\nstrain value\n(-) (-)\n" + "".join("%r %r\n" % z for z in zip(xs, ys))
        t[k] = fn; t[k + "_tab"] = (xs, ys)
        if k == "EA" and t["BA_tab"] is None if "BA_tab" in t else (k == "EA"): t["BA"] = abs(t["BA"]) * 1000 if t["BA"] < 0 else t["BA"]

def case(ctx, c):
    out = vp.Out(); rng = ctx.rng(c)
    kind = phys.WATERS[c % len(phys.WATERS)]
    m = deck.rnd_model(rng, zfree=rng.random() < .5, ei=(None if c % 3 else True), nmax=8, small=True)
    if c % 4 == 1: tables(rng, m)
    if c % 4 == 3:   # start some anchors below / nodes on the bed
        for l in m.lines: l["L"] *= rng.uniform(1.0, 1.4)
    phys.add_water(m, rng, kind)
    dt = deck.safe_dt(m); n = 12 if ctx.quick else 40
    mot = deck.Motion(rng, m, amp=rng.choice([.5, 3.0]))
    pre, pins = [], {}
    if c % 5 == 2:
        for i, l in enumerate(m.lines):
            if rng.random() < .7:
                pv = [rng.uniform(0, 5e6) for _ in range(l["N"] + 1)]; pins[i] = pv
                pre += ["pb a %d 1" % (i + 1), "pint a %d %d %s" % (i + 1, len(pv), deck.fmt(pv))]
    run = phys.euler_run(ctx, m, mot, dt, n, rng, pre=pre)
    if not phys.usable(run, out, m): return out
    env = ref.Env(m)
    Ls = []
    for i, l in enumerate(m.lines):
        L = ref.Line(trace.ltype_of(m, i), l["L"], l["N"])
        if i in pins: L.pb = True; L.pin = A(pins[i])
        Ls.append(L)
    for p in trace.pairs(m, run, out=out):
        for i in range(len(m.lines)):
            o = check_line(m, i, Ls[i], env, p, out, run)
            t = trace.ltype_of(m, i)
            out.ob(0, "%s|%s|N%d|%s|tab%s" % (kind, shape(o, None, None), min(m.lines[i]["N"], 3), "EI" if Ls[i].hasEI else "-", [k for k in ("EA", "BA", "EI") if t.get(k + "_tab")]))
        if len(out["viol"]) >= 8: break
    return out

def run(ctx):
    ctx.exe()
    ctx.map(case, range(1200 if ctx.quick else 20000))
    return ctx.finish()
