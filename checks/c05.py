"""C05: point force balance and motion."""
import numpy as np
import vp, deck, trace, ref, phys
from trace import A, close
from deck import ptype, attbody

def ends_of_point(m, j, D):
    out = []
    for i, l in enumerate(m.lines):
        for e, n in (("A", 0), ("B", -1)):
            k, jj, _ = trace.end_of(l[e])
            if k == "P" and jj == j: out.append((A(D["lines"][i]["F"][n]), A(D["lines"][i]["M"][n]).reshape(3, 3)))
    return out

def hub(rng, m):
    """extra lines onto existing points, so that points carry several line ends"""
    pts = [i for i, p in enumerate(m.points)]
    for _ in range(rng.randint(0, 3)):
        i = rng.choice(pts)
        a, b = str(i + 1), m.lines[rng.randrange(len(m.lines))][rng.choice("AB")]
        if a == b: continue
        if rng.random() < .5: a, b = b, a
        m.line(rng.choice(m.ltypes)["name"], a, b, rng.uniform(20, 150), rng.randint(1, 6))

def judge(m, env, p, out, run, kind, skip=()):
    """every point of one recorded evaluation"""
    for j, P in enumerate(m.points):
        if j in skip: continue
        E, D = p.E["points"][j], p.D["points"][j]; w = A(p.wk["P"][j]); ends = ends_of_point(m, j, p.D)
        F, M = ref.point_rhs(P, env, A(E["vel"]), w[:3], ends)
        sc = sum(np.linalg.norm(f) for f, _ in ends) + np.linalg.norm(F) + 1e-3
        tag = "point %d (%s) step %d" % (j + 1, P["att"], p.k)
        def cmp(key, got, want, at, rt=1e-8):
            ok, e = close(got, want, rt, at); out.mx(key, e * rt); out.ob(1)
            if not ok: out.v("point-" + key, "%s: %s observed %s, model %s" % (tag, key, np.array2string(A(got), precision=9), np.array2string(A(want), precision=9)), run)
        cmp("force", D["F"], F, 1e-9 * sc)
        cmp("mass", A(D["M"]).reshape(3, 3), M, 1e-9 * np.abs(M).max())
        if ptype(P["att"]) == "FREE":
            a = np.linalg.solve(A(D["M"]).reshape(3, 3), A(D["F"])); S = p.S["points"][j]
            v1 = A(S["vel"]) + p.dt * a
            cmp("velocity", D["vel"], v1, 1e-9 * (1 + np.abs(v1).max()))
            cmp("position", D["pos"], A(S["pos"]) + p.dt * A(S["vel"]), 1e-10 * (1 + np.abs(A(S["pos"])).max()))
        # attached lines as the library lists them
        want = sorted((i + 1, e) for i, l in enumerate(m.lines) for e, n in (("A", 0), ("B", 1)) if trace.end_of(l[e])[:2] == ("P", j))
        got = sorted((a, b) for a, b in D["att"])
        if [a for a, _ in want] != [a for a, _ in got]: out.v("point-attached", "%s: attached lines reported %s, deck %s" % (tag, got, want), run)
        out.ob(1, "%s|%s|%d ends|%s%s" % (kind, deck.up(P["att"])[:4], min(len(ends), 4), "m" if P["m"] else "", "V" if P["V"] else ""))

def case(ctx, c):
    out = vp.Out(); rng = ctx.rng(c)
    kind = phys.WATERS[c % len(phys.WATERS)]
    m = deck.rnd_model(rng, zfree=rng.random() < .5, nmax=6, small=True)
    for _ in range(rng.randint(0, 3)):
        m.point("Free", deck.vec_in(rng, (-30, -30, -30), (30, 30, 2)), m=rng.uniform(5, 2000), V=rng.uniform(0, 2), CdA=rng.uniform(0, 5), Ca=rng.uniform(0, 1.5))
    hub(rng, m)
    phys.add_water(m, rng, kind)
    dt = deck.safe_dt(m); n = 10 if ctx.quick else 40
    mot = deck.Motion(rng, m, amp=rng.choice([.5, 3.0]))
    run = phys.euler_run(ctx, m, mot, dt, n, rng)
    if not phys.usable(run, out, m): return out
    env = ref.Env(m)
    for p in trace.pairs(m, run, out=out):
        judge(m, env, p, out, run, kind)
    return out

def run(ctx):
    ctx.exe()
    ctx.map(case, range(1200 if ctx.quick else 20000))
    return ctx.finish()
