"""C07: bodies."""
import math
import numpy as np
import vp, deck, trace, ref, phys
from trace import A, close
from deck import btype, rtype_, attbody, euler
from c06 import rod_eval

def model(rng, c):
    m = deck.rnd_model(rng, zfree=rng.random() < .4, nmax=5, small=c % 3 != 0)
    if not m.bodies or rng.random() < .3:      # a body hanging on lines of its own
        H = m.opts["WtrDpth"]
        pos = deck.vec_in(rng, (-20, -20, -.6 * H), (20, 20, -6)); ang = [rng.uniform(-60, 60) for _ in range(3)]; M = 10 ** rng.uniform(3, 4.5)
        b = m.body(rng.choice(["Free", "free", "CpldPin", "Coupled"]), pos + ang, M=M, CG=deck.vec_in(rng, (-1, -1, -1), (1, 1, 1)), I=[M * rng.uniform(1, 5) for _ in range(3)],
                   V=M / 1025 * rng.uniform(.3, 1.5), CdA=[rng.uniform(0, 4) for _ in range(3)] + [rng.uniform(0, 20) for _ in range(3)], Ca=[rng.uniform(0, 1) for _ in range(3)])
        R = euler(np.radians(ang))
        for _ in range(rng.randint(1, 3)):
            rel = deck.vec_in(rng, (-4, -4, -4), (4, 4, 4)); p = m.point("Body%d" % b, rel, m=rng.choice([0, rng.uniform(1, 200)]), V=rng.choice([0, rng.uniform(0, .3)]), CdA=rng.uniform(0, 1), Ca=rng.uniform(0, 1))
            g = np.array(pos) + R @ np.array(rel)
            a = g + 30 * deck.unit(rng); a[2] = max(a[2], -H)
            f = m.point("Fixed", list(a)); m.line(m.ltypes[0]["name"], str(f), str(p), float(np.linalg.norm(a - g)) * rng.uniform(.98, 1.2), rng.randint(2, 5))
    return m

def body_eval(m, k, env, p):
    b = m.bodies[k]; E = p.E["bodies"][k]
    B = ref.Body(b, env); R = euler(A(E["ang"])); pos = A(E["pos"]); v6 = np.concatenate([A(E["vel"]), A(E["om"])]); w = v6[3:]
    con = []; pinned = False; margin = 1e9
    for j, P in enumerate(m.points):
        if attbody(P["att"]) == k + 1:
            D = p.D["points"][j]; con.append(ref.point_on(A(p.E["points"][j]["pos"]), A(D["F"]), A(D["M"]).reshape(3, 3), pos, w))
    for j, r in enumerate(m.rods):
        if attbody(r["att"]) == k + 1:
            Rd, o = rod_eval(m, j, env, p); margin = min(margin, o["margin"])
            con.append(ref.rod_on(Rd, o, pos, w)); pinned |= rtype_(r["att"]) == "PINNED"
    return ref.body_rhs(B, env, R, pos, v6, A(p.wk["B"][k])[:3], con) + (R, pinned, margin)

def case(ctx, c):
    out = vp.Out(); rng = ctx.rng(c)
    kind = phys.WATERS[c % len(phys.WATERS)]
    m = model(rng, c)
    phys.add_water(m, rng, kind)
    dt = deck.safe_dt(m); n = 10 if ctx.quick else 40
    mot = deck.Motion(rng, m, amp=rng.choice([.5, 3.0]))
    run = phys.euler_run(ctx, m, mot, dt, n, rng)
    if not phys.usable(run, out, m): return out
    env = ref.Env(m)
    for p in trace.pairs(m, run, out=out):
        for k, b in enumerate(m.bodies):
            S, D = p.S["bodies"][k], p.D["bodies"][k]; t = btype(b["att"])
            F, M, R, pinned, margin = body_eval(m, k, env, p)
            tag = "body %d (%s) step %d" % (k + 1, b["att"], p.k)
            def cmp(key, got, want, at, rt=1e-7):
                ok, e = close(got, want, rt, at); out.mx(key, e * rt); out.ob(1)
                if not ok: out.v("body-" + key, "%s: %s observed %s, model %s" % (tag, key, np.array2string(A(got), precision=9), np.array2string(A(want), precision=9)), run)
            Mo = A(D["M"]).reshape(6, 6); Fo = A(D["F"])
            n_ = slice(0, 3) if pinned else slice(0, 6)
            sc = np.abs(F).max() + 1
            if margin > 1e-9:
                cmp("mass", Mo[n_, n_], M[n_, n_], 1e-9 * np.abs(M).max())
                if t in ("FREE", "FIXED"): cmp("force", Fo[n_], F[n_], 1e-8 * sc)       # driven bodies: C08
            out.ob(1, "%s|%s|%d rods %d points" % (kind, t, sum(attbody(r["att"]) == k + 1 for r in m.rods), min(3, sum(attbody(q["att"]) == k + 1 for q in m.points))))
            # reported pose is consistent
            cmp("pose", list(D["pos"]) + list(D["ang"]) + list(D["vel"]) + list(D["om"]), list(D["r"]) + list(D["rd"]), 1e-12)
            if t == "FREE":
                a = np.linalg.solve(Mo, Fo); s = 1 + np.abs(p.dt * a).max()
                cmp("velocity", D["vel"], A(S["vel"]) + p.dt * a[:3], 1e-9 * s)
                cmp("spin", D["om"], A(S["om"]) + p.dt * a[3:], 1e-9 * s)
                cmp("position", D["pos"], A(S["pos"]) + p.dt * A(S["vel"]), 1e-9)
            elif t == "CPLDPIN" and not pinned and margin > 1e-9:
                a0 = (p.xd_of(k) - A(S["vel"])) / p.dt
                al = np.linalg.solve(Mo[3:, 3:], F[3:] - Mo[3:, :3] @ a0)
                cmp("spin", D["om"], A(S["om"]) + p.dt * al, 1e-8 * (1 + np.abs(p.dt * al).max()))
            if t in ("FREE", "CPLDPIN"):
                q = ref.mat2q(euler(A(S["ang"]))); q = q + p.dt * ref.qdot(q, A(S["om"]))
                cmp("orientation", euler(A(D["ang"])), ref.qmat(q), 2e-7)
    return out

def run(ctx):
    ctx.exe()
    ctx.map(case, range(1200 if ctx.quick else 20000))
    return ctx.finish()
