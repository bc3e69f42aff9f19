"""C03: kinematic constraints, monitored on every dump of runs with every time scheme."""
import math
import numpy as np
import vp, deck, trace, ref, phys
from trace import A
from deck import btype, rtype_, ptype, attbody, euler
from c08 import model as mixed

SCHEMES = ["Euler", "Heun", "RK2", "RK4", "AB2", "AB3", "AB4", "LEuler", "LHeun", "BEuler3", "BEuler10", "Midpoint4", "ACA5", "Wilson10", "LAB2", "LAB3", "LAB4"]

def constraints(m, D, x, xd, dt, vio, ob, R0):
    """x, xd: motion supplied for the step that led to dump D, dt the time since then"""
    dr = trace.driven(m, x, xd)
    T = 1e-9
    def eq(key, got, want, what, tol=T):
        got, want = A(got), A(want); ob()
        s = tol * (1 + np.abs(want).max())
        if got.shape != want.shape or not (np.abs(got - want) <= s).all(): vio("kin-" + key, "%s: observed %s, constraint %s" % (what, np.array2string(got, precision=12), np.array2string(want, precision=12)))
    bk = {}
    for i, b in enumerate(m.bodies):
        o = D["bodies"][i]; t = btype(b["att"]); w = "body %d (%s)" % (i + 1, b["att"])
        if t in ("COUPLED", "CPLDPIN"):
            X, V = dr["B"][i]
            eq("driven-pos", o["pos"], X[:3] + V[:3] * dt, w); eq("driven-vel", o["vel"], V[:3], w)
            if t == "COUPLED": eq("driven-rot", euler(A(o["ang"])), euler(X[3:] + V[3:] * dt), w, 1e-8); eq("driven-spin", o["om"], V[3:], w)
        elif t == "FIXED":
            eq("fixed-pos", o["pos"], b["r6"][:3], w); eq("fixed-rot", euler(A(o["ang"])), euler(np.radians(b["r6"][3:])), w, 1e-8)
            eq("fixed-vel", o["rd"], np.zeros(6), w)
        bk[i + 1] = (A(o["pos"]), euler(A(o["ang"])), A(o["vel"]), A(o["om"]))
    for i, p in enumerate(m.points):
        o = D["points"][i]; t = ptype(p["att"]); b = attbody(p["att"]); w = "point %d (%s)" % (i + 1, p["att"])
        if b:
            P, R, v, om = bk[b]; rel = R @ A(p["r"])
            eq("mounted-pos", o["pos"], P + rel, w, 1e-8); eq("mounted-vel", o["vel"], v + np.cross(om, A(o["pos"]) - P), w)
        elif t == "COUPLED": X, V = dr["P"][i]; eq("driven-pos", o["pos"], X + V * dt, w); eq("driven-vel", o["vel"], V, w)
        elif t == "FIXED": eq("fixed-pos", o["pos"], p["r"], w); eq("fixed-vel", o["vel"], np.zeros(3), w)
    for i, r in enumerate(m.rods):
        o = D["rods"][i]; t = rtype_(r["att"]); b = attbody(r["att"]); N = r["N"]; w = "rod %d (%s)" % (i + 1, r["att"])
        a, e = A(r["a"]), A(r["b"]); L = np.linalg.norm(e - a); pos, vel = A(o["pos"]), A(o["vel"])
        if N == 0: continue
        f = (np.arange(N + 1) / N)[:, None]
        eq("rod-straight", pos, pos[0] + f * (pos[N] - pos[0]), w); eq("rod-rigid-vel", vel, vel[0] + f * (vel[N] - vel[0]), w, 1e-8)
        eq("rod-length", np.linalg.norm(pos[N] - pos[0]), L, w)
        eq("rod-rigid", (pos[N] - pos[0]) @ (vel[N] - vel[0]) / L, 0.0, w, 1e-7 * (1 + np.abs(vel).max()))
        if b:
            P, R, v, om = bk[b]
            eq("mounted-pos", pos[0], P + R @ a, w, 1e-8); eq("mounted-vel", vel[0], v + np.cross(om, pos[0] - P), w)
            if t == "FIXED": eq("mounted-end", pos[N], P + R @ e, w, 1e-8); eq("mounted-end-vel", vel[N], v + np.cross(om, pos[N] - P), w, 1e-8)
        elif t in ("COUPLED", "CPLDPIN"):
            X, V = dr["R"][i]
            eq("driven-pos", pos[0], X[:3] + V[:3] * dt, w); eq("driven-vel", vel[0], V[:3], w)
            if t == "COUPLED":
                eq("driven-rot", pos[N] - pos[0], euler(X[3:] + V[3:] * dt) @ (e - a), w, 1e-8); eq("driven-spin", vel[N] - vel[0], np.cross(V[3:], pos[N] - pos[0]), w)
        elif t == "FIXED": eq("fixed-pos", pos[[0, N]], [a, e], w); eq("fixed-vel", vel, np.zeros((N + 1, 3)), w)
        elif t == "PINNED": eq("fixed-pos", pos[0], a, w); eq("fixed-vel", vel[0], np.zeros(3), w)
    for i, l in enumerate(m.lines):
        o = D["lines"][i]
        for en, k in (("A", 0), ("B", o["N"])):
            kd, j, re_ = trace.end_of(l[en]); w = "line %d end %s (%s)" % (i + 1, en, l[en])
            if kd == "P": T_ = D["points"][j]; pp, vv = T_["pos"], T_["vel"]
            else: T_ = D["rods"][j]; q = 0 if re_ == "A" else T_["N"]; pp, vv = T_["pos"][q], T_["vel"][q]
            eq("line-end-pos", o["pos"][k], pp, w, 1e-13); eq("line-end-vel", o["vel"][k], vv, w, 1e-13)

def sane(D): return trace.speed(D) < trace.VMAX

def case(ctx, c):
    out = vp.Out(); rng = ctx.rng(c)
    kind = phys.WATERS[c % len(phys.WATERS)]; sch = SCHEMES[c % len(SCHEMES)]
    m = mixed(rng, c); phys.add_water(m, rng, kind)
    if rng.random() < .5:      # several lines and rods on the same ends, lines between mounted objects
        ends = [str(i + 1) for i in range(len(m.points))] + ["R%d%s" % (i + 1, e) for i in range(len(m.rods)) for e in "AB"]
        for _ in range(rng.randint(1, 4)):
            a, b = rng.sample(ends, 2) if len(ends) > 1 else (ends[0], ends[0])
            if a[:2] != b[:2] or a[0] != "R": m.line(m.ltypes[0]["name"], a, b, rng.uniform(30, 90), rng.randint(1, 4))
    dtM = deck.safe_dt(m, 0.1, 0.01)
    m.opts["dtM"] = dtM; m.opts["tScheme"] = sch; m.opts["writeLog"] = 0; m.opts["disableOutput"] = 1
    ic = rng.random() < .25
    if ic: m.opts["TmaxIC"] = rng.choice([1.0, 3.0]); m.opts["dtIC"] = 0.5
    if rng.random() < .5: m.opts["ICgenDynamic"] = rng.choice([0, 1])
    mot = deck.Motion(rng, m, amp=rng.choice([.5, 2.0]), rot=.2)
    s = ["create a m.txt", deck.init_cmd("a", mot.x(0), mot.v(0), ic), "dump a"]
    t = 0.0; plan = [(mot.x(0), mot.v(0), 0.0)]
    x = mot.x(0)
    for k in range(8 if ctx.quick else 30):
        dt = dtM * rng.choice([1, 1, 2, 3.5, 7]); xd = mot.v(t)
        s += [deck.step_cmd("a", t, dt, x, xd), "dump a"]; plan.append((x, xd, dt)); t += dt
        x = x + xd * dt if rng.random() < .9 else mot.x(t)        # mostly continuous motions, now and then a jump
    s.append("close a")
    with vp.Scratch() as d: run = vp.execute(ctx.exe(), m.deck(), s, d, 120)
    if not phys.usable(run, out, m): return out
    dumps = run.of("dump"); steps = run.of("step")
    for k, (D, (x, xd, dt)) in enumerate(zip(dumps, plan)):
        if not sane(D):
            out.stat("runs cut at divergence"); break
        if k and steps[k - 1]["rc"]: out.v("step-failed", "step %d from a sane state failed with %d" % (k, steps[k - 1]["rc"]), run); break
        constraints(m, D, x, xd, dt, lambda key, msg: out.v(key, "%s after %s (%s): %s" % ("step %d" % k, "init" if not k else "step", sch, msg), run), lambda: out.ob(1), None)
        out.ob(0, "%s|%s|ic%d" % (sch, "".join(sorted(set(b["att"][:4] for b in m.bodies + m.rods + m.points)))[:30], ic))
        if out["viol"]: break
    return out

def run(ctx):
    ctx.exe()
    ctx.map(case, range(1400 if ctx.quick else 20000))
    return ctx.finish()
