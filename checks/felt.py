"""Loads that every node of a random system feels under given water and seabed, judged by the reference
model from the *expected* kinematics: shared by C14, C15, C16 and C17."""
import math
import numpy as np
import vp, deck, trace, ref, phys
from trace import A, close
from deck import btype, rtype_, ptype, attbody
import c04, c05, c06, c07

def judge(m, run, out, expect, kind, pre="felt"):
    """expect(p) replaces p.wk by what each node should feel (same layout)."""
    env = ref.Env(m); Ls = [ref.Line(trace.ltype_of(m, i), l["L"], l["N"]) for i, l in enumerate(m.lines)]; dead = set()
    for p in trace.pairs(m, run, out=out):
        p.wk = expect(p)
        if p.wk is None: out.stat("instant not judged"); continue
        for i in range(len(m.lines)):
            n0 = len(out["viol"]); c04.check_line(m, i, Ls[i], env, p, out, run)
            for v in out["viol"][n0:]: v["key"] = pre + "-" + v["key"]
        for j, P in enumerate(m.points):
            D = p.D["points"][j]; F, M = ref.point_rhs(P, env, A(p.E["points"][j]["vel"]), A(p.wk["P"][j])[:3], c05.ends_of_point(m, j, p.D))
            sc = np.abs(F).max() + sum(np.abs(f).max() for f, _ in c05.ends_of_point(m, j, p.D)) + 1e-3; ok, e = close(D["F"], F, 1e-7, 1e-8 * sc); out.ob(1); out.mx("point force", e * 1e-7)
            if not ok: out.v(pre + "-point", "point %d (%s) step %d: force %s, model %s" % (j + 1, P["att"], p.k, D["F"], F.tolist()), run)
        for j, r in enumerate(m.rods):
            if not r["N"] or rtype_(r["att"]) in ("COUPLED", "CPLDPIN"): continue
            R, o = c06.rod_eval(m, j, env, p)
            if o["margin"] < 1e-7: dead.add(j)
            if j in dead: continue
            ok, e = close(p.D["rods"][j]["F"], o["F6"], 1e-6, 1e-7 * (np.abs(o["F6"]).max() + R.w * R.L * env.g + 1e8 * o["mtol"])); out.ob(1); out.mx("rod force", e * 1e-6)
            if not ok: out.v(pre + "-rod", "rod %d (%s) step %d: force %s, model %s" % (j + 1, r["att"], p.k, p.D["rods"][j]["F"], o["F6"].tolist()), run)
        for k, b in enumerate(m.bodies):
            if btype(b["att"]) not in ("FREE", "FIXED"): continue
            F, M, R, pinned, margin = c07.body_eval(m, k, env, p)
            if margin < 1e-7 or any(j in dead and attbody(r["att"]) == k + 1 for j, r in enumerate(m.rods)): continue
            n_ = slice(0, 3) if pinned else slice(0, 6)
            ok, e = close(A(p.D["bodies"][k]["F"])[n_], F[n_], 1e-6, 1e-7 * (np.abs(F).max() + 1)); out.ob(1); out.mx("body force", e * 1e-6)
            if not ok: out.v(pre + "-body", "body %d (%s) step %d: force %s, model %s" % (k + 1, b["att"], p.k, p.D["bodies"][k]["F"], F.tolist()), run)
        out.ob(1, "felt|%s|%s" % (kind, "".join(sorted(set("L" + "P" * bool(m.points) + "R" * bool(m.rods) + "B" * bool(m.bodies))))))
        if len(out["viol"]) >= 8: break
    # one key per kind of object
    for v in out["viol"]:
        if v["key"].startswith(pre + "-line-"): v["key"] = pre + "-line"

def field(env_fn):
    """wk of every node from a function (pos) -> 9 values"""
    def mk(E):
        one = lambda r: list(env_fn(A(r)))
        return {"L": [[one(r) for r in o["pos"]] for o in E["lines"]], "R": [[one(r) for r in o["pos"]] for o in E["rods"]], "P": [one(o["pos"]) for o in E["points"]], "B": [one(o["pos"]) for o in E["bodies"]]}
    return mk

def order(E, n=None):
    """sampling points in the order of the external kinematics interface: (kind, object, node, position);
    the ground counts as a body at the origin, ahead of the others"""
    o = [("L", i, k, A(r)) for i, l in enumerate(E["lines"]) for k, r in enumerate(l["pos"])]
    o += [("R", i, k, A(r)) for i, l in enumerate(E["rods"]) for k, r in enumerate(l["pos"])]
    o += [("P", i, None, A(l["pos"])) for i, l in enumerate(E["points"])]
    return o + [("G", 0, None, np.zeros(3))] + [("B", i, None, A(l["pos"])) for i, l in enumerate(E["bodies"])]

def water_case(ctx, c, wave=None, cur=None, bathy=False):
    """waves/currents of the reference (lib/water.py) felt by the nodes"""
    import water
    out = vp.Out(); rng = ctx.rng(c)
    m = deck.rnd_model(rng, zfree=rng.random() < .6, nmax=4, small=True, maxlines=3)
    H = m.opts["WtrDpth"] = math.ceil(m.opts["WtrDpth"]) + .5; m.opts.pop("g", None); g = 9.80665; rho = m.opts.pop("rho", 1025.0); m.opts["WtrDnsty"] = rho
    for p in m.points:
        if ptype(p["att"]) == "FIXED" and not attbody(p["att"]): p["r"][2] = -H
    W = water.add_waves(m, rng, wave, g, rho, H) if wave else None; C = water.add_current(m, rng, cur, H) if cur else None
    uni = isinstance(W, water.Grid) and C
    if uni:
        m.opts["UnifyCurrentGrid"] = 0
    dt = deck.safe_dt(m); n = 8 if ctx.quick else 30; mot = deck.Motion(rng, m, amp=rng.choice([.5, 3.0]))
    run = phys.euler_run(ctx, m, mot, dt, n, rng)
    if not phys.usable(run, out, m): return out
    def expect(p):
        t = p.k * dt; bad = False
        def one(r):
            nonlocal bad
            z, U, Ud, pd = 0.0, np.zeros(3), np.zeros(3), 0.0
            if W:
                k = W.kin(r, t, -H, -H)
                if k is None: bad = True; return [0.0] * 9
                z, U, Ud, pd = k
            if C: U = U + C(r, t)
            return list(U) + list(Ud) + [z, pd, -H]
        # kinematics are felt where the reported ones are (checked against the reference in full precision, so
        # that rounding of the library's FFT does not decide a branch of the force model)
        w = field(one)(p.E)
        if bad: return None
        for kd in "LRPB":
            for a, b in zip(w[kd], p.wk[kd]):
                a, b = A(a), A(b); e = (np.abs((a - b)[..., :8]) / A([1, 1, 1, 1, 1, 1, 1, 1e4])).max(); out.mx("kinematics", e)
                if not e <= 1e-4: out.v("node-kinematics", "step %d (t=%r) %s: reported %s, expected %s" % (p.k, t, kd, b.tolist(), a.tolist()), run)
        return p.wk
    judge(m, run, out, expect, "%s/%s" % (wave, cur)); return out
