"""C26: energy and momentum of passive systems."""
import math
import numpy as np
import vp, deck, trace, ref, phys, rich
from trace import A

def passive(rng, m, drag, damp, free=False):
    """nothing driven, no added mass and no bending stiffness (neither has an energy in this model), everything under water"""
    for t in m.ltypes:
        t["Ca"] = t["CaAx"] = t["EI"] = 0.0
        if not drag: t["Cd"] = t["CdAx"] = 0.0
        if not damp: t["BA"] = 0.0
    for t in m.rtypes:
        t["Ca"] = t["CaEnd"] = 0.0
        if not drag: t["Cd"] = t["CdEnd"] = 0.0
    for b in m.bodies:
        b["Ca"] = [0.0] * 3
        if deck.btype(b["att"]) in ("COUPLED", "CPLDPIN"): b["att"] = "Free"
        if free and deck.btype(b["att"]) == "FIXED": b["att"] = "Free"
        if not drag: b["CdA"] = [0.0] * 6
    for r in m.rods:
        k = deck.rtype_(r["att"])
        if k in ("COUPLED", "CPLDPIN"): r["att"] = "Pinned" if k == "CPLDPIN" and not free else "Free"
        if free and k in ("FIXED", "PINNED") and not deck.up(r["att"]).startswith("BODY"): r["att"] = "Free"
    H = m.opts["WtrDpth"]
    for p in m.points:
        p["Ca"] = 0.0
        if deck.ptype(p["att"]) == "COUPLED" or free and deck.ptype(p["att"]) == "FIXED" and not deck.up(p["att"]).startswith("BODY"):
            p["att"] = "Free" if free or rng.random() < .5 else "Fixed"; p["m"] = max(p["m"], rng.uniform(10, 300))
            if free: p["r"][2] = max(p["r"][2], -.8 * H)
        if not drag: p["CdA"] = 0.0

def energy(m, d, lines, env):
    """kinetic, gravitational, elastic and seabed energy; least distance to the water surface"""
    K = G = E = B = 0.0; top = -1e9; g, rho = env.g, env.rho
    for i, o in enumerate(d["lines"]):
        L = lines[i]; N = L.N; l = L.UL / N; r, v = A(o["pos"]), A(o["vel"]); cnt = np.full(N + 1, 2.0); cnt[0] = cnt[N] = 1.0
        K += .5 * (.5 * cnt * l * L.w * (v * v).sum(1)).sum(); G += (.5 * cnt * l * (L.w - rho * L.A) * g * r[:, 2]).sum()
        ls = np.linalg.norm(r[1:] - r[:-1], axis=1); eps = np.maximum(ls / l - 1, 0)
        if L.tab["EA"] is None: E += (.5 * L.EA * eps * eps * l).sum()
        else: E += sum(area(L.tab["EA"], e) * l for e in eps)
        dep = A([env.depth(*q[:2]) for q in r]); pen = np.maximum(dep - r[:, 2], 0); B += (.5 * env.kb * pen * pen * .5 * L.d * l * cnt).sum(); top = max(top, r[:, 2].max())
    for p, o in zip(m.points, d["points"]):
        if deck.ptype(p["att"]) == "FIXED" and not deck.attbody(p["att"]): continue
        v = A(o["vel"]); K += .5 * p["m"] * v @ v; G += (p["m"] - rho * p["V"]) * g * o["pos"][2]; top = max(top, o["pos"][2])
    return K, G, E, B, top

def area(tab, e):
    xs, ys = tab; s = 0.0
    for k in range(len(xs) - 1):
        a, b = xs[k], min(xs[k + 1], e)
        if e <= a: break
        s += .5 * (ys[k] + np.interp(b, xs, ys)) * (b - a)
    if e > xs[-1]: s += ys[-1] * (e - xs[-1])
    return s

GAIN = {"rk4": 5e-5, "rk2": 5e-5, "midpoint20": 2e-3}; MOM = {"": 1e-9, "rk4": 1e-6, "rk2": 1e-4}
def history(ctx, c):
    out = vp.Out(); rng = ctx.rng(c); drag, damp = rng.random() < .5, rng.random() < .5; m = deck.rnd_model(rng, bodies=False, rods=False, nmax=8); passive(rng, m, drag, damp)
    sc = m.opts["tScheme"] = rng.choice(["rk4", "rk4", "rk2", "midpoint20"]); m.opts["writeLog"] = 0; bed = rng.random() < .3
    if not bed: m.opts["cb"] = 0.0
    m.opts["FrictionCoefficient"] = rng.choice([0.0, .5]) if bed else 0.0
    dt = m.opts["dtM"] = deck.safe_dt(m, .02 if sc == "rk4" else .01, .005); n = 60 if ctx.quick else 300; q = rng.choice([2, 5])
    if rng.random() < .25:
        for t in m.ltypes:
            xs = [0.0] + sorted(rng.uniform(.002, .3) for _ in range(rng.randint(1, 5))); ys = [0.0]; E0 = t["EA"]
            for u, w in zip(xs, xs[1:]): ys.append(ys[-1] + (w - u) * E0 * rng.uniform(.3, 1))
            t["BA"] = abs(t["BA"]) * 1000 if t["BA"] < 0 else t["BA"]; fn = t["EA"] = "ea_%s.dat" % t["name"]; t["EA_tab"] = (xs, ys); m.files[fn] = "t\nx y\n- -\n" + "".join("%r %r\n" % z for z in zip(xs, ys))
    S = ["create a m.txt", deck.init_cmd("a", [], []), "dump a"]
    for k in range(n): S += [deck.step_cmd("a", k * q * dt, q * dt, [], []), "dump a PL"]
    with vp.Scratch() as d: r = vp.execute(ctx.exe(), m.deck(), S, d, 120)
    if r.timeout: out.stat("slow"); return out
    if not phys.usable(r, out, m): return out
    if any(x["rc"] for x in r.of("step")): out.stat("step failed"); return out
    env = ref.Env(m); lines = [ref.Line(trace.ltype_of(m, i), l["L"], l["N"]) for i, l in enumerate(m.lines)]
    e = [energy(m, x, lines, env) for x in r.of("dump")]; 
    cut = next((k for k, x in enumerate(e) if x[4] > -.5), len(e)); e = e[:cut]
    if len(e) < 10: out.stat("surfaced"); return out
    tot = A([sum(x[:4]) for x in e]); touch = max(x[3] for x in e) > 0; scale = max(x[0] for x in e) + max(x[2] for x in e) + max(x[1] for x in e) - min(x[1] for x in e)
    if not scale > 1e-6: out.stat("nothing moves"); return out
    passive_ = drag or damp or touch and bed; up = max((tot[k] - tot[:k + 1].min() for k in range(len(tot))), default=0) / scale; off = abs(tot - tot[0]).max() / scale
    out.mx("gain " + sc, up)
    if up > GAIN[sc]: out.v("gain", "%s: the energy grew by %.2g of the energies at play (%s drag, %s damping, seabed %s)" % (sc, up, drag, damp, touch), r)
    if not passive_:
        out.mx("drift " + sc, off)
        if off > GAIN[sc]: out.v("drift", "%s: the energy of a conservative system changed by %.2g of the energies at play" % (sc, off), r)
    out.ob(len(e), "energy|%s|%s%s%s" % (sc, "d" if drag else "", "b" if damp else "", "s" if touch else "")); return out

def momentum(ctx, c):
    """nothing anchored, no drag: only weight and buoyancy act from outside"""
    out = vp.Out(); rng = ctx.rng(c); full = rng.random() < .5; m = deck.rnd_model(rng, bodies=full, rods=False, nmax=6, small=True); passive(rng, m, False, rng.random() < .5, free=True)
    sc = m.opts["tScheme"] = rng.choice(["rk4", "rk2"] + ([] if m.bodies else ["euler", "ab2", "ab3", "ab4"] )); m.opts["writeLog"] = 0; m.opts["WtrDpth"] = m.opts["WtrDpth"] + 200.0
    dt = m.opts["dtM"] = deck.safe_dt(m, .03, .005); n = 30 if ctx.quick else 100
    S = ["create a m.txt", deck.init_cmd("a", [], []), "dump a"]
    for k in range(n): S += [deck.step_cmd("a", k * 2 * dt, 2 * dt, [], []), "dump a"]
    with vp.Scratch() as d: r = vp.execute(ctx.exe(), m.deck(), S, d, 120)
    if r.timeout: out.stat("slow"); return out
    if not phys.usable(r, out, m): return out
    if any(x["rc"] for x in r.of("step")): out.stat("step failed"); return out
    env = ref.Env(m); lines = [ref.Line(trace.ltype_of(m, i), l["L"], l["N"]) for i, l in enumerate(m.lines)]; D = r.of("dump")
    P = []; X = []
    for x in D:
        p = np.zeros(3); s = 0.0; z = -1e9; w = 0.0; spin = sabs = 0.0; mob = []
        for i, o in enumerate(x["lines"]):
            L = lines[i]; l = L.UL / L.N; cnt = np.full(L.N + 1, 2.0); cnt[0] = cnt[-1] = 1.0; w += (.5 * cnt * l).sum() * (L.w - env.rho * L.A) * env.g
            mob += zip(.5 * cnt * l * L.w, A(o["pos"]), A(o["vel"]))
        for q, o in zip(m.points, x["points"]): mob.append((q["m"], A(o["pos"]), A(o["vel"]))); w += (q["m"] - env.rho * q["V"]) * env.g
        for q, o in zip(m.bodies, x["bodies"]):
            cg = deck.euler(A(o["ang"])) @ A(q["CG"]); mob.append((q["M"], A(o["pos"]) + cg, A(o["vel"]) + np.cross(A(o["om"]), cg))); w += (q["M"] - env.rho * q["V"]) * env.g
        for mm, r_, v in mob: p += mm * v; s += mm * np.linalg.norm(v); z = max(z, r_[2]); a = mm * (r_[0] * v[1] - r_[1] * v[0]); spin += a; sabs += mm * math.hypot(r_[0], r_[1]) * math.hypot(v[0], v[1])
        P.append(p); X.append((s, z, w, spin, sabs))
    for k in range(len(D)):
        if X[k][1] > -1 or trace.speed(D[k]) > trace.VMAX: out.stat("cut"); break
        t = k * 2 * dt; want = A([0, 0, -X[k][2] * t]); e = np.abs(P[k] - want).max() / (X[k][0] + abs(X[k][2] * t) + 1e-9); kind = "bodies" if m.bodies else "lines"; out.mx("momentum %s %s" % (kind, sc), e)
        if e > MOM[sc if m.bodies else ""]: out.v("momentum-" + kind, "%s: after %g s the momentum of a floating system is off by %.2g of the momenta at play" % (sc, t, e), r); break
        if not m.bodies and sc == "rk4":
            e = abs(X[k][3]) / (X[k][4] + 1e-9); out.mx("spin", e if X[k][4] > 1e-6 else 0)
            if e > 1e-5 and X[k][4] > 1e-6: out.v("spin", "after %g s a floating system turns about the vertical by itself (%.2g of the angular momenta at play)" % (t, e), r); break
        out.ob(1, "momentum|%s|%s" % (sc, kind))
    return out

def run(ctx):
    ctx.exe()
    ctx.map(history, [("h", i) for i in range(1500 if ctx.quick else 20000)])
    ctx.map(momentum, [("m", i) for i in range(1500 if ctx.quick else 20000)])
    return ctx.finish()
