"""C09: time schemes.  (a) exact replay of the explicit schemes by the reference right-hand side, with several
internal steps per call and uneven step lengths; (b) refinement: every scheme converges to the same trajectory;
(c) simulated time."""
import math
import numpy as np
import vp, deck, trace, ref, phys, dyn
from trace import A
from deck import btype, rtype_, ptype, attbody

EXPL = ["euler", "rk2", "rk4"]
NAMES = {"euler": ["Euler", "euler"], "rk2": ["RK2", "rk2"], "rk4": ["rk4", "RK4"], "ab2": ["AB2", "ab2"], "ab3": ["ab3", "AB3"], "ab4": ["ab4", "AB4"]}
ALL = ["euler", "leuler", "heun", "rk2", "rk4", "ab2", "ab3", "ab4", "lab2", "lab3", "lab4", "beuler5", "beuler20", "midpoint5", "midpoint10", "aca5", "aca20", "wilson10", "anderson5"]
AB = ("ab2", "ab3", "ab4", "lab2", "lab3", "lab4")
ORDER2 = ("rk2", "rk4")

def current(m, rng):
    if rng.random() < .5: return (0.0, 0.0, 0.0)
    U = (rng.uniform(-1, 1), rng.uniform(-1, 1), 0.0); m.opts["Currents"] = 1
    m.files["current_profile.txt"] = phys.HEAD3 + "".join("%r %r %r %r\n" % ((z,) + U) for z in (-1000.0, 1000.0))
    return U

def script(m, x, xd, plan, scheme, dtM):
    """uniform driven motion; plan: step lengths"""
    m.opts.update(dtM=dtM, tScheme=scheme, writeLog=0, disableOutput=1)
    s = ["create a m.txt", deck.init_cmd("a", x, xd), "dump a"]; t = 0.0
    for dt in plan: s += [deck.step_cmd("a", t, dt, x, xd), "dump a"]; x = x + xd * dt; t += dt
    return s + ["close a"]

def smooth_model(rng, rot):
    """submerged, taut, clear of the bed: no branch of the force model is crossed"""
    m = deck.Model(); H = 200.0
    m.opts.update(WtrDpth=H, kb=1e5, cb=1e4, TmaxIC=0.0)
    d = rng.uniform(.05, .2)
    m.ltype("lt", d=d, w=1025 * math.pi * d * d / 4 * rng.uniform(1.5, 3), EA=10 ** rng.uniform(4.5, 5.5), BA=rng.choice([-rng.uniform(.2, .8), 10 ** rng.uniform(2, 3)]),
            EI=rng.choice([0.0, 10 ** rng.uniform(1, 2.5)]), Cd=rng.uniform(.5, 1.5), Ca=1.0, CdAx=rng.uniform(0, .4), CaAx=rng.uniform(0, .3))
    ends = []
    def anchor(): p = m.point("Fixed", deck.vec_in(rng, (-40, -40, -120), (40, 40, -100))); return str(p), A(m.points[p - 1]["r"])
    def hook(e, pos):
        a, r = anchor(); L = np.linalg.norm(r - pos); m.line("lt", a, e, L * rng.uniform(.9, .97), rng.randint(1, 4))
    pos = deck.vec_in(rng, (-10, -10, -60), (10, 10, -40)); p = m.point("Free", pos, m=rng.uniform(100, 500), V=rng.uniform(0, .1), CdA=1.0, Ca=1.0); hook(str(p), A(pos))
    c = m.point("Coupled", deck.vec_in(rng, (-10, -10, -30), (10, 10, -20))); cp = A(m.points[c - 1]["r"])
    m.line("lt", str(p), str(c), float(np.linalg.norm(cp - A(pos))) * rng.uniform(.9, .97), rng.randint(2, 4))
    if "B" in rot:
        pos = deck.vec_in(rng, (15, -10, -60), (30, 10, -40)); M = rng.uniform(500, 2000)
        b = m.body("Free", pos + [rng.uniform(-50, 50) for _ in range(3)], M=M, CG=deck.vec_in(rng, (-.3, -.3, -.3), (.3, .3, .3)), I=[M * rng.uniform(.5, 1.5) for _ in range(3)], V=M / 1025, CdA=[1.0] * 6)
        for _ in range(2):
            rel = deck.vec_in(rng, (-1, -1, -1), (1, 1, 1)); q = m.point("Body%d" % b, rel); hook(str(q), A(pos) + deck.euler(np.radians(m.bodies[-1]["r6"][3:])) @ A(rel))
    if "R" in rot:
        m.rtype("rt", d=.4, w=300.0, Cd=1.0, Ca=1.0, CdEnd=.6, CaEnd=.5)
        pos = A(deck.vec_in(rng, (-30, -10, -60), (-15, 10, -40))); q = deck.unit(rng)
        r = m.rod("rt", rng.choice(["Free", "Pinned"]), list(pos), list(pos + 3 * q), rng.randint(1, 4)); hook("R%dA" % r, pos); hook("R%dB" % r, pos + 3 * q)
    return m

def replay_case(ctx, c):
    out = vp.Out(); rng = ctx.rng(c); sch = EXPL[c[1] % len(EXPL)]
    m = deck.rnd_model(rng, zfree=rng.random() < .3, nmax=4, small=True, maxlines=4, ei=rng.random() < .3)
    for r in m.rods:
        if attbody(r["att"]) and rtype_(r["att"]) == "PINNED": r["att"] = "Body%d" % attbody(r["att"])
    U = current(m, rng)
    dtM = deck.safe_dt(m, .1, .01); nd = len(m.x0())
    xd = A([rng.uniform(-1, 1) * (.3 if f else 1) for f in deck.Motion(rng, m).rotdof]) if nd else np.zeros(0)
    x = A(m.x0())
    for i in deck.Motion(rng, m).rodidx: x[i + 3:i + 6] = 0
    # internal steps that do and do not divide the coupling step
    plan = [dtM * rng.choice([1, 2, 3, 2.5, 3.4, .6]) for _ in range(6 if ctx.quick else 20)]
    s = script(m, x, xd, plan, rng.choice(NAMES[sch]), dtM)
    with vp.Scratch() as d: run = vp.execute(ctx.exe(), m.deck(), s, d, 120)
    if not phys.usable(run, out, m): return out
    dumps, steps = run.of("dump"), run.of("step")
    Y = dyn.Dyn(m, dumps[0], U); y = Y.y0; hist = []; t = 0.0
    if not len(y): return out
    for k, dt in enumerate(plan):
        if trace.speed(dumps[k]) > trace.VMAX or np.abs(y).max() > 1e6: out.stat("cut at divergence"); break
        if steps[k]["rc"]: out.v("step-failed", "%s: step %d failed with %d" % (sch, k, steps[k]["rc"]), run); break
        tl = 0.0; F = lambda a, b: Y.f(a, b, x, xd)
        subs = dyn.substeps(dt, dtM)
        if subs[-1] < 1e-9 * dtM: break        # whether a rounding residue is one more step is immaterial but not replayable
        for h in subs: y = dyn.advance(sch, F, tl, y, h, hist); tl += h
        if Y.margin < 1e-7: out.stat("cut at a branch of the force model"); break
        t += dt
        if abs(steps[k]["t"] - t) > 1e-9 * (1 + t): out.v("time", "%s: time after step %d is %r, steps add up to %r" % (sch, k, steps[k]["t"], t), run)
        for what, want, got in Y.observe(y, dumps[k + 1]):
            e = np.abs(got - want).max() / (1e-3 * np.abs(want).max() + 1); out.ob(1); out.mx("replay", e)
            if not e <= 2e-7: out.v("replay-" + what.split()[0], "%s step %d (%d internal steps), %s: observed %s, formula %s" % (sch, k, len(subs), what, np.array2string(got[:6], precision=12), np.array2string(want[:6], precision=12)), run)
        out.ob(1, "replay|%s|%d sub|%s" % (sch, len(subs), "".join(sorted(k_[0] for k_ in Y.off))[:5]))
        if out["viol"]: break
        x = x + xd * dt
    return out

def order_case(ctx, c):
    out = vp.Out(); rng = ctx.rng(c); sch = ALL[c[1] % len(ALL)]; rot = ["", "B", "R", "BR"][(c[1] // len(ALL)) % 4]
    m = smooth_model(rng, rot); current(m, rng)
    nd = len(m.x0()); x = A(m.x0()); xd = A([rng.uniform(-.5, .5) for _ in range(nd)])
    w = max(math.sqrt(t["EA"] / t["w"]) * l["N"] / l["L"] for l in m.lines for t in m.ltypes)
    h = .03 / w; T = 64 * h; n = rng.choice([1, 2, 4])
    st = {}; runs = {}
    for name, q in (("rk4", 8), (sch, 1), (sch, 2), (sch, 4)):
        s = script(m, x, xd, [T / n] * n, name, h / q)
        with vp.Scratch() as d: run = vp.execute(ctx.exe(), m.deck(), s, d, 120)
        if not phys.usable(run, out, m): return out
        if any(s["rc"] for s in run.of("step")): out.v("step-failed", "%s with dtM=%g failed: %s" % (name, h / q, [s["rc"] for s in run.of("step")]), run); return out
        for k, s in enumerate(run.of("step")):
            if abs(s["t"] - (k + 1) * T / n) > 1e-9 * T + 1e-12: out.v("time", "%s: time after step %d is %r, steps add up to %r" % (name, k, s["t"], (k + 1) * T / n), run)
        runs[q] = run; Y = dyn.Dyn(m, run.of("dump")[0]); st[q] = {}
        for what, _, got in Y.observe(Y.y0, run.of("dump")[-1]): st[q].setdefault(what.split()[0], []).append(got)
        st0 = {}
        for what, _, got in Y.observe(Y.y0, run.of("dump")[0]): st0.setdefault(what.split()[0], []).append(got)
    for kind in st[8]:
        R = np.concatenate(st[8][kind]); move = np.abs(R - np.concatenate(st0[kind])).max()
        e = [np.abs(np.concatenate(st[q][kind]) - R).max() for q in (1, 2, 4)]
        out.ob(1, "order|%s|%s|%s" % (sch, kind, rot))
        out.mx("ratio " + sch, e[2] / e[0] if e[0] > 1e-9 * move else 0)
        if move == 0 or e[0] < 1e-8 * move: continue
        lim = .14 if sch in ORDER2 else .55
        if sch != "anderson5" and e[2] > lim * e[0] and e[2] > (1e-5 if sch in ORDER2 else 1e-7) * move:
            out.v("order-" + kind, "%s, %s: distance to the converged state is %.3g, %.3g, %.3g for dtM, dtM/2, dtM/4 (moved %.3g): no %s order convergence" % (sch, kind, e[0], e[1], e[2], move, "2nd" if sch in ORDER2 else "1st"), runs[1])
        if sch in AB and e[2] > .14 * e[0] and e[2] > 1e-8 * move: out.v("ab-order", "%s converges at 1st order only: distance to the converged state is %.3g, %.3g, %.3g for dtM, dtM/2, dtM/4" % (sch, e[0], e[1], e[2]), runs[1])
        # anderson stops its inner iterations at an absolute residue: it is only asked to stay close
        if e[0] > .5 * move: out.v("accuracy-" + kind, "%s, %s: off by %.3g of a displacement of %.3g at a time step of a fraction of the fastest mode" % (sch, kind, e[0], move), runs[1])
    return out

def case(ctx, c): return replay_case(ctx, c) if c[0] == "r" else order_case(ctx, c)

def run(ctx):
    ctx.exe()
    n1, n2 = (600, 4 * len(ALL) * 4) if ctx.quick else (8000, 4 * len(ALL) * 40)
    ctx.map(case, [("o", k) for k in range(n2)] + [("r", k) for k in range(n1)])
    return ctx.finish()
