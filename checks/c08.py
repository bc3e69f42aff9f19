"""C08: loads returned to the caller."""
import numpy as np
import vp, deck, trace, ref, phys, dyn
import c09
from trace import A, close
from deck import btype, rtype_, ptype, attbody
from c05 import ends_of_point
from c06 import rod_eval
from c07 import body_eval

def model(rng, c):
    """Many driven objects of mixed kinds, in random declaration order, some carrying lines."""
    m = deck.rnd_model(rng, zfree=rng.random() < .4, nmax=5, small=True)
    H = m.opts["WtrDpth"]
    for _ in range(rng.randint(0, 3)):
        k = rng.choice("BBRRP"); pos = deck.vec_in(rng, (-30, -30, -.6 * H), (30, 30, -6))
        if k == "B":
            M = 10 ** rng.uniform(3, 4)
            b = m.body(rng.choice(["Coupled", "Vessel", "CpldPin", "CoupledPinned", "Fixed", "Free"]), pos + [rng.uniform(-40, 40) for _ in range(3)], M=M, CG=deck.vec_in(rng, (-1, -1, -1), (1, 1, 1)), I=[M * rng.uniform(1, 3) for _ in range(3)], V=rng.uniform(.5, 5))
            e = str(m.point("Body%d" % b, deck.vec_in(rng, (-3, -3, -3), (3, 3, 3)), m=rng.uniform(0, 100), V=rng.uniform(0, .1), Ca=1.0))
        elif k == "R":
            if not m.rtypes: deck.rnd_rtype(rng, m, "rx")
            e = "R%d%s" % (m.rod(m.rtypes[-1]["name"], rng.choice(["Coupled", "Vessel", "CpldPin", "VesPin", "Fixed", "Free"]), pos, list(A(pos) + rng.uniform(1, 6) * deck.unit(rng)), rng.randint(1, 4)), rng.choice("AB"))
        else:
            e = str(m.point(rng.choice(["Coupled", "Vessel", "Free", "Fixed"]), pos, m=rng.uniform(10, 500), V=rng.uniform(0, .3), CdA=rng.uniform(0, 1), Ca=1.0))
        if rng.random() < .8:
            f = m.point("Fixed", deck.vec_in(rng, (-40, -40, -H), (40, 40, -H)))
            m.line(m.ltypes[0]["name"], str(f), e, float(np.linalg.norm(A(m.points[f - 1]["r"]) - A(pos))) * rng.uniform(1.02, 1.2) + 4, rng.randint(2, 4))
    return m

def lay_of(m):
    return "".join(k + (("p" if (k == "R" and n_ == 3) or (k == "B" and btype(m.bodies[i]["att"]) == "CPLDPIN") else "")) for k, i, n_ in m.layout())

def judge(m, env, p, out, run, kind, lay, last, skip=()):
    """the loads returned by one step; last: the velocities of the driven objects in the step before"""
    f = A(p.step["f"]); i = 0
    out.ob(1, "%s|%s" % (kind, lay[:8]))
    for kd, j, n_ in m.layout():
        got = f[i:i + n_]; xd = p.xd[i:i + n_]; i += n_
        tag = "%s %d step %d layout %s" % ({"B": "body", "R": "rod", "P": "point"}[kd], j + 1, p.k, lay)
        if (kd, j) in skip: continue
        skip3 = False
        if kd == "P":
            F, M = ref.point_rhs(m.points[j], env, A(p.E["points"][j]["vel"]), A(p.wk["P"][j])[:3], ends_of_point(m, j, p.D)); want = F; rep = A(p.D["points"][j]["F"])
        elif kd == "R":
            R, o = rod_eval(m, j, env, p)
            if o["margin"] < 1e-9: continue
            F, M = o["F6"], o["M6"]; v0 = A(p.S["rods"][j]["vel"][0]); a0 = (xd[:3] - v0) / p.dt
            if n_ == 6:
                w0 = last[i - n_ + 3:i]
                want = F - M @ np.concatenate([a0, (xd[3:] - w0) / p.dt])
            else:
                al = np.linalg.solve(M[3:, 3:], F[3:] - M[3:, :3] @ a0); want = F[:3] - M[:3, :3] @ a0 - M[:3, 3:] @ al
            rep = A(p.D["rods"][j]["F"])[:n_]
        else:
            F, M, _, pinned, margin = body_eval(m, j, env, p)
            if margin < 1e-9: continue
            S = p.S["bodies"][j]; a0 = (xd[:3] - A(S["vel"])) / p.dt
            if btype(m.bodies[j]["att"]) == "COUPLED":
                want = F - M @ np.concatenate([a0, (xd[3:] - A(S["om"])) / p.dt]); skip3 = pinned
                if pinned: continue
            else:
                if pinned: continue
                al = np.linalg.solve(M[3:, 3:], F[3:] - M[3:, :3] @ a0); want = np.concatenate([F[:3] - M[:3, :3] @ a0 - M[:3, 3:] @ al, np.zeros(3)])
            rep = A(p.D["bodies"][j]["F"])
        sc = np.abs(F).max() + np.abs(M).max() * np.abs(xd).max() / p.dt * 1e-3 + 1
        ok, e = close(got, want, 1e-7, 1e-8 * sc); out.mx("force", e * 1e-7); out.ob(1)
        if not ok: out.v("returned-force-" + kd, "%s: returned %s, load balance %s" % (tag, np.array2string(got, precision=9), np.array2string(A(want), precision=9)), run)
        ok, e = close(got, rep, 1e-12, 0.0); out.ob(1)
        if not ok: out.v("force-vs-getter-" + kd, "%s: returned %s, object reports %s" % (tag, got, rep), run)
    if i != len(f): out.v("layout", "force array has %d entries, layout %d" % (len(f), i), run)

def case(ctx, c):
    out = vp.Out(); rng = ctx.rng(c)
    kind = phys.WATERS[c % len(phys.WATERS)]
    m = model(rng, c); phys.add_water(m, rng, kind)
    dt = deck.safe_dt(m); n = 10 if ctx.quick else 40
    mot = deck.Motion(rng, m, amp=rng.choice([.5, 3.0]))
    run = phys.euler_run(ctx, m, mot, dt, n, rng)
    nd = sum(k[2] for k in m.layout())
    cr = run.of("create")[0] if run.of("create") else {}
    if cr.get("ok") and cr.get("ndof") != nd: out.v("ndof", "advertised %s coupled DOF, deck has %d: %s" % (cr.get("ndof"), nd, m.layout()), run)
    if not phys.usable(run, out, m): return out
    env = ref.Env(m); last = mot.v(0.0)
    lay = lay_of(m)
    for r in run.recs:
        if r.get("over"): out.v("array-overrun", "'%s' wrote beyond the advertised array size" % r["c"], run)
    for p in trace.pairs(m, run, out=out):
        judge(m, env, p, out, run, kind, lay, last)
        last = p.xd
    return out

def sub_case(ctx, c):
    """Coupling steps of several internal steps, the driven velocities changing from one to the next:
    the reference replays the internal steps and gives the loads of the last evaluation."""
    out = vp.Out(); rng = ctx.rng(c); sch = c09.EXPL[c[1] % 3]
    m = model(rng, c[1])
    for r in m.rods:
        if attbody(r["att"]) and rtype_(r["att"]) == "PINNED": r["att"] = "Body%d" % attbody(r["att"])
    U = c09.current(m, rng); dtM = deck.safe_dt(m, .1, .01)
    mot = deck.Motion(rng, m, amp=1.0); x = A(m.x0()); n = 5 if ctx.quick else 12
    for i in mot.rodidx: x[i + 3:i + 6] = 0
    plan = [dtM * rng.choice([1, 2, 3, 2.5, 3.4, .6]) for _ in range(n)]
    vs = [mot.v(0.0)] + [A([rng.uniform(-1, 1) * (.3 if f else 1) for f in mot.rotdof]) if rng.random() < .8 else None for _ in plan]
    for k in range(1, len(vs)):
        if vs[k] is None: vs[k] = vs[k - 1]
    m.opts.update(dtM=dtM, tScheme=sch, writeLog=0, disableOutput=1)
    s = ["create a m.txt", deck.init_cmd("a", x, vs[0]), "dump a"]; t = 0.0; xs = x.copy()
    for dt, v in zip(plan, vs[1:]): s += [deck.step_cmd("a", t, dt, xs, v), "dump a"]; xs = xs + v * dt; t += dt
    with vp.Scratch() as d: run = vp.execute(ctx.exe(), m.deck(), s + ["close a"], d, 120)
    if not phys.usable(run, out, m): return out
    dumps, steps = run.of("dump"), run.of("step"); Y = dyn.Dyn(m, dumps[0], U); y = Y.y0
    for k, dt in enumerate(plan):
        if trace.speed(dumps[k]) > trace.VMAX or (len(y) and np.abs(y).max() > 1e6): out.stat("cut at divergence"); break
        if steps[k]["rc"]: out.v("step-failed", "%s: step %d failed with %d" % (sch, k, steps[k]["rc"]), run); break
        v = vs[k + 1]; dr = trace.driven(m, x, (v - vs[k]) / dt); acc = {q: {j: z[1] for j, z in dr[q].items()} for q in dr}
        subs = dyn.substeps(dt, dtM); tl = 0.0; F = lambda a, b: Y.f(a, b, x, v, acc)
        if subs[-1] < 1e-9 * dtM: break
        for h in subs: y = dyn.advance(sch, F, tl, y, h, []); tl += h
        if Y.margin < 1e-7: out.stat("cut at a branch of the force model"); break
        f = A(steps[k]["f"]); i = 0
        for kd, j, n_ in m.layout():
            got, want = f[i:i + n_], Y.load[kd, j]; i += n_
            e = np.abs(got - want).max() / (np.abs(want).max() + 10); out.ob(1, "sub|%s|%s%d|%d" % (sch, kd, n_, len(subs))); out.mx("substep force", e)
            if not e <= 1e-6: out.v("returned-force-sub-" + kd, "%s, step %d of %d internal steps, %s %d of %s: returned %s, load balance %s" % (sch, k, len(subs), kd, j + 1, m.layout(), got.tolist(), A(want).tolist()), run)
        if out["viol"]: break
        x = x + v * dt
    return out

def any_case(ctx, c): return case(ctx, c[1]) if c[0] == "p" else sub_case(ctx, c)

def run(ctx):
    ctx.exe()
    a, b = (1000, 500) if ctx.quick else (20000, 10000)
    ctx.map(any_case, [("p", k) for k in range(a)] + [("s", k) for k in range(b)])
    return ctx.finish()
