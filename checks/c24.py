"""C24: the internal time step and the CFL factor, in the deck and at run time."""
import math
import vp, deck, trace, phys, rich, c10

def period(m, i):
    t = trace.ltype_of(m, i); l = m.lines[i]
    return 2 * math.pi * (l["L"] / l["N"]) * math.sqrt(float(t["w"]) / float(t["EA"]))

def factor(got, dt, P):
    """CFL factor of a step: with the natural frequency as coded, or twice it as the troubleshooting section writes it"""
    return any(abs(got - q) <= 1e-9 * abs(q) for q in (dt / P, 2 * dt / P))

def tagged(m): return "%d lines %s" % (min(len(m.lines), 3), "".join(k for k, n in (("B", m.bodies), ("R", m.rods), ("P", m.points)) if n))

def base(ctx, c, lines=True):
    rng = ctx.rng(c)
    while True:
        m = deck.rnd_model(rng, zfree=rng.random() < .4, nmax=8, small=rng.random() < .7)
        if m.lines or not lines: return rng, m

def options(ctx, c):
    """which of the two rules"""
    out = vp.Out(); rng, m = base(ctx, c); P = min(period(m, i) for i in range(len(m.lines))); m.opts.pop("dtM", None); m.opts["writeLog"] = 0
    if rng.random() < .15: m.opts["tScheme"] = rng.choice(rich.SCHEMES)
    h = 10 ** rng.uniform(-5, -1); f = 10 ** rng.uniform(-3, 1.5); names = rng.choice([("dtM", "CFL"), ("DT", "cfl"), ("dtM", "cfl")])
    want = {"both": None, "dt": None, "cfl": None, "none": None}; files, S = {}, []; x = deck.init_cmd
    mot = deck.Motion(rng, m, amp=.1)
    for k in want:
        m.opts.pop("dtM", None); [m.opts.pop(n, None) for n in ("dtM", "DT", "CFL", "cfl")]
        o = {}
        if k in ("both", "dt"): o[names[0]] = h
        if k in ("both", "cfl"): o[names[1]] = f
        for n in sorted(o, reverse=rng.random() < .5): m.opts[n] = o[n]
        for n, t in m.deck().items(): files["%s/%s" % (k, n)] = t
        S += ["create %s %s/m.txt" % (k, k), deck.init_cmd(k, mot.x(0.0), mot.v(0.0)), "dump %s C" % k, "close %s" % k]
    with vp.Scratch() as d: r = vp.execute(ctx.exe(), files, S, d, 60)
    if r.timeout: out.stat("slow"); return out
    if r.bad(): out.v("crash", "the run ended badly", r); return out
    ok = {q["s"]: q["rc"] for q in r.recs if q["c"] in ("init", "initnoic")}; D = {q["s"]: q for q in r.of("dump")}
    if any(ok.get(k) for k in want): out.stat("not initialised"); return out
    dt = {k: D[k]["dt"] for k in want}; cfl = {k: D[k]["cfl"] for k in want}
    near = lambda a, b: abs(a - b) <= 1e-9 * abs(b)
    for k in want:
        if not factor(cfl[k], dt[k], P): out.v("pair", "%s given: the step reads %.12g s and the factor %.12g; the stiffest line has a natural period of %.12g s" % (k, dt[k], cfl[k], P), r); return out
    if not near(dt["dt"], h): out.v("step", "only a time step of %r s given, %.12g s used" % (h, dt["dt"]), r)
    if not near(cfl["cfl"], f): out.v("factor", "only a CFL factor of %r given, %.12g used" % (f, cfl["cfl"]), r)
    if not near(cfl["none"], .5): out.v("default", "no step and no factor given, the factor is %.12g" % cfl["none"], r)
    if not near(dt["both"], min(h, dt["cfl"])): out.v("both", "a step of %r s and a factor of %r (%.12g s) given, %.12g s used" % (h, f, dt["cfl"], dt["both"]), r)
    out.ob(4, "options|%s|%s|%s" % (tagged(m), "step" if h < dt["cfl"] else "factor", names)); return out

SINGLE = ["euler", "rk2", "rk4"]
def far(m, a, b, T):
    """states of two dumps: worst difference relative to the distances and speeds at play"""
    w = 0.0; v = trace.speed(b) + 1.0
    for key, ps, vs in (("lines", "pos", "vel"), ("points", "pos", "vel"), ("rods", "pos", "vel"), ("bodies", "r", "rd")):
        for x, y in zip(a.get(key, []), b.get(key, [])):
            for f, s in ((ps, 1 + v * T), (vs, v)):
                for p, q in zip(flat(x[f]), flat(y[f])): w = max(w, abs(p - q) / s)
    return w
def flat(x): return [z for y in x for z in flat(y)] if isinstance(x, list) else [x]

def effective(ctx, c):
    """one coupling step is the internal steps in force taken one after the other, whatever was set before"""
    out = vp.Out(); rng, m = base(ctx, c, False); m.opts["writeLog"] = 0; sc = m.opts["tScheme"] = rng.choice(SINGLE)
    if rng.random() < .3: phys.add_water(m, rng, rng.choice([k for k in phys.WATERS if k in ("still", "w3", "w7", "c1")] or ["still"]))
    hs = deck.safe_dt(m, .1, .02); mot = deck.Motion(rng, m, amp=.1); x0 = list(mot.x(0.0)); v0 = [rng.uniform(-.5, .5) if k == 3 else 0.0 for k in deck_dofs(m)]
    P = min([period(m, i) for i in range(len(m.lines))] or [0]); own = rng.random() < .5
    x = lambda t: [a + b * t for a, b in zip(x0, v0)]
    files = {}; m.opts["dtM"] = hs
    for n, t in m.deck().items(): files["a/" + n] = t
    m.opts["dtM"] = 1e3
    for n, t in m.deck().items(): files["b/" + n] = t
    if m.opts.get("SeafloorFile"): files[m.opts["SeafloorFile"]] = m.deck()[m.opts["SeafloorFile"]]
    S = ["create a a/m.txt", "create b b/m.txt"] + [deck.init_cmd(s, x(0), v0) for s in "ab"]; t = 0.0; h = hs; tags = []
    S += ["dump a", "dump b"]; T = [0.0]; scs = []
    for k in range(5):
        e = rng.choice(["none", "dt", "dt", "cfl" if m.lines else "dt", "bad", "scheme"]); tags.append(e)
        if e == "dt": h = hs * rng.choice([1, .5, .25, rng.uniform(.2, 1.0)]); S.append("setdt a %r" % h)
        if e == "cfl": h = hs * rng.uniform(.2, 1.0); S.append("setcfl a %r" % (h / P))
        if e == "bad": S.append(rng.choice(["setdt a %s", "setcfl a %s"]) % rng.choice(["0", "-1", "nan", "-1e-9"]))
        if e == "scheme": sc = rng.choice(SINGLE); S += ["scheme %s %s" % (s, sc) for s in "ab"]
        scs.append(sc)
        S.append("dump a"); T.append(t)
        DT = hs * rng.choice([1, 2, 4, rng.uniform(.5, 6)]); S.append(deck.step_cmd("a", t, DT, x(t), v0)); u = 0.0
        while DT - u > 1e-9 * DT:
            q = min(h, DT - u); S.append(deck.step_cmd("b", t + u, q, x(t + u), v0)); u += q
        t += DT; S += ["dump a", "dump b"]; T.append(t)
    with vp.Scratch() as d: r = vp.execute(ctx.exe(), files, S, d, 60)
    if r.timeout: out.stat("slow"); return out
    if r.bad(): out.v("crash", "the run ended badly", r); return out
    if any(q["rc"] for q in r.recs if q["c"] in ("create", "init", "initnoic", "step", "scheme")): out.stat("refused"); return out
    da = [q for q in r.of("dump") if q["s"] == "a"]; db = [q for q in r.of("dump") if q["s"] == "b"]
    sets = iter([q for q in r.recs if q["c"] in ("setdt", "setcfl")]); cmds = iter([l for l in S if l.split()[0] in ("setdt", "setcfl")])
    for k, e in enumerate(tags):
        b4, mid, af = da[2 * k], da[2 * k + 1], da[2 * k + 2]; o = db[k + 1]
        if trace.speed(af) > trace.VMAX or trace.speed(o) > trace.VMAX: out.stat("cut at divergence"); break
        if e in ("dt", "cfl", "bad"):
            rec, cmd = next(sets), next(cmds); val = float(cmd.split()[2]); cur = b4 if k else None
            if e == "bad":
                if rec["rc"] == 0: out.v("accepted", "%s succeeded" % cmd, r); break
                if k and (mid["dt"], mid["cfl"]) != (b4["dt"], b4["cfl"]): out.v("changed", "%s failed but changed the step from %r to %r" % (cmd, b4["dt"], mid["dt"]), r); break
            else:
                if rec["rc"]: out.v("refused", "%s failed with %s" % (cmd, rec["rc"]), r); break
                g = mid["dt" if e == "dt" else "cfl"]
                if abs(g - val) > 1e-12 * val: out.v("reading", "%s reads back as %r" % (cmd, g), r); break
                if m.lines and not factor(mid["cfl"], mid["dt"], P): out.v("pair", "after %s the step reads %.12g s and the factor %.12g, the natural period is %.12g s" % (cmd, mid["dt"], mid["cfl"], P), r); break
        if k and e != "scheme" and far(m, b4, mid, 1.0) > 0 or e == "scheme" and far(m, b4, mid, 1.0) > 1e-9: out.v("state", "%s at t = %g moved the objects" % (e, T[2 * k + 1]), r); break
        w = far(m, af, o, T[2 * k + 2]); out.mx("step error", w)
        if w > 1e-6: out.v("effective", "%s: coupling step %d (%s) differs from its internal steps taken one by one by %.2g" % (scs[k], k, e, w), r); break
        out.ob(1, "effective|%s|%s|%s" % (scs[k], e, tagged(m)))
    return out

def deck_dofs(m):
    """3 for the translations and 0 for the rotations of the driven degrees of freedom"""
    return [3 if j < 3 else 0 for _k, _i, n in m.layout() for j in range(n)]

LOCAL = ["LEuler"]
def local(ctx, c):
    """local-timestep schemes take the new step of each line as one switched on afresh does"""
    out = vp.Out(); rng, m = base(ctx, c); m.opts["writeLog"] = 0; sc = m.opts["tScheme"] = rng.choice(LOCAL); hs = m.opts["dtM"] = deck.safe_dt(m, .1, .02)
    mot = deck.Motion(rng, m, amp=.2); S = ["create %s m.txt" % s for s in "ab"] + [deck.init_cmd(s, mot.x(0.0), mot.v(0.0)) for s in "ab"]; t = 0.0; P = min(period(m, i) for i in range(len(m.lines)))
    def go(n):
        nonlocal t
        for _ in range(n):
            h = hs * rng.choice([.25, 1, 2]); S.extend(deck.step_cmd(s, t, h, mot.x(t), mot.v(t)) for s in "ab"); t += h; S.extend("dump %s" % s for s in "ab")
    go(rng.randint(0, 3)); f = rng.choice([.5, .25, .1, .05]); how = rng.choice(["dt", "cfl"])
    S += ["setdt %s %r" % (s, hs * f) if how == "dt" else "setcfl %s %r" % (s, hs * f / P) for s in "ab"] + ["scheme b %s" % sc]; go(8)
    with vp.Scratch() as d: r = vp.execute(ctx.exe(), m.deck(), S, d, 60)
    if r.timeout: out.stat("slow"); return out
    if r.bad(): out.v("crash", "the run ended badly", r); return out
    if any(q["rc"] for q in r.recs if "rc" in q): out.stat("refused"); return out
    A, B = [[q for q in r.of("dump") if q["s"] == s] for s in "ab"]
    for k, (a, b) in enumerate(zip(A, B)):
        if trace.speed(a) > trace.VMAX: out.stat("cut at divergence"); break
        if far(m, a, b, 1.0) > 1e-7: out.v("local", "%s: after changing the step by %s, step %d differs from that of a scheme started with it by %.2g" % (sc, how, k, far(m, a, b, 1.0)), r); break
        out.ob(1, "local|%s|%s|%s" % (sc, how, tagged(m)))
    return out

def run(ctx):
    ctx.exe()
    ctx.map(options, [("o", i) for i in range(600 if ctx.quick else 6000)])
    ctx.map(effective, [("e", i) for i in range(900 if ctx.quick else 12000)])
    ctx.map(local, [("l", i) for i in range(500 if ctx.quick else 6000)])
    return ctx.finish()
