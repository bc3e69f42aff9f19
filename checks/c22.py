"""C22: run-time control of line length, payout, stiffness and internal pressure."""
import numpy as np
import vp, deck, trace, ref, phys, c04, rich
from trace import A

class State:
    def __init__(self, m):
        self.ul = [float(l["L"]) for l in m.lines]; self.rate = [0.0] * len(m.lines); self.ea = [trace.ltype_of(m, i)["EA"] for i in range(len(m.lines))]
        self.pb = [0] * len(m.lines); self.pin = [np.zeros(l["N"] + 1) for l in m.lines]
    def copy(self):
        o = State.__new__(State); o.ul, o.rate, o.ea, o.pb, o.pin = list(self.ul), list(self.rate), list(self.ea), list(self.pb), list(self.pin); return o

def control(rng, m, s):
    """a random control call and its effect"""
    i = rng.randrange(len(m.lines)); l = m.lines[i]; k = rng.choice(["ul", "ulv", "ulv", "stop", "ea", "pb", "pint"])
    if k == "ul": s.ul[i] *= rng.uniform(.98, 1.06); return "setul a %d %r" % (i + 1, s.ul[i]), k
    if k == "ulv": s.rate[i] = rng.choice([rng.uniform(-.5, 2), rng.uniform(-.05, .05)]); return "setulv a %d %r" % (i + 1, s.rate[i]), k
    if k == "stop": s.rate[i] = 0.0; return "setulv a %d 0.0" % (i + 1), k
    if k == "ea":
        if not isinstance(s.ea[i], (int, float)): return "setea a %d %r" % (i + 1, rng.uniform(1e5, 1e7)), "ea of a table"
        s.ea[i] = float(s.ea[i]) * rng.uniform(.4, 1.6); return "setea a %d %r" % (i + 1, s.ea[i]), k
    if k == "pb": s.pb[i] = rng.randint(0, 1); return "pb a %d %d" % (i + 1, s.pb[i]), k
    s.pin[i] = A([rng.uniform(0, 5e6) for _ in range(l["N"] + 1)]); return "pint a %d %d %s" % (i + 1, l["N"] + 1, deck.fmt(s.pin[i])), k

def exact(ctx, c):
    """forces of every line in every evaluation, with the controls tracked"""
    out = vp.Out(); rng = ctx.rng(c); kind = rng.choice(phys.WATERS)
    m = deck.rnd_model(rng, zfree=rng.random() < .4, ei=rng.choice([None, True]), nmax=6, small=True)
    if not m.lines: return out
    if rng.random() < .2: c04.tables(rng, m)
    phys.add_water(m, rng, kind); dt = deck.safe_dt(m) * .8; n = 14 if ctx.quick else 40; mot = deck.Motion(rng, m, amp=.5)
    s = State(m); mid, hist, tags = {}, [], set()
    for k in range(n):
        mid[k] = []
        for _ in range(rng.choice([0, 0, 1, 1, 2, 4])): cmd, t = control(rng, m, s); mid[k].append(cmd); tags.add(t)
        hist.append(s.copy()); s.ul = [u + dt * r for u, r in zip(s.ul, s.rate)]
    hist.append(s.copy())
    run = phys.euler_run(ctx, m, mot, dt, n, rng, mid=mid)
    if not phys.usable(run, out, m): return out
    if any(r.get("rc") for r in run.recs if r.get("c") in ("setul", "setulv", "setea", "pb", "pint")): out.v("refused", "a control call on a line failed", run); return out
    env = ref.Env(m); base = [ref.Line(trace.ltype_of(m, i), l["L"], l["N"]) for i, l in enumerate(m.lines)]
    for p in trace.pairs(m, run, out=out):
        h = hist[p.k]
        for i, L in enumerate(base):
            L.UL = h.ul[i]; L.EA = float(h.ea[i]) if L.tab["EA"] is None else None; L.pb = bool(h.pb[i]); L.pin = h.pin[i]
            o = c04.check_line(m, i, L, env, p, out, run, curv=L.hasEI or L.pb)   # not updated while nothing needs it
            d = p.D["lines"][i]; want = h.ul[i] + p.dt * h.rate[i]
            if abs(d["ul"] - want) > 1e-9 * want: out.v("length", "line %d reads %.12g m after step %d, not %.12g (rate %g, step %g)" % (i + 1, d["ul"], p.k, want, h.rate[i], p.dt), run)
            if d["pb"] != h.pb[i]: out.v("pressure-flag", "line %d: bending by pressure reads %d, not %d" % (i + 1, d["pb"], h.pb[i]), run)
            if L.tab["EA"] is None and abs(d["ea"] / L.EA - 1) > 1e-9: out.v("stiffness", "line %d: the stiffness reads %.12g, not %.12g" % (i + 1, d["ea"], L.EA), run)
            if d["cea"] != (L.tab["EA"] is None): out.v("stiffness-kind", "line %d: constant stiffness reads %d" % (i + 1, d["cea"]), run)
            out.ob(1, "%s|%s" % (c04.shape(o, None, None), "table" if L.tab["EA"] is not None else "-"))
        if len(out["viol"]) >= 8: break
    for t in tags: out.ob(0, "exact|%s|%s" % (t, kind))
    return out

def schemes(ctx, c):
    """the length follows the rate over the simulated time with every scheme and any coupling step, and reads back as set"""
    out = vp.Out(); rng = ctx.rng(c); m = deck.rnd_model(rng, nmax=6, small=True)
    if not m.lines: return out
    m.opts["tScheme"] = sc = rng.choice(rich.SCHEMES); m.opts["writeLog"] = 0; dt = m.opts["dtM"] = deck.safe_dt(m, .05, .01); mot = deck.Motion(rng, m, amp=.3, rot=0.0)
    S = ["create a m.txt", deck.init_cmd("a", mot.x(0.0), mot.v(0.0)), "dump a L"]; s = State(m); exp = [s.copy()]; t = 0.0
    for k in range(10):
        for _ in range(rng.choice([0, 1, 1, 3])):
            cmd, _t = control(rng, m, s); S.append(cmd)
        if rng.random() < .3: S.append("dump a L"); exp.append(s.copy())      # reads back at once
        h = rng.choice([dt, dt, 2 * dt, .37 * dt, 3.3 * dt, 0.0]); S += [deck.step_cmd("a", t, h, mot.x(t), mot.v(t)), "dump a L"]; t += h
        s.ul = [u + h * r for u, r in zip(s.ul, s.rate)]; exp.append(s.copy())
    with vp.Scratch() as d: r = vp.execute(ctx.exe(), m.deck(), S + ["close a"], d, 60)
    if r.timeout: out.stat("slow"); return out
    if not phys.usable(r, out, m): return out
    if any(q["rc"] for q in r.of("step")): out.stat("step failed"); return out
    for k, (d, h) in enumerate(zip(r.of("dump"), exp)):
        for i, l in enumerate(d["lines"]):
            if abs(l["ul"] - h.ul[i]) > 1e-9 * h.ul[i]: out.v("length", "%s: line %d reads %.12g m at reading %d, not %.12g" % (sc, i + 1, l["ul"], k, h.ul[i]), r); return out
            if l["pb"] != h.pb[i] or (l["cea"] and abs(l["ea"] / float(h.ea[i]) - 1) > 1e-9): out.v("reading", "%s: line %d reads stiffness %r and pressure %d at reading %d, not %r and %d" % (sc, i + 1, l["ea"], l["pb"], k, h.ea[i], h.pb[i]), r); return out
        out.ob(1, "schemes|" + sc)
    return out

def run(ctx):
    ctx.exe()
    ctx.map(exact, [("e", i) for i in range(900 if ctx.quick else 15000)])
    ctx.map(schemes, [("s", i) for i in range(900 if ctx.quick else 8000)])
    return ctx.finish()
