"""C27: scheduled line failures: which lines come off, from where, when, and what happens to both sides afterwards."""
import numpy as np
import vp, deck, trace, ref, phys, c04, c05, c06, c08, rich
from trace import A, close
from deck import attbody

def attach(m):
    """attachment (kind, index, rod end) -> [(line, end)]"""
    o = {}
    for i, l in enumerate(m.lines):
        for e in "AB": o.setdefault(trace.end_of(l[e]), []).append((i, e))
    return o

def name_of(rng, a):
    k, j, e = a
    if k == "P": return rng.choice(["%d", "P%d", "Point%d", "C%d", "Con%d"]) % (j + 1)
    return rng.choice(["R%d%s", "Rod%d%s"]) % (j + 1, rng.choice([e, e.lower()]))

def plan(rng, m, T):
    """random failures over the time T: [(attachment, lines, time)] in deck order"""
    at = {a: [i for i, _ in v if [x for x, _ in v].count(i) == 1] for a, v in attach(m).items()}
    at = {a: v for a, v in at.items() if v}; fs = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        a = rng.choice(sorted(at, key=str)); ls = rng.sample(at[a], rng.randint(1, len(at[a])))
        t = rng.choice([rng.uniform(.1, .9) * T, rng.uniform(.1, .9) * T, rng.choice([fs[-1][2] if fs else .4 * T, 0.0, 10 * T])])
        fs.append((a, ls, t))
    return fs

def after(m, f):
    """the model once failure f has happened; None when nothing is left to detach"""
    a, ls, _ = f; m2 = m.clone(); hit = []
    for i in ls:
        for e in "AB":
            if trace.end_of(m2.lines[i][e]) == a: m2.lines[i][e] = str(len(m.points) + 1); hit.append((i, e))
    if not hit: return None, []
    m2.point("Free", [0, 0, 0]); return m2, hit

def kin(D, a):
    k, j, e = a
    if k == "P": o = D["points"][j]; return A(o["pos"]), A(o["vel"])
    o = D["rods"][j]; n = 0 if e == "A" else o["N"]; return A(o["pos"][n]), A(o["vel"][n])

def structure(out, run, m, D, tag):
    """attachments reported and kinematics shared, against the model"""
    if len(D["points"]) != len(m.points):
        out.v("failure-count", "%s: %d points, %d expected" % (tag, len(D["points"]), len(m.points)), run); return False
    for j, P in enumerate(m.points):
        want = sorted((i + 1, 0 if e == "A" else 1) for i, l in enumerate(m.lines) for e in "AB" if trace.end_of(l[e])[:2] == ("P", j))
        got = sorted((a, 1 if b == 1 else 0) for a, b in D["points"][j]["att"]); out.ob(1)
        if want != got: out.v("failure-attached", "%s: point %d carries %s, should carry %s" % (tag, j + 1, got, want), run); return False
    for i, l in enumerate(m.lines):
        for e, n in (("A", 0), ("B", l["N"])):
            x, v = kin(D, trace.end_of(l[e])); o = D["lines"][i]; out.ob(1)
            if not (np.abs(A(o["pos"][n]) - x).max() <= 1e-9 * (1 + np.abs(x).max()) and np.abs(A(o["vel"][n]) - v).max() <= 1e-9 * (1 + np.abs(v).max())):
                out.v("failure-end", "%s: end %s of line %d at %s %s, its attachment %s at %s %s" % (tag, e, i + 1, o["pos"][n], o["vel"][n], l[e], x, v), run); return False
    return True

def history(out, run, m, fs, dumps, steps, kind):
    """follows the failures along the dumps; -> the model in force after each dump (list), failing attachments per step"""
    ms = [m]; hits = []; done = set(); cur = m
    if not structure(out, run, m, dumps[0], "before any failure"): return None, None
    for k, s in enumerate(steps):
        if s["rc"] or k + 1 >= len(dumps) or trace.speed(dumps[k + 1]) > trace.VMAX: break
        new = set(); t = s["t"]
        for q, f in enumerate(fs):
            if q in done or not 0 < f[2] <= t: continue
            done.add(q); m2, hit = after(cur, f)
            if m2 is None: out.stat("failure of lines already detached"); continue
            new.add(f[0]); cur = m2; n = len(cur.points) - 1
            out.ob(1, "%s|%s%s|%d of %d lines|%s" % (kind, f[0][0], deck.up((m.points if f[0][0] == "P" else m.rods)[min(f[0][1], (len(m.points) if f[0][0] == "P" else len(m.rods)) - 1)]["att"])[:4], len(hit), len(attach(m).get(f[0], [])), "+".join(sorted({e for _, e in hit}))))
            if n < len(dumps[k + 1]["points"]):
                x, v = kin(dumps[k + 1], f[0]); o = dumps[k + 1]["points"][n]
                if not (np.abs(A(o["pos"]) - x).max() <= 1e-9 * (1 + np.abs(x).max()) and np.abs(A(o["vel"]) - v).max() <= 1e-9 * (1 + np.abs(v).max())):
                    out.v("failure-kinematics", "step %d: the freed ends start at %s %s, their attachment was at %s %s" % (k, o["pos"], o["vel"], x, v), run); return None, None
        tag = "step %d, t = %r, failures %s" % (k, t, [(a, l, ft) for a, l, ft in fs])
        if not structure(out, run, cur, dumps[k + 1], tag): return None, None
        ms.append(cur); hits.append(new)
    return ms, hits

def force(ctx, c):
    """loads on both sides after the failure, Euler scheme"""
    out = vp.Out(); rng = ctx.rng(c); kind = phys.WATERS[c[1] % len(phys.WATERS)]
    m = deck.rnd_model(rng, zfree=rng.random() < .5, nmax=5, small=True)
    c05.hub(rng, m); phys.add_water(m, rng, kind)
    dt = deck.safe_dt(m); n = 12 if ctx.quick else 40
    fs = plan(rng, m, n * dt); m.fails = [(name_of(rng, a), ",".join(str(i + 1) for i in ls), repr(t), 0) for a, ls, t in fs]
    mot = deck.Motion(rng, m, amp=rng.choice([.5, 3.0]))
    run = phys.euler_run(ctx, m, mot, dt, n, rng)
    if not phys.usable(run, out, m): return out
    dumps, wks, steps, xs = trace.parse_steps(run)
    ms, hits = history(out, run, m, fs, dumps, steps, kind)
    if ms is None: return out
    env = ref.Env(m); last = mot.v(0.0); lay = c08.lay_of(m)
    Ls = [ref.Line(trace.ltype_of(m, i), l["L"], l["N"]) for i, l in enumerate(m.lines)]
    for p in trace.pairs(m, run, out=out, at=lambda k, st: ms[min(k, len(ms) - 1)]):
        if p.k >= len(hits): break
        M = p.m; hit = hits[p.k]
        for i in range(len(M.lines)): c04.check_line(M, i, Ls[i], env, p, out, run, curv=False)
        # the attachment that loses lines in this very step: what it reports is from before or after
        sk = {a[1] for a in hit if a[0] == "P"}; bodies = {attbody(m.points[j]["att"]) for j in sk if j < len(m.points)} | {attbody(m.rods[a[1]]["att"]) for a in hit if a[0] == "R"}
        c05.judge(M, env, p, out, run, kind, skip=sk)
        c08.judge(M, env, p, out, run, kind, lay, last, skip={a[:2] for a in hit} | {("B", b - 1) for b in bodies if b})
        for j, r in enumerate(M.rods):
            if not r["N"] or deck.rtype_(r["att"]) in ("COUPLED", "CPLDPIN") or any(a[:2] == ("R", j) for a in hit): continue
            R, o = c06.rod_eval(M, j, env, p)
            if o["margin"] < 1e-9: continue
            ok, e = close(p.D["rods"][j]["F"], o["F6"], 1e-7, 1e-8 * (np.abs(o["F6"]).max() + R.w * R.L * env.g + 1e8 * o["mtol"])); out.ob(1)
            if not ok: out.v("failure-rod-force", "rod %d step %d: force %s, model %s" % (j + 1, p.k, p.D["rods"][j]["F"], o["F6"].tolist()), run)
        last = p.xd
        if out["viol"]: break
    return out

def schemes(ctx, c, fine=1):
    """which, when and where with every time scheme and uneven steps; a run that diverges is repeated with a finer inner step"""
    out = vp.Out(); rng = ctx.rng(c); m = deck.rnd_model(rng, zfree=rng.random() < .5, nmax=4, small=True); c05.hub(rng, m)
    kind = rng.choice(["still", "current", "airy"]); phys.add_water(m, rng, kind)
    sch = rng.choice(rich.SCHEMES); dtM = deck.safe_dt(m, .3, .01); steps = [dtM * rng.choice([1, 1, 2, 2.5, 5]) for _ in range(rng.randint(4, 12))]
    fs = plan(rng, m, sum(steps)); m.fails = [(name_of(rng, a), ",".join(str(i + 1) for i in ls), repr(t), rng.choice([0, 1e12])) for a, ls, t in fs]
    m.opts.update(dtM=dtM / fine, tScheme=sch, writeLog=0)
    mot = deck.Motion(rng, m, amp=1.0); x = A(mot.x(0.0)).copy(); t = 0.0
    s = ["create a m.txt", deck.init_cmd("a", x, mot.v(0.0)), "dump a"]
    for h in steps: v = mot.v(t); s += [deck.step_cmd("a", t, h, x, v), "dump a"]; x = x + v * h; t += h
    with vp.Scratch() as d: run = vp.execute(ctx.exe("asan" if c[1] % 5 == 0 else "plain"), m.deck(), s + ["close a"], d, 180)
    if not phys.usable(run, out, m): return out
    dumps, _, st, _ = trace.parse_steps(run)
    for k, r in enumerate(st):
        if r["rc"] == -4 and fine == 1: return schemes(ctx, c, 16)
        if r["rc"] == -4 and not sch.startswith(("rk", "heun")): out.stat("scheme diverged"); return out
        if r["rc"] and trace.speed(dumps[k]) <= trace.VMAX: out.v("step-failed", "%s: step %d of a sane state failed with %d; failures %s" % (sch, k, r["rc"], fs), run); return out
    history(out, run, m, fs, dumps, st, sch)
    return out

def any_case(ctx, c): return force(ctx, c) if c[0] == "f" else schemes(ctx, c)

def run(ctx):
    ctx.exe(); ctx.exe("asan")
    a, b = (700, 700) if ctx.quick else (12000, 12000)
    ctx.map(any_case, [("f", k) for k in range(a)] + [("s", k) for k in range(b)])
    return ctx.finish()
