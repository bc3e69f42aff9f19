"""C06: rods."""
import numpy as np
import vp, deck, trace, ref, phys, c04
from trace import A, close
from deck import rtype_, attbody, euler

def ends_of_rod(m, j, D):
    out = {"A": [], "B": []}
    for i, l in enumerate(m.lines):
        for e, n in (("A", 0), ("B", -1)):
            k, jj, re_ = trace.end_of(l[e])
            if k == "R" and jj == j: out[re_].append((A(D["lines"][i]["F"][n]), A(D["lines"][i]["M"][n]).reshape(3, 3)))
    return out["A"], out["B"]

def line_moments(m, j, E):
    """moments of the cantilevered line ends on rod j in the evaluated state E"""
    M, tol = np.zeros(3), 0.0
    for i, l in enumerate(m.lines):
        for n, e in enumerate("AB"):
            if trace.end_of(l[e])[:2] != ("R", j): continue
            x, t = ref.end_moment(ref.Line(trace.ltype_of(m, i), l["L"], l["N"]), A(E["lines"][i]["pos"]), trace.line_q(m, i, E)[n], e); M = M + x; tol += t
    return M, tol

def rod_eval(m, j, env, p):
    E, wkr = p.E["rods"][j], p.wk["R"][j]; r = m.rods[j]; R = ref.Rod(trace.rtype_of(m, j), r["a"], r["b"], r["N"])
    w = A(wkr); pos, vel = A(E["pos"]), A(E["vel"]); N = R.N
    deps = np.where(np.isnan(w[:, 8]), -env.H, w[:, 8])
    q = (pos[N] - pos[0]) / np.linalg.norm(pos[N] - pos[0]) if N else np.zeros(3)
    env.depth = lambda x, y, _d={(round(a[0], 7), round(a[1], 7)): b for a, b in zip(pos, deps)}: _d[(round(x, 7), round(y, 7))]
    a, b = ends_of_rod(m, j, p.D); mom, tol = line_moments(m, j, p.E)
    o = ref.rod_rhs(R, env, pos[0], pos[N], vel[0], vel[N], q, w[:, :3], w[:, 3:6], w[:, 6], w[:, 7], a, b, mom); o["mtol"] = tol
    return R, o

def case(ctx, c):
    out = vp.Out(); rng = ctx.rng(c)
    kind = phys.WATERS[c % len(phys.WATERS)]
    m = deck.rnd_model(rng, zfree=rng.random() < .6, nmax=5, small=c % 3 != 0)
    phys.add_water(m, rng, kind)
    dt = deck.safe_dt(m); n = 10 if ctx.quick else 40
    mot = deck.Motion(rng, m, amp=rng.choice([.5, 3.0]))
    run = phys.euler_run(ctx, m, mot, dt, n, rng)
    if not phys.usable(run, out, m): return out
    env = ref.Env(m); st = {}; dead = set()
    for p in trace.pairs(m, run, out=out):
        for j, r in enumerate(m.rods):
            if not r["N"]: continue
            E, D, S = p.E["rods"][j], p.D["rods"][j], p.S["rods"][j]
            R, o = rod_eval(m, j, env, p)
            tag = "rod %d (%s) step %d" % (j + 1, r["att"], p.k)
            def cmp(key, got, want, at, rt=1e-7):
                ok, e = close(got, want, rt, at); out.mx(key, e * rt); out.ob(1)
                if not ok: out.v("rod-" + key, "%s: %s observed %s, model %s" % (tag, key, np.array2string(A(got), precision=9), np.array2string(A(want), precision=9)), run)
            if o["margin"] < 1e-9: dead.add(j)      # on a branch of the submergence model: either side is right
            if j in dead: continue
            sc = np.abs(o["F6"]).max() + R.w * R.L * env.g + 1e8 * o["mtol"]
            t = rtype_(r["att"]); b = attbody(r["att"])
            M = A(D["M"]).reshape(6, 6)
            cmp("mass", M, o["M6"], 1e-9 * np.abs(o["M6"]).max())
            out.ob(1, "%s|%s|N%d|%s" % (kind, t + ("b" if b else ""), min(R.N, 3), "dry" if (o["vof"] == 0).all() else "wet" if (o["vof"] == 1).all() else "part"))
            F = o["F6"]
            if t not in ("COUPLED", "CPLDPIN"): cmp("force", D["F"], F, 1e-8 * sc)      # loads of driven rods: C08
            # motion, from the observed mass and force (the model's force where the reported one includes inertia)
            if t in ("FREE", "CPLDPIN") or (t == "PINNED" and not b):
                if j not in st: st[j] = [np.array([1.0, 0, 0, 0]), np.zeros(3)]
                qt, w = st[j]; Ff = A(D["F"]) if t != "CPLDPIN" else F
                if t == "FREE":
                    a = np.linalg.solve(M, Ff); al = a[3:]
                    cmp("velocity", D["vel"][0], A(S["vel"][0]) + p.dt * a[:3], 1e-9 * (1 + np.abs(p.dt * a).max()))
                    cmp("position", D["pos"][0], A(S["pos"][0]) + p.dt * A(S["vel"][0]), 1e-9)
                else:
                    a0 = np.zeros(3) if t == "PINNED" else (A(E["vel"][0]) - A(S["vel"][0])) / p.dt
                    al = np.linalg.solve(M[3:, 3:], Ff[3:] - M[3:, :3] @ a0)
                    if t == "PINNED": cmp("position", D["pos"][0], S["pos"][0], 1e-9); cmp("velocity", D["vel"][0], np.zeros(3), 1e-12)
                qt = qt + p.dt * ref.qdot(qt, w); w = w + p.dt * al; st[j] = [qt, w]
                q = ref.qmat(qt) @ R.q0
                cmp("direction", (A(D["pos"][R.N]) - A(D["pos"][0])) / R.L, q, 1e-8)
                ws = np.abs(w).max() + 1
                cmp("spin", (A(D["vel"][R.N]) - A(D["vel"][0])) / R.L, np.cross(w, q), 1e-7 * ws)
    return out

def zmodel(rng):
    """clamps and joints of zero length, with lines of bending stiffness"""
    m = deck.Model(); deck.rnd_env(rng, m); H = m.opts["WtrDpth"]
    lts = [deck.rnd_ltype(rng, m, "lt%d" % i, ei=rng.random() < .85) for i in range(2)]
    if rng.random() < .4: c04.tables(rng, m)
    m.rtype("rt", d=rng.uniform(.1, 1), w=rng.uniform(10, 500), Cd=rng.uniform(0, 1), Ca=rng.uniform(0, 1), CdEnd=0.0, CaEnd=0.0)
    if rng.random() < .5:
        m.body(rng.choice(["Free", "Coupled", "Fixed"]), deck.vec_in(rng, (-10, -10, -.5 * H), (10, 10, -8)) + [rng.uniform(-40, 40) for _ in range(3)], M=rng.uniform(500, 5000), I=[rng.uniform(1e3, 1e4) for _ in range(3)], V=1.0, CdA=[1.0] * 6, Ca=[.5] * 3)
    for _ in range(rng.randint(1, 3)):
        att = rng.choice(["Free", "Free", "Fixed", "Coupled", "Pinned"] + (["Body1"] * 3 if m.bodies else []))
        d = deck.unit(rng) * rng.choice([1.0, rng.uniform(.1, 8)])
        if att == "Body1": b = m.bodies[0]; rel = deck.vec_in(rng, (-3, -3, -3), (3, 3, 3)); g = A(b["r6"][:3]) + euler(np.radians(b["r6"][3:])) @ A(rel); m.rod("rt", att, rel, list(d), 0)
        else: g = A(deck.vec_in(rng, (-20, -20, -.7 * H), (20, 20, -8))); m.rod("rt", att, list(g), list(d), 0)
        for k in range(rng.randint(2, 3) if att == "Free" else rng.randint(1, 2)):
            a = g + rng.uniform(5, 25) * deck.unit(rng); a[2] = min(max(a[2], -H), -2); f = str(m.point(rng.choice(["Fixed", "Fixed", "Coupled"]), list(a)))
            ends = ["R%d%s" % (len(m.rods), "AB"[k % 2] if att == "Free" else rng.choice("AB")), f]; rng.shuffle(ends)
            m.line(rng.choice(m.ltypes)["name"], ends[0], ends[1], float(np.linalg.norm(a - g)) * rng.uniform(.97, 1.3), rng.randint(2, 6))
    return m

def joint(m, j, Ls, lines, ends):
    """direction in which the bending moments of the lines on the free joint j balance; lines: node positions, ends: line states for the curvature"""
    s = np.zeros(3)
    for i, l in enumerate(m.lines):
        for e in "AB":
            k, jj, re_ = trace.end_of(l[e])
            if (k, jj) != ("R", j) or not Ls[i].hasEI: continue
            r = A(lines[i]); n, d = (0, r[1] - r[0]) if e == "A" else (-1, r[-1] - r[-2]); h = np.linalg.norm(d)
            if Ls[i].EI is not None: EI = Ls[i].EI
            else:
                xs, ys = Ls[i].tab["EI"]; K = ends[i][n]; EI = np.interp(K, xs, ys) / K if K else (ys[1] - ys[0]) / (xs[1] - xs[0])
            s = s + (1 if (e == "B") == (re_ == "A") else -1) * d / h * EI / h
    return s / np.linalg.norm(s) if np.linalg.norm(s) else s

def zcase(ctx, c):
    out = vp.Out(); rng = ctx.rng(c); m = zmodel(rng); kind = phys.WATERS[c[1] % len(phys.WATERS)]; phys.add_water(m, rng, kind)
    dt = deck.safe_dt(m, .1, .005); n = 10 if ctx.quick else 40; mot = deck.Motion(rng, m, amp=rng.choice([.5, 3.0]))
    run = phys.euler_run(ctx, m, mot, dt, n, rng, flavor="asan" if c[1] % 6 == 0 else "plain")
    if not phys.usable(run, out, m): return out
    env = ref.Env(m); Ls = [ref.Line(trace.ltype_of(m, i), l["L"], l["N"]) for i, l in enumerate(m.lines)]; prev = None
    for p in trace.pairs(m, run, out=out):
        dr = trace.driven(m, p.x, p.xd); cand = {}
        for j, r in enumerate(m.rods):
            t = rtype_(r["att"]); b = attbody(r["att"]); d0 = A(r["b"]) / np.linalg.norm(r["b"])
            if b: q = [euler(A(p.E["bodies"][b - 1]["ang"])) @ d0]
            elif t == "COUPLED": q = [euler(A(dr["R"][j][0])[3:]) @ d0]
            elif t == "FIXED": q = [d0]
            else:
                # the joint is turned before or after the interior nodes of its lines are moved
                now = [o["pos"] for o in p.E["lines"]]; old = [[x[0]] + y[1:-1] + [x[-1]] for x, y in zip(now, prev or now)]
                q = [joint(m, j, Ls, x, [o["curv"] for o in p.S["lines"]]) for x in (old, now)]
            cand[j] = q
        if prev is None and any(len(q) > 1 for q in cand.values()): prev = [o["pos"] for o in p.E["lines"]]; continue
        best = None
        for w in (0, 1):
            for j, q in cand.items(): p.E["rods"][j]["zq"] = q[min(w, len(q) - 1)]
            o2 = vp.Out()
            for i in range(len(m.lines)): c04.check_line(m, i, Ls[i], env, p, o2, run)
            for j, r in enumerate(m.rods):
                t = rtype_(r["att"]); D = p.D["rods"][j]; a, b = ends_of_rod(m, j, p.D); F = sum(f for f, _ in a + b); M = sum(x for _, x in a + b)
                mom, tol = line_moments(m, j, p.E); o2.ob(1, "zero-length %s|%d lines|%s|%s" % (r["att"].rstrip("1"), len(a + b), kind, "table" if any(L.tab["EI"] is not None for L in Ls) else "EI"))
                if t == "COUPLED": continue          # the reported force includes the inertia: C08
                sc = sum(np.abs(f).max() for f, _ in a + b) + 1e-3
                ok, e = close(A(D["F"])[:3], F, 1e-7, 1e-8 * sc)
                if not ok: o2.v("joint-force", "zero-length rod %d (%s) step %d: force %s, sum of its line ends %s" % (j + 1, r["att"], p.k, D["F"][:3], F.tolist()), run)
                ok, e = close(A(D["F"])[3:], mom, 1e-6, 1e-7 * (sc + np.abs(mom).max()) + 4 * tol)
                if not ok and t == "FIXED": o2.v("joint-moment", "zero-length rod %d (%s) step %d: moment %s, that of its lines %s" % (j + 1, r["att"], p.k, D["F"][3:], mom.tolist()), run)
                if t == "FREE":
                    S = p.S["rods"][j]; acc = np.linalg.solve(M, F); v1 = A(S["vel"][0]) + p.dt * acc; r1 = A(S["pos"][0]) + p.dt * A(S["vel"][0])
                    if not (close(D["vel"][0], v1, 1e-8, 1e-9 + 1e-8 * np.abs(v1).max())[0] and close(D["pos"][0], r1, 1e-9, 1e-9)[0]):
                        o2.v("joint-motion", "zero-length rod %d step %d at %s %s, model %s %s" % (j + 1, p.k, D["pos"][0], D["vel"][0], r1.tolist(), v1.tolist()), run)
            if best is None or len(o2["viol"]) < len(best["viol"]): best = o2
            if not best["viol"]: break
        out.merge(best); prev = [o["pos"] for o in p.E["lines"]]
        if len(out["viol"]) >= 4: break
    return out

def any_case(ctx, c): return zcase(ctx, c) if isinstance(c, tuple) else case(ctx, c)

def run(ctx):
    ctx.exe(); ctx.exe("asan")
    ctx.map(any_case, list(range(1200 if ctx.quick else 20000)) + [("z", k) for k in range(500 if ctx.quick else 8000)])
    return ctx.finish()
