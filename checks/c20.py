"""C20: moving, turning, mirroring, renumbering a system, swapping line ends or adding an unconnected system transforms the run accordingly."""
import math, copy
import numpy as np
import vp, deck, phys, trace, rich
from trace import A

class Tr:
    def __init__(self):
        self.Q = np.eye(3); self.d = np.zeros(3); self.perm = {}; self.flip = set(); self.tag = []
    @property
    def det(self): return round(np.linalg.det(self.Q))

def rot(t):
    c, s = math.cos(t), math.sin(t); return np.array([[c, -s, 0], [s, c, 0], [0, 0, 1.0]])

def angles(R):
    """inverse of deck.euler (intrinsic x y z)"""
    b = math.asin(max(-1, min(1, R[0, 2]))); return [math.atan2(-R[1, 2], R[2, 2]), b, math.atan2(-R[0, 1], R[0, 0])]

def make(rng, m, kind, bathy, waves):
    T = Tr()
    if "move" in kind: T.d = np.array([rng.uniform(-500, 500), rng.uniform(-500, 500), 0.0]); T.tag.append("move")
    if "turn" in kind: T.Q = rot(rng.choice([.5, 1, 1.5]) * math.pi if bathy else rng.uniform(-3.1, 3.1)); T.tag.append("turn")
    if bathy: T.Q = np.round(T.Q)
    if "mirror" in kind: T.Q = T.Q @ np.diag([1.0, -1.0, 1.0]); T.tag.append("mirror")
    if "number" in kind:
        for k, L in (("B", m.bodies), ("R", m.rods), ("P", m.points), ("L", m.lines), ("LT", m.ltypes), ("RT", m.rtypes)):
            p = list(range(len(L))); rng.shuffle(p); T.perm[k] = p     # new index j holds old p[j]
        T.tag.append("number")
    if "flip" in kind: T.flip = {i for i in range(len(m.lines)) if rng.random() < .6}; T.tag.append("flip")
    return T

def apply(m, T):
    n = m.clone(); Q, d, det = T.Q, T.d, T.det; S = np.diag([1.0, -1.0, 1.0]); pos = lambda p: list(Q @ A(p) + d)
    loc = (lambda p: [p[0], -p[1], p[2]]) if det < 0 else list
    for b in n.bodies:
        R = deck.euler(np.radians(b["r6"][3:])); R2 = Q @ R @ S if det < 0 else Q @ R
        b["r6"] = pos(b["r6"][:3]) + list(np.degrees(angles(R2))); b["CG"] = loc(b["CG"])
    for p in n.points: p["r"] = loc(p["r"]) if deck.attbody(p["att"]) else pos(p["r"])
    for r in n.rods:
        for e in "ab": r[e] = loc(list(r[e])) if deck.attbody(r["att"]) else pos(r[e])
    for i in T.flip: l = n.lines[i]; l["A"], l["B"] = l["B"], l["A"]
    if T.perm:
        inv = {k: {o: j for j, o in enumerate(p)} for k, p in T.perm.items()}
        def att(a):
            b = deck.attbody(a)
            return a if not b else "Body%d%s" % (inv["B"][b - 1] + 1, "Pinned" if "PIN" in a.upper() else "")
        for r in n.rods: r["att"] = att(r["att"])
        for p in n.points: p["att"] = att(p["att"])
        for l in n.lines:
            for e in "AB":
                k, j, s = trace.end_of(l[e]); l[e] = str(inv["P"][j] + 1) if k == "P" else "R%d%s" % (inv["R"][j] + 1, s)
        for k, name in (("B", "bodies"), ("R", "rods"), ("P", "points"), ("L", "lines"), ("LT", "ltypes"), ("RT", "rtypes")):
            L = getattr(n, name); setattr(n, name, [L[o] for o in T.perm[k]])
    f = n.files
    if "current_profile.txt" in f:
        L = f["current_profile.txt"].split("\n")
        for i, l in enumerate(L):
            if i >= 3 and l.strip(): w = [float(x) for x in l.split()]; L[i] = "%r %s" % (w[0], deck.fmt(Q @ A(w[1:4])))
        f["current_profile.txt"] = "\n".join(L)
    if "wave_frequencies.txt" in f:
        L = []
        for l in f["wave_frequencies.txt"].split("\n"):
            if l.strip():
                w = [float(x) for x in l.split()]; h = Q @ A([math.cos(w[3]), math.sin(w[3]), 0]); L.append("%r %r %r %r" % (w[0], w[1], w[2], math.atan2(h[1], h[0])))
        f["wave_frequencies.txt"] = "\n".join(L) + "\n"
    if "bathy.txt" in f:
        xs, ys, dep = m.bathy; P = {}
        for i, x in enumerate(xs):
            for j, y in enumerate(ys): q = Q @ A([x, y, 0]) + d; P[(q[0], q[1])] = dep[i][j]
        X = sorted({p[0] for p in P}); Y = sorted({p[1] for p in P})
        n.bathy = (X, Y, [[P[(x, y)] for y in Y] for x in X])
        f["bathy.txt"] = "%d %d\n%s\n%s\n" % (len(X), len(Y), deck.fmt(X), deck.fmt(Y)) + "".join("%r %r %r\n" % (x, y, P[(x, y)]) for x in X for y in Y)
    return n

def blocks(m): 
    o, i = {}, 0
    for k, j, n in m.layout(): o[(k, j)] = (i, n); i += n
    return o

def drive(m, n, T, x, xd):
    """inputs of the transformed system"""
    bm, bn = blocks(m), blocks(n); X, V = np.zeros(len(x)), np.zeros(len(x))
    for (k, j), (i, c) in bn.items():
        o = T.perm[k][j] if T.perm else j; a, _ = bm[(k, o)]
        X[i:i + 3] = T.Q @ x[a:a + 3] + T.d; V[i:i + 3] = T.Q @ xd[a:a + 3]
        if c == 6:
            V[i + 3:i + 6] = T.det * (T.Q @ xd[a + 3:a + 6])
            X[i + 3:i + 6] = x[a + 3:a + 6] if k == "R" else [math.radians(q) for q in n.bodies[j]["r6"][3:]]
    return X, V

def tf(m, T, d):
    """what the transformed system should report, from the report of the original; same layout of keys"""
    Q, D, det = T.Q, T.d, T.det; q6 = np.zeros((6, 6)); q6[:3, :3] = Q; q6[3:, 3:] = det * Q
    vec = lambda v: A(v) @ Q.T
    P = lambda k, n: T.perm[k] if T.perm else list(range(n))
    o = {"L": [], "P": [], "R": [], "B": []}
    for i in P("L", len(d["lines"])):
        l = d["lines"][i]; s = -1 if i in T.flip else 1; r = lambda a: a[::s]
        o["L"].append({"pos": r(vec(l["pos"]) + D), "vel": r(vec(l["vel"])), "F": r(vec(l["F"])), "T": s * r(vec(l["T"])), "W": r(vec(l["W"])), "D": r(vec(l["D"])), "A": r(vec(l["A"])), "B": r(vec(l["B"])), "Bs": r(vec(l["Bs"])), "M": r(np.array([Q @ A(x).reshape(3, 3) @ Q.T for x in l["M"]])), "ul": A(l["ul"])})
    for i in P("P", len(d["points"])):
        p = d["points"][i]; o["P"].append({"pos": vec(p["pos"]) + D, "vel": vec(p["vel"]), "F": vec(p["F"]), "M": Q @ A(p["M"]).reshape(3, 3) @ Q.T})
    for i in P("R", len(d["rods"])):
        p = d["rods"][i]; o["R"].append({"pos": vec(p["pos"]) + D, "vel": vec(p["vel"]), "F": q6 @ A(p["F"]), "M": q6 @ A(p["M"]).reshape(6, 6) @ q6.T})
    S = np.diag([1.0, -1.0, 1.0])
    for i in P("B", len(d["bodies"])):
        p = d["bodies"][i]; R = deck.euler(A(p["ang"])); o["B"].append({"pos": vec(p["pos"]) + D, "vel": vec(p["vel"]), "om": det * vec(p["om"]), "R": Q @ R @ S if det < 0 else Q @ R, "F": q6 @ A(p["F"]), "M": q6 @ A(p["M"]).reshape(6, 6) @ q6.T})
    return o

def straight(p):
    return np.abs(p - np.linspace(p[0], p[-1], len(p))).max() < 1e-6

def nudge(m, j):
    """the same model with every given position and length changed by about 1e-9"""
    n = m.clone(); c = [7.0 * (j // 2)]; sg = (-1) ** j
    def w(): c[0] += 1.0; return 1e-9 * sg * math.sin(c[0])
    for b in n.bodies: b["r6"] = [q + w() for q in b["r6"]]
    for r in n.rods: r["a"] = [q + w() for q in r["a"]]; r["b"] = [q + w() for q in r["b"]]
    for p in n.points: p["r"] = [q + w() for q in p["r"]]
    for l in n.lines: l["L"] = float(l["L"]) + w()
    return n

def script(x, v, hs, T0):
    s = ["create a m.txt", deck.init_cmd("a", x[0], v[0]), "dump a"]
    for k, h in enumerate(hs): s += [deck.step_cmd("a", T0[k], h, x[k], v[k]), "dump a"]
    return s + ["close a"]

def case(ctx, c):
    out = vp.Out(); rng = ctx.rng(c)
    m = deck.rnd_model(rng, zfree=rng.random() < .4, nmax=6, small=rng.random() < .6)
    water = rng.choice(["still", "still", "current", "bathy", "airy", "current+airy", "current+bathy"]); phys.add_water(m, rng, water)
    m.opts["dtM"] = dt = deck.safe_dt(m, .08, .01); m.opts["tScheme"] = rng.choice(["Euler", "RK2", "RK4", "Heun", "AB3", "LEuler", "RK2"]); m.opts["writeLog"] = 0
    m.opts["WtrDpth"] += rng.choice([1e-4, .3])   # anchors just above the bed: whether a node exactly on it touches is left to the rounding
    for i, l in enumerate(m.lines):   # a stiff line folded back onto the rod it joins has no bending direction
        e = [trace.end_of(l[q]) for q in "AB"]
        if e[0][0] == "R" == e[1][0] and e[0][1] == e[1][1]: trace.ltype_of(m, i)["EI"] = 0.0
    mot = deck.Motion(rng, m, amp=.5, rot=0.0); n = rng.choice([3, 8])
    X = [mot.x(k * dt) for k in range(n + 1)]; V = [mot.v(k * dt) for k in range(n + 1)]; hs = [dt * rng.choice([1, 1, 2]) for _ in range(n)]
    t, x, T0, X = 0.0, mot.x(0.0), [], []
    V = []
    for h in hs: T0.append(t); X.append(x.copy()); V.append(mot.v(t)); x = x + mot.v(t) * h; t += h
    with vp.Scratch() as d: ref = vp.execute(ctx.exe(), m.deck(), script(X, V, hs, T0), d, 60)
    if ref.timeout: out.stat("slow"); return out
    if not phys.usable(ref, out, m): return out
    D0 = ref.of("dump"); S0 = ref.of("step")
    good = next((k for k in range(len(D0)) if trace.speed(D0[k]) > trace.VMAX), len(D0))
    EA = max(float(l["EA"]) for l in m.ltypes)
    kinds = ["move"] if not "airy" in water else []
    kinds += ["turn", "mirror", "number", "flip", "number+flip", "all", "other"]
    for kind in rng.sample(kinds, 3):
        if kind == "other": other(ctx, out, rng, m, X, V, hs, T0, ref, good); continue
        kk = kind if kind != "all" else "turn+mirror+number+flip" + ("+move" if "airy" not in water else "")
        T = make(rng, m, kk, "bathy" in water, "airy" in water); n2 = apply(m, T)
        dr = [drive(m, n2, T, a, b) for a, b in zip(X, V)]
        def go(model, xs):
            with vp.Scratch() as d: return vp.execute(ctx.exe(), model.deck(), script([q[0] for q in xs], [q[1] for q in xs], hs, T0), d, 60)
        r = go(n2, dr)
        if r.timeout: out.stat("slow"); continue
        if r.bad(): out.v("abnormal-end", r.bad(), r); continue
        D1 = r.of("dump"); i1 = (r.of("init") + r.of("initnoic"))[0]
        if i1["rc"] != 0 and T.flip: out.stat("end A of a line below the bed: refused"); continue
        if i1["rc"] != 0: out.v("refused", "%s: the transformed system is refused (%d), the original is not" % (kind, i1["rc"]), r); continue
        I = Tr(); pert = None
        for k in range(min(good, len(D0), len(D1))):
            a = tf(m, T, D0[k]); b = tf(n2, I, D1[k])
            fs = max([1.0] + [np.abs(x[q]).max() for kx in "LRPB" for x in a[kx] for q in ("F", "W", "T") if q in x])
            sc = {"pos": 1e-6, "vel": 1e-5, "om": 1e-5, "R": 1e-7, "ul": 1e-9, "f": 1e-6 * fs + EA * 1e-9}
            def D(a, b):
                a2 = {kx: [{q: (v if q != "M" else v / (1e-6 * np.abs(v).max() + 1e-9)) for q, v in x.items()} for x in a[kx]] for kx in a}
                b2 = {kx: [{q: (v if q != "M" else v / (1e-6 * np.abs(w["M"]).max() + 1e-9)) for q, v in x.items()} for x, w in zip(b[kx], a[kx])] for kx in b}
                w = (0.0, "")
                for kx in "LPRB":
                    for i, (x, y) in enumerate(zip(a2[kx], b2[kx])):
                        for q in x:
                            if k == 0 and q not in ("pos", "vel", "R", "om", "ul"): continue   # nothing has been evaluated yet
                            if x[q].shape != y[q].shape: return 1e9, "%s%d %s shape" % (kx, i + 1, q)
                            v = float(np.max(np.abs(x[q] - y[q]))) / (1.0 if q == "M" else sc.get(q, sc["f"]))
                            if not v <= w[0]: w = (v if v == v else 1e9, "%s%d %s" % (kx, i + 1, q))
                return w
            e, where = D(a, b); out.mx("deviation/tolerance", e); out.ob(1)
            if e > 1:
                if k == 0 and where.startswith("L") and straight(a["L"][int(where.split()[0][1:]) - 1]["pos"]) != straight(b["L"][int(where.split()[0][1:]) - 1]["pos"]): out.stat("initial shape not found by its solver in one of the two"); break
                if k == 0 and e < 3000 and where.startswith("L"): out.stat("initial shape within the tolerance of its solver"); break
                if pert is None:   # how far does a rounding-size change of the inputs carry?
                    pert = [go(nudge(m, j), [(q[0] + 1e-9 * (-1) ** j * np.sin(j // 2 + 1.0 + np.arange(len(q[0]))) * (~mot.rotdof), q[1]) for q in zip(X, V)]).of("dump") for j in range(6)]
                s = max(D(tf(m, I, D0[k]), tf(m, I, p[k]))[0] if k < len(p) else 1e9 for p in pert)
                if e > 1 + 300 * s: out.v("differs-" + kind, "%s: after %d steps %s is off by %.3g times the tolerance (%s, %s)" % ("+".join(T.tag), k, where, e, m.opts["tScheme"], water), r); break
                out.stat("ill-conditioned"); break
        out.ob(0, "%s|%s|%s" % (kind, water, "".join(sorted(set([deck.btype(b["att"])[:2] for b in m.bodies] + [deck.rtype_(b["att"])[:3] for b in m.rods])))))
    return out

def other(ctx, out, rng, m, X, V, hs, T0, ref, good):
    """an unconnected system appended: the first must not notice, bit for bit"""
    n = m.clone(); H = m.opts["WtrDpth"]
    o = deck.rnd_model(rng, nmax=4, small=True); nb, nr, npt = len(m.bodies), len(m.rods), len(m.points); z = H / o.opts["WtrDpth"]
    names = {}
    for L, M, p in ((o.ltypes, n.ltypes, "x"), (o.rtypes, n.rtypes, "y")):
        for t in L: t = dict(t); names[t["name"]] = p + t["name"]; t["name"] = p + t["name"]; M.append(t)
    sh = lambda p: [p[0] + 300, p[1] - 200, p[2] * min(z, 1.0)]
    still = lambda a: {"COUPLED": "Fixed", "CPLDPIN": "Fixed"}.get(a, None)
    def batt(a): b = deck.attbody(a); return "Body%d%s" % (b + nb, "Pinned" if "PIN" in a.upper() else "") if b else ("Fixed" if a.upper() in ("COUPLED", "CPLDPIN") else a)
    for b in o.bodies: b = copy.deepcopy(b); b["att"] = batt(b["att"]); b["r6"][:3] = sh(b["r6"]); n.bodies.append(b)
    for r in o.rods:
        r = copy.deepcopy(r); isb = deck.attbody(r["att"]); r["att"] = batt(r["att"]); r["rtype"] = names[r["rtype"]]
        if not isb: q = A(r["b"]) - A(r["a"]); r["a"] = sh(r["a"]); r["b"] = list(A(r["a"]) + q)
        n.rods.append(r)
    for p in o.points:
        p = copy.deepcopy(p); isb = deck.attbody(p["att"]); p["att"] = batt(p["att"])
        if not isb: p["r"] = sh(p["r"]); p["r"][2] = max(p["r"][2], -H + 12)
        n.points.append(p)
    for l in o.lines:
        l = dict(l); l["ltype"] = names[l["ltype"]]
        for e in "AB": k, j, s = trace.end_of(l[e]); l[e] = str(j + 1 + npt) if k == "P" else "R%d%s" % (j + 1 + nr, s)
        n.lines.append(l)
    if len(n.x0()) != len(m.x0()): out.stat("other not still"); return
    if n.opts["tScheme"].startswith("L"): n.opts["tScheme"] = "RK2"   # local schemes choose their steps over all the objects
    a = m.clone(); a.opts["tScheme"] = n.opts["tScheme"]; R = []
    for q in (a, n):
        with vp.Scratch() as d: R.append(vp.execute(ctx.exe(), q.deck(), script(X, V, hs, T0), d, 60))
    if R[0].timeout or R[1].timeout: out.stat("slow"); return
    for r in R:
        if r.bad(): out.v("abnormal-end", r.bad(), r); return
    i1 = R[1].of("initnoic")[0]
    if i1["rc"] or any(s["rc"] for s in R[1].of("step")): out.stat("other system failed"); return
    for k, (p, q) in enumerate(zip(R[0].of("dump"), R[1].of("dump"))):
        for key in ("lines", "points", "rods", "bodies"):
            for i, (u, v) in enumerate(zip(p[key], q[key])):
                if str(u) != str(v):
                    w = next(z for z in u if str(u[z]) != str(v[z])); out.v("other-system", "an unconnected system changes %s of %s %d after %d steps: %s and %s" % (w, key, i + 1, k, str(u[w])[:120], str(v[w])[:120]), R[1]); return
        out.ob(1)
    for p, q in zip(R[0].of("step"), R[1].of("step")):
        if p["f"] != q["f"]: out.v("other-system", "an unconnected system changes the returned forces", R[1]); return
    out.ob(1, "other|" + a.opts["tScheme"])

def run(ctx):
    ctx.exe()
    ctx.map(case, [("t", i) for i in range(2500 if ctx.quick else 20000)])
    return ctx.finish()
