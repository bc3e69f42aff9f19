"""C21: initialisation: driven objects where they were put, time zero, unmodified coefficients, an equilibrium when one is reported; deck poses and catenary shapes when skipped."""
import math, re, os
import numpy as np
import vp, deck, trace, phys
from trace import A

def catenary(X, Z, L, EA, w, bed):
    """nodes' (x(s), z(s)) of the elastic catenary through (0,0) and (X,Z), by Newton on log H and V; None if not found"""
    def shape(H, V, s):
        if bed and V < w * L:
            b = L - V / w; u = np.maximum(s - b, 0.0)
            return np.minimum(s, b) + H / w * np.arcsinh(w * u / H) + H * s / EA, H / w * (np.sqrt(1 + (w * u / H) ** 2) - 1) + w * u * u / (2 * EA)
        a = V - w * L
        return H / w * (np.arcsinh((a + w * s) / H) - math.asinh(a / H)) + H * s / EA, H / w * (np.sqrt(1 + ((a + w * s) / H) ** 2) - math.sqrt(1 + (a / H) ** 2)) + (a * s + w * s * s / 2) / EA
    end = np.array([L])
    def F(p):
        x, z = shape(math.exp(p[0]), p[1], end); return np.array([x[0] - X, z[0] - Z])
    T0 = w * L
    for lh in (0.0, -2.0, 2.0, -4.0, 4.0):
        for v0 in (.6, 1.2, .1, 3.0):
            p = np.array([math.log(T0) + lh, v0 * T0])
            try:
                f = F(p)
                for _ in range(80):
                    J = np.zeros((2, 2)); h = (1e-6, 1e-6 * T0)
                    for j in range(2): q = p.copy(); q[j] += h[j]; J[:, j] = (F(q) - f) / h[j]
                    d = np.linalg.solve(J, -f); t = min(1.0, 1.0 / max(1e-9, abs(d[0])))
                    while t > 1e-4:
                        q = p + t * d; g = F(q)
                        if np.linalg.norm(g) < np.linalg.norm(f): break
                        t /= 2
                    else: break
                    p, f = q, g
                    if np.linalg.norm(f) < 1e-9 * L: break
            except (np.linalg.LinAlgError, OverflowError, ValueError): continue
            if np.linalg.norm(f) < 1e-7 * L and not (bed and p[1] < 0): return lambda s: shape(math.exp(p[0]), p[1], s)
    return None

def line_shape(out, r, m, i, l, d, H):
    """starting shape of a line after skipping the equilibrium: straight, or the catenary between its ends"""
    P = A(d["lines"][i]["pos"]); n = len(P) - 1; L = float(l["L"]); t = trace.ltype_of(m, i)
    if n < 2: return
    s = np.linspace(0, 1, n + 1); lin = P[0] + np.outer(s, P[-1] - P[0])
    if np.abs(P - lin).max() < 1e-9 * L: out.ob(1, "straight"); return
    v = P[-1] - P[0]; X = math.hypot(v[0], v[1]); Z = v[2]
    if X < 1e-3: return
    side = np.abs((P[:, 0] - P[0, 0]) * v[1] - (P[:, 1] - P[0, 1]) * v[0]).max() / X
    if side > 1e-6 * L: out.v("shape-plane", "line %d starts %.3g m out of the vertical plane of its ends" % (i + 1, side), r); return
    x = ((P[:, 0] - P[0, 0]) * v[0] + (P[:, 1] - P[0, 1]) * v[1]) / X; z = P[:, 2] - P[0, 2]
    rho = m.opts.get("rho", 1025.0); g = m.opts.get("g", 9.80665); w = (float(t["w"]) - rho * math.pi / 4 * float(t["d"]) ** 2) * g
    bed = min(P[0, 2], P[-1, 2]) <= -H * (1 - 1e-5)
    if abs(w) < 1: out.stat("weightless line"); return
    wet = w
    if w < 0: z, Z, w, bed = -z, -Z, -w, False   # a floating line hangs upwards
    x, z = (x, z) if Z >= 0 else (X - x[::-1], (z - Z)[::-1])
    sol = catenary(X, abs(Z), L, float(t["EA"]), w, bed)
    if sol is None: out.stat("reference catenary not found"); return
    cx, cz = sol(s * L); e = max(np.abs(cx - x).max(), np.abs(cz - z).max()) / L; out.mx("catenary deviation/L", e)
    if e > 2e-3: out.v("shape", "line %d does not start on its catenary: %.3g of its length off (%s, %s, X %.4g Z %.4g L %.4g w %.4g EA %.3g)" % (i + 1, e, "on the bed" if bed else "suspended", "slack" if L > X + abs(Z) else "normal", X, Z, L, wet, float(t["EA"])), r)
    out.ob(1, "catenary|%s|%s" % (bed, L > math.hypot(X, Z)))

def skip(ctx, c):
    out = vp.Out(); rng = ctx.rng(c); m = deck.rnd_model(rng, nmax=12, small=rng.random() < .5, zfree=rng.random() < .3)
    m.opts["dtM"] = deck.safe_dt(m, .1, .01); m.opts["writeLog"] = 0
    x = m.x0(); v = np.zeros(len(x))
    with vp.Scratch() as d: r = vp.execute(ctx.exe(), m.deck(), ["create a m.txt", deck.init_cmd("a", x, v), "dump a", "close a"], d, 60)
    if r.timeout: out.stat("slow"); return out
    if r.bad(): out.v("abnormal-end", r.bad(), r); return out
    q = r.of("initnoic")[0]
    if q["rc"]: out.stat("refused"); return out
    d = r.of("dump")[0]; H = max([m.opts["WtrDpth"]] + [-p["r"][2] for p in m.points if deck.ptype(p["att"]) in ("FIXED", "COUPLED")])
    pose(out, r, m, d, None, "skipping the equilibrium")
    for i, l in enumerate(m.lines): line_shape(out, r, m, i, l, d, H)
    return out

def dirn(R, p): p = A(p); return R @ p

def pose(out, r, m, d, only, what):
    """poses of the objects of the deck (only: of these kinds of attachment)"""
    B = []
    for i, b in enumerate(m.bodies):
        g = d["bodies"][i]; R = deck.euler(np.radians(b["r6"][3:])); B.append((A(g["pos"]), deck.euler(A(g["ang"]))))
        ty = deck.btype(b["att"])
        if only and ty not in only: continue
        e = np.abs(A(g["pos"]) - A(b["r6"][:3])).max(); f = np.abs(deck.euler(A(g["ang"])) - R).max()
        if ty == "CPLDPIN" and only: f = 0.0
        if e > 1e-9 or f > 1e-9: out.v("pose-body", "%s: %s body %d is %.3g m and %.3g off its place" % (what, b["att"], i + 1, e, f), r)
        out.ob(1, "body " + ty)
    def place(att, p):
        k = deck.attbody(att)
        if not k: return A(p)
        return B[k - 1][0] + B[k - 1][1] @ A(p)
    for i, p in enumerate(m.points):
        ty = deck.ptype(p["att"])
        if only and ty not in only and not (deck.attbody(p["att"])): continue
        e = np.abs(A(d["points"][i]["pos"]) - place(p["att"], p["r"])).max()
        if e > 1e-9 * (1 + np.abs(A(p["r"])).max()): out.v("pose-point", "%s: %s point %d is %.3g m off its place" % (what, p["att"], i + 1, e), r)
        out.ob(1, "point " + ty)
    for i, p in enumerate(m.rods):
        ty = deck.rtype_(p["att"]); pin = "PIN" in ty
        if only and ty not in only and not deck.attbody(p["att"]): continue
        P = A(d["rods"][i]["pos"]); e = np.abs(P[0] - place(p["att"], p["a"])).max()
        if not (only and pin): e = max(e, np.abs(P[-1] - place(p["att"], p["b"])).max())
        if e > 1e-8: out.v("pose-rod", "%s: %s rod %d is %.3g m off its place" % (what, p["att"], i + 1, e), r)
        out.ob(1, "rod " + ty)
    for i, l in enumerate(m.lines):
        P = A(d["lines"][i]["pos"])
        for e, q in (("A", P[0]), ("B", P[-1])):
            k, j, s = trace.end_of(l[e]); w = A(d["points"][j]["pos"]) if k == "P" else A(d["rods"][j]["pos"])[0 if s == "A" else -1]
            if np.abs(q - w).max() > 1e-9 * (1 + np.abs(w).max()): out.v("pose-line", "%s: end %s of line %d is %.3g m off what it is attached to" % (what, e, i + 1, np.abs(q - w).max()), r)
    out.ob(1)

def ics(rng, m, dyn):
    m.opts["ICgenDynamic"] = dyn; m.opts["threshIC"] = 10 ** rng.uniform(-5, -3); m.opts["dtIC"] = rng.choice([.5, 1.0, 2.0]); m.opts["TmaxIC"] = rng.choice([1.0, 3.0, 10.0]); m.opts["CdScaleIC"] = rng.choice([1.0, 2.0, 4.0, 8.0, 16.0])

def general(ctx, c):
    """any system, either method: driven and fixed objects, the time, and the system afterwards is the one of the deck in that state"""
    out = vp.Out(); rng = ctx.rng(c); m = deck.rnd_model(rng, nmax=5, small=rng.random() < .7, zfree=rng.random() < .3)
    water = rng.choice(["still", "still", "current", "bathy", "airy"]); phys.add_water(m, rng, water)
    m.opts["dtM"] = dt = deck.safe_dt(m, .08, .01); m.opts["tScheme"] = rng.choice(["Euler", "RK2", "RK4"]); m.opts["writeLog"] = 0; m.opts["dtOut"] = 0.0
    ics(rng, m, rng.randint(0, 1)); mot = deck.Motion(rng, m, amp=.5, rot=0.0); x = mot.x(0.0); v = mot.v(0.0) * rng.randint(0, 1)
    if m.lines: m.outs = ["FairTen1"]
    n = 4; dt = 2.0 ** math.floor(math.log2(dt)); m.opts["dtM"] = dt; st = []
    for k in range(n): st += [deck.step_cmd("%s", k * dt, dt, x + v * dt * k, v).replace("%s", "@"), "dump @"]
    S = lambda s: [q.replace("@", s) for q in st]
    with vp.Scratch() as d:
        f = m.deck(); f["n.txt"] = f["m.txt"]
        r = vp.execute(ctx.exe(), f, ["create a m.txt", deck.init_cmd("a", x, v, True), "dump a", "save a s.bin"] + S("a") + ["close a", "create b n.txt", deck.init_cmd("b", x, v), "load b s.bin"] + S("b") + ["close b"], d, 120)
        try: rows = [q.split() for q in open(os.path.join(d, "m.out")).read().splitlines()]
        except OSError: rows = []
    if r.timeout: out.stat("slow"); return out
    if r.bad(): out.v("abnormal-end", r.bad(), r); return out
    if r.of("init")[0]["rc"]: out.stat("no equilibrium found: refused"); out.ob(0, "refused"); return out
    if any(q["rc"] for q in r.of("step")): out.stat("step failed"); return out
    D = r.of("dump"); what = "after the %s equilibrium" % ("dynamic" if m.opts["ICgenDynamic"] else "stationary")
    if trace.speed(D[0]) > trace.VMAX: out.stat("too fast"); return out
    pose(out, r, m2(m, x), D[0], ("FIXED", "COUPLED", "CPLDPIN"), what)
    T = [float(q[0]) for q in rows if q and re.match(r"^[-+0-9.]+(e[-+0-9]+)?$", q[0])]
    if rows and m.outs:
        want = [k * dt for k in range(1, n + 1)]; got = T[-n:]
        if len(got) != n or any(abs(p - q) > 1e-5 * max(1.0, q) for p, q in zip(got, want)): out.v("time", "%s the first steps are written at times %s, not %s" % (what, got, want), r)
        out.ob(1, "time")
    a, b = D[1:1 + n], D[1 + n:1 + 2 * n]
    for k, (p, q) in enumerate(zip(a, b)):
        for key in ("lines", "points", "rods", "bodies"):
            for i, (u, w) in enumerate(zip(p[key], q[key])):
                for z in u:
                    if str(u[z]) != str(w[z]):
                        e = np.abs(A(u[z]) - A(w[z])).max() / (1e-300 + np.abs(A(w[z])).max()); out.mx("after IC against deck in that state", e)
                        if e > 1e-7: out.v("altered", "%s (drag factor %g) %s of %s %d after %d steps differs by %.3g from a system of the same deck put into the same state" % (what, m.opts["CdScaleIC"], z, key, i + 1, k + 1, e), r); return out
        out.ob(1)
    out.ob(0, "general|%d|%s|%s" % (m.opts["ICgenDynamic"], water, "".join(sorted(set([deck.btype(b["att"])[:2] for b in m.bodies] + [deck.rtype_(b["att"])[:3] for b in m.rods])))))
    return out

def m2(m, x):
    """the model with the driven objects where x puts them"""
    n = m.clone(); o = 0
    for k, i, c in m.layout():
        q = list(x[o:o + c]); o += c
        if k == "B": n.bodies[i]["r6"][:3] = q[:3]; n.bodies[i]["r6"][3:] = n.bodies[i]["r6"][3:] if deck.btype(n.bodies[i]["att"]) == "CPLDPIN" else list(np.degrees(q[3:]))
        elif k == "R": r = n.rods[i]; u = A(r["b"]) - A(r["a"]); r["a"] = q[:3]; r["b"] = list(A(q[:3]) + u)
        else: n.points[i]["r"] = q[:3]
    return n

def gen(rng,kind):
    m=deck.Model(); H=rng.uniform(40,150); m.opts.update(WtrDpth=H,g=9.81,rho=1025.0)
    d=rng.uniform(.05,.2); A=math.pi/4*d*d
    m.ltype("lt0",d=d,w=rng.uniform(1.5,6)*1025*A,EA=10**rng.uniform(6,8),BA=-rng.choice([.5,.8,1.0]),Cd=rng.uniform(1,2),Ca=1.0,CdAx=rng.uniform(.05,.5),CaAx=0.0)
    W=(m.ltypes[0]["w"]-1025*A)*9.81*H
    n=rng.choice([3,4]); R=rng.uniform(.7,2)*H; N=rng.choice([5,8]); anch=[]
    z0=-rng.uniform(2,.3*H); a0=rng.uniform(0,6)
    for i in range(n): t=a0+2*math.pi*i/n; anch.append([R*math.cos(t),R*math.sin(t),-H])
    tl=rng.choice([1.0,1.02,1.05,1.08])
    def legs(att,pos):
        for i in range(n):
            q=m.point("Fixed",anch[i]); m.line("lt0",q,att(i),tl*np.linalg.norm(np.array(anch[i])-pos(i)),N)
    c=rng.uniform(-2,2),rng.uniform(-2,2)
    if kind=="point":
        p=m.point("Coupled",[c[0],c[1],z0]); legs(lambda i:p,lambda i:np.array([c[0],c[1],z0]))
    elif kind=="vessel" or kind=="buoy":
        ang=[rng.uniform(-20,20) for _ in range(3)] if kind=="buoy" else [0,0,rng.uniform(-180,180)]
        V=rng.uniform(5,10)*W/9.81/1025*n/3 
        m.body("Coupled" if kind=="vessel" else "Free",[c[0],c[1],z0]+ang,M=.3*V*1025,CG=(0,0,-.5),I=(.3*V*1025*2,)*3,V=V,CdA=(5.,5.,5.,50.,50.,50.),Ca=(1.,1.,1.))
        Rm=deck.euler(np.radians(ang)); fl=[]
        for i in range(n): t=a0+2*math.pi*i/n; r=np.array([2*math.cos(t),2*math.sin(t),0]); fl.append(r)
        for i in range(n): m.point("Body1",list(fl[i]))
        legs(lambda i:i+1,lambda i:Rm@fl[i]+np.array([c[0],c[1],z0]))
    elif kind=="float":
        V=rng.uniform(5,10)*W/9.81/1025*n/3
        p=m.point("Free",[c[0],c[1],z0],m=.3*V*1025,V=V,CdA=2.0,Ca=.5); legs(lambda i:p,lambda i:np.array([c[0],c[1],z0]))
    elif kind=="hang":
        p=m.point("Coupled",[0,0,-1]); L=.7*H; q=m.point("Free",[rng.uniform(-.3,.3)*H,0,-.6*H],m=rng.uniform(.5,3)*W/9.81,V=0.0,CdA=1.0,Ca=0.0); m.line("lt0",p,q,L,N)
    elif kind=="rod":
        m.rtype("rt0",d=.5,w=2000*math.pi/4*.25*rng.uniform(.8,2)); m.rod("rt0",rng.choice(["Coupled","Pinned","CpldPin","CpldPin"]),[0,0,-2],[rng.uniform(-5,5),3,-8],4)
        q=m.point("Fixed",[R,0,-H]); m.line("lt0",q,"R1B",tl*np.linalg.norm([R,0,H-8.]),N)
    return m

def held(ctx, c):
    """moorings: where an equilibrium is reported, holding the driven objects still keeps the tensions"""
    out = vp.Out(); rng = ctx.rng(c); kind = ["point", "vessel", "buoy", "float", "hang", "rod"][c[1] // 2 % 6]; m = gen(rng, kind); dyn = c[1] % 2
    m.opts["dtM"] = deck.safe_dt(m, .06, .02); m.opts["tScheme"] = "RK4"; m.opts["writeLog"] = 2
    m.opts["ICgenDynamic"] = dyn; m.opts["threshIC"] = th = 10 ** rng.uniform(-5, -3.5); m.opts["dtIC"] = H = rng.choice([.5, 1.0]); m.opts["TmaxIC"] = rng.choice([20, 60]); m.opts["CdScaleIC"] = rng.choice([1.0, 4.0, 10.0])
    x = m.x0(); z = np.zeros(len(x)); sc = ["create a m.txt", deck.init_cmd("a", x, z, True), "dump a", deck.step_cmd("a", 0, 1e-4, x, z), "dump a"]
    for k in range(8): sc += [deck.step_cmd("a", 1e-4 + k * H / 4, H / 4, x, z), "dump a"]
    with vp.Scratch() as d:
        r = vp.execute(ctx.exe(), m.deck(), sc + ["close a"], d, 120)
        try: log = open(os.path.join(d, "m.log")).read()
        except OSError: log = ""
    if r.timeout: out.stat("slow"); return out
    if r.bad(): out.v("abnormal-end", r.bad(), r); return out
    if r.of("init")[0]["rc"]: out.stat("no equilibrium found: refused"); return out
    D = r.of("dump"); pose(out, r, m, D[0], ("FIXED", "COUPLED", "CPLDPIN"), "after the equilibrium")
    if any(q["rc"] for q in r.of("step")): out.stat("step failed"); return out
    T = [np.array([np.linalg.norm(l["T"][e]) for l in d["lines"] for e in (0, -1)]) for d in D[1:]]; dv = max(np.abs(t - T[0]).max() for t in T) / T[0].max()
    if dyn:
        if "did not converge" in log or "tensions converged" not in log: out.stat("dynamic: no convergence reported"); return out
        out.mx("drift/threshold", dv / th); out.ob(1, "held|dynamic|" + kind)
        # free objects may still be on their way under steady tensions
        if kind in ("point", "vessel") and dv > 1000 * th + 5e-3: out.v("not-settled", "%s: convergence to %.2g reported, but the tensions change by %.3g of the largest when held for %g s" % (kind, th, dv, 2 * H), r)
    else:
        e = re.search(r"Remaining error after (\S+) s = (\S+)", log)
        if not e: out.v("no-report", "%s: the remaining error is not reported" % kind, r); return out
        e = float(e.group(2)); out.ob(1, "held|stationary|" + kind)
        if e > .05: out.stat("stationary: not settled, as reported"); return out
        out.mx("drift per m/s2", dv / (e + 1e-5))
        if dv > 20 * e + 1e-3: out.v("not-settled", "%s: a remaining acceleration of %.3g m/s2 reported, but the tensions change by %.3g of the largest when held for %g s" % (kind, e, dv, 2 * H), r)
    return out

def stop(ctx, c):
    """dynamic relaxation: the moment it stops at, against relaxations cut short around that moment"""
    out = vp.Out(); rng = ctx.rng(c); kind = ["point", "vessel", "buoy", "float", "hang", "rod"][c[1] % 6]; m = gen(rng, kind)
    m.opts["dtM"] = deck.safe_dt(m, .06, .02); m.opts["tScheme"] = "RK4"; m.opts["writeLog"] = 2; m.opts["ICgenDynamic"] = 1
    m.opts["threshIC"] = th = 10 ** rng.uniform(-4, -1); m.opts["dtIC"] = H = rng.choice([.5, 1.0]); h = H / 10; m.opts["TmaxIC"] = rng.choice([10, 40]); m.opts["CdScaleIC"] = rng.choice([1.0, 4.0, 10.0])
    x = m.x0(); z = np.zeros(len(x))
    with vp.Scratch() as d:
        r = vp.execute(ctx.exe(), m.deck(), ["create a m.txt", deck.init_cmd("a", x, z, True), "dump a", "close a"], d, 120)
        try: log = open(os.path.join(d, "m.log")).read()
        except OSError: log = ""
    if r.timeout: out.stat("slow"); return out
    if r.bad(): out.v("abnormal-end", r.bad(), r); return out
    if r.of("init")[0]["rc"]: out.stat("no equilibrium found: refused"); return out
    e = re.search(r"Remaining error after (\S+) s = (\S+)%", log)
    if not e: out.v("no-report", "%s: the remaining error is not reported" % kind, r); return out
    t, err = float(e.group(1)), float(e.group(2)) / 100; K = int(round(t / h)); conv = "did not converge" not in log
    if K < 12: out.stat("relaxation too short"); return out
    files, sc = {}, []
    for j in range(11):
        m.opts.update(threshIC=1e-300, TmaxIC=(K - j - .5) * h, writeLog=0); f = m.deck(); files.update(f); files["m%d.txt" % j] = f["m.txt"]
        sc += ["create b%d m%d.txt" % (j, j), deck.init_cmd("b%d" % j, x, z, True), "dump b%d" % j, "close b%d" % j]
    with vp.Scratch() as d: q = vp.execute(ctx.exe(), files, sc, d, 240)
    if q.timeout: out.stat("slow"); return out
    if q.bad() or any(i["rc"] for i in q.of("init")): out.v("cut-relaxation", "%s: relaxations cut short near %g s fail: %s %s" % (kind, t, q.bad(), [i["rc"] for i in q.of("init")]), q); return out
    D = q.of("dump"); T = [np.array([np.linalg.norm(l["T"][-1]) for l in o["lines"]]) for o in D]; R = r.of("dump")[0]
    out.ob(1, "stop|%s|%s|%s" % (kind, "converged" if conv else "time limit", "1" if len(m.lines) == 1 else "n"))
    for key in ("lines", "points", "rods", "bodies"):
        for a, b in zip(R[key], D[0][key]):
            if not np.allclose(np.ravel(a["pos"]), np.ravel(b["pos"]), 1e-9, 1e-9): out.v("stop-state", "%s: the relaxation that stopped at %g s and the one cut there differ: %s %s" % (kind, t, a["pos"], b["pos"]), q); return out
    win = lambda k: max(float(np.abs(T[k] / T[k + i] - 1).max()) for i in range(1, 10))
    got = win(0); out.mx("reported/observed tension change - 1", abs(err / got - 1) if got > 1e-5 else 0)
    if conv and got > th * 1.02: out.v("stop-early", "%s: convergence to %.3g reported, but the fairlead tensions changed by %.3g within the last %g s" % (kind, th, got, H), q)
    if conv and K > 12 and win(1) < th * .98: out.v("stop-late", "%s: the fairlead tensions had changed by only %.3g within the %g s before %g s, threshold %.3g, and the relaxation went on" % (kind, win(1), H, t - h, th), q)
    if abs(err - got) > .02 * got + 1e-6: out.v("stop-report", "%s: a change of %.4g reported, %.4g observed" % (kind, err, got), q)
    return out

def rest(ctx, c):
    """nothing acts on a neutral object; a pendulum or a body with its weight low does not move away from its rest"""
    out = vp.Out(); rng = ctx.rng(c); m = deck.Model(); rho = rng.choice([1000.0, 1024.0]); m.opts.update(WtrDpth=200.0, g=rng.choice([9.81, 4.0]), rho=rho)
    kind = rng.choice(["body", "rod", "pendulum", "righting", "pinbody"]); ang = [rng.uniform(-60, 60), rng.uniform(-60, 60), rng.uniform(-170, 170)]
    pos = [rng.uniform(-9, 9), rng.uniform(-9, 9), rng.uniform(-150, -30)]; up = np.array([0, 0, 1.0])
    if kind in ("body", "righting", "pinbody"):
        V = 2.0 ** rng.randint(-2, 3); h = 0.0 if kind == "body" else rng.uniform(.1, 1.0)
        m.body("CpldPin" if kind == "pinbody" else "Free", pos + ang, M=rho * V, CG=(0, 0, -h), I=[rng.uniform(.2, 3) * rho * V + rho * V * h * h] * 2 + [rho * V], V=V, CdA=(1., 1., 1., 2., 2., 2.), Ca=(.5, .5, .5))
        if kind == "body" and rng.random() < .5: m.point("Body1", [1.0, 0, 2.0])
    else:
        d = .5; m.rtype("rt", d=d, w=rho * math.pi / 4 * d * d * (1.0 if kind == "rod" else rng.choice([.3, 2.0, 4.0])), Cd=1.0, Ca=1.0, CdEnd=0.5, CaEnd=0.5)
        v = deck.euler(np.radians(ang)) @ np.array([0, 0, -1.0]) * rng.uniform(3, 12)
        m.rod("rt", "Free" if kind == "rod" else rng.choice(["Pinned", "CpldPin"]), pos, list(A(pos) + v), rng.choice([2, 5]))
    m.opts["dtM"] = .01; m.opts["writeLog"] = 0; m.opts["tScheme"] = rng.choice(["RK2", "Heun", "Euler", "AB2"]); ics(rng, m, dyn := rng.randint(0, 1))
    x = m.x0(); z = np.zeros(len(x))
    with vp.Scratch() as d: r = vp.execute(ctx.exe(), m.deck(), ["create a m.txt", deck.init_cmd("a", x, z, True), "dump a", deck.step_cmd("a", 0, 1e-4, x, z), "dump a", "close a"], d, 60)
    if r.timeout: out.stat("slow"); return out
    if r.bad(): out.v("abnormal-end", r.bad(), r); return out
    if r.of("init")[0]["rc"]: out.v("refused", "%s: initialisation fails (%d)" % (kind, r.of("init")[0]["rc"]), r); return out
    for d in r.of("dump")[:2]:
        what = "%s, %s equilibrium" % (kind, "dynamic" if dyn else "stationary")
        if kind in ("body", "rod"):
            if kind == "body": b = d["bodies"][0]; e = max(np.abs(A(b["pos"]) - A(pos)).max(), np.abs(deck.euler(A(b["ang"])) - deck.euler(np.radians(ang))).max())
            else: P = A(d["rods"][0]["pos"]); e = max(np.abs(P[0] - A(pos)).max(), np.abs(P[-1] - A(m.rods[0]["b"])).max())
            if e > 1e-5: out.v("moved", "%s: a neutral object nothing acts on has moved by %.3g" % (what, e), r); break
        elif not dyn:
            if kind == "pendulum":
                P = A(d["rods"][0]["pos"]); u = (P[-1] - P[0]) / np.linalg.norm(P[-1] - P[0]); u0 = (A(m.rods[0]["b"]) - A(pos)); u0 /= np.linalg.norm(u0); s = 1.0 if m.rtypes[0]["w"] < rho * math.pi / 4 * .25 else -1.0
                a, b = s * u[2], s * u0[2]
            else: a, b = (deck.euler(A(d["bodies"][0]["ang"])) @ up)[2], (deck.euler(np.radians(ang)) @ up)[2]
            if a < b - 1e-6: out.v("away", "%s: it has moved away from its rest (cosine of the angle to it %.6g, %.6g before)" % (what, a, b), r); break
        out.ob(1, "rest|%s|%d" % (kind, dyn))
    return out

def run(ctx):
    ctx.exe()
    ctx.map(held, [("h", i) for i in range(120 if ctx.quick else 1200)])
    ctx.map(stop, [("c", i) for i in range(72 if ctx.quick else 1500)])
    ctx.map(rest, [("r", i) for i in range(400 if ctx.quick else 4000)])
    ctx.map(skip, [("s", i) for i in range(1500 if ctx.quick else 20000)])
    ctx.map(general, [("g", i) for i in range(600 if ctx.quick else 10000)])
    return ctx.finish()
