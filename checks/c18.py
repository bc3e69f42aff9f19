"""C18: the output files hold the requested channels, at the right instants, with the values the API reports there."""
import math, os, re
import numpy as np
import vp, deck, trace, ref, phys, rich
from trace import A
UNITS = {"P": "(m)", "R": "(deg)", "V": "(m/s)", "RV": "(deg/s)", "A": "(m/s2)", "RA": "(deg/s2)", "F": "(N)", "M": "(Nm)", "T": "(N)", "S": "(frac)"}
XYZ = "XYZ"
SIG = 6e-6

def request(rng, m, n):
    """-> [(word as written, parsed channel or None when it names nothing that exists)]"""
    o = []
    case = rng.choice([str.upper, str.upper, str.lower, str.capitalize])
    for _ in range(n):
        k = rng.choice("LLLLFAPPRRRBBX")
        if k == "L":
            i = rng.randrange(len(m.lines)); N = m.lines[i]["N"]
            q = rng.choice(["P", "V", "F", "T", "TEN", "TA", "TENA", "TB", "TENB"])
            w = q + rng.choice(XYZ) if len(q) == 1 and q != "T" else q
            c = rng.choice("nabz")
            node = {"n": "N%d" % rng.randint(0, N), "a": "NA", "b": "NB", "z": ""}[c]; nd = {"n": node[1:], "a": 0, "b": N, "z": 0}[c]
            if node in ("NA", "NB", "") and q in ("TA", "TENA", "TB", "TENB") and node: node = ""
            o.append((case(rng.choice(["L", "LINE"])) + "%d" % (i + 1) + case(node) + case(w), ("L", i, int(nd), w)))
        elif k in "FA":
            i = rng.randrange(len(m.lines)); o.append((case("FAIRTEN" if k == "F" else "ANCHTEN") + "%d" % (i + 1), ("L", i, m.lines[i]["N"] if k == "F" else 0, "T")))
        elif k == "P" and m.points:
            i = rng.randrange(len(m.points)); q = rng.choice("PVFAT"); w = q + rng.choice(XYZ) if q != "T" else rng.choice(["T", "TEN"])
            o.append((case(rng.choice(["P", "POINT"])) + "%d" % (i + 1) + case(w), ("P", i, None, w)))
        elif k == "R" and m.rods:
            i = rng.randrange(len(m.rods)); N = m.rods[i]["N"]; c = rng.choice("zznab")
            if c == "z":
                q = rng.choice(["P", "V", "F", "M", "RX", "RY", "RV", "TENA", "TENB", "TA", "TB", "SUB", "A"])
                if q == "RV":   # both rates in one go
                    o += [(case("ROD") + "%d" % (i + 1) + case("RVX"), ("R", i, None, "RVX")), (case("R") + "%d" % (i + 1) + case("RVY"), ("R", i, None, "RVY"))]; continue
                w = q + rng.choice(XYZ) if len(q) == 1 else q
                o.append((case(rng.choice(["R", "ROD"])) + "%d" % (i + 1) + case(w), ("R", i, None, w)))
            else:
                node = {"n": "N%d" % rng.randint(0, N), "a": "NA", "b": "NB"}[c]; nd = {"n": node[1:], "a": 0, "b": N}[c]; w = rng.choice("PV") + rng.choice(XYZ)
                o.append((case(rng.choice(["R", "ROD"])) + "%d" % (i + 1) + case(node) + case(w), ("R", i, int(nd), w)))
        elif k == "B" and m.bodies:
            i = rng.randrange(len(m.bodies)); q = rng.choice(["P", "R", "V", "RV", "F", "M", "A", "RA", "TEN"]); w = q + rng.choice(XYZ) if q != "TEN" else q
            o.append((case(rng.choice(["B", "BODY"])) + "%d" % (i + 1) + case(w), ("B", i, None, w)))
        elif k == "X":
            o.append((rng.choice(["L%dN1PX" % (len(m.lines) + 1), "P%dPX" % (len(m.points) + 3), "R%dPX" % (len(m.rods) + 1), "B%dRX" % (len(m.bodies) + 1), "L1N%dPX" % (m.lines[0]["N"] + 1), "FAIRTEN%d" % (len(m.lines) + 2), "Q1PX", "L1N1ZZ"]), None))
    return o

def units_of(ch):
    w = ch[3]
    if w.startswith("T"): return "(N)"
    if w == "SUB": return "(frac)"
    return UNITS[w[:-1]]

def value(ch, d, prev, m, dt, euler):
    """value expected from the API dump; None where the API does not say"""
    k, i, nd, w = ch; c = XYZ.find(w[-1]) if w != "SUB" and not w.startswith("T") else -1
    if k == "L":
        o = d["lines"][i]; n = o["N"]
        if w in ("TA", "TENA"): return np.linalg.norm(A(o["F"][0]))
        if w in ("TB", "TENB"): return np.linalg.norm(A(o["F"][n]))
        if w in ("T", "TEN"): return np.linalg.norm(A(o["F" if nd in (0, n) else "T"][nd]))
        return o[{"P": "pos", "V": "vel", "F": "F"}[w[0]]][nd][c]
    if k == "P":
        o = d["points"][i]
        if w in ("T", "TEN"): return np.linalg.norm(A(o["F"]))
        if w[0] == "A":
            p = m.points[i]
            if deck.ptype(p["att"]) != "FREE" or deck.attbody(p["att"]): return 0.0
            return (o["vel"][c] - prev["points"][i]["vel"][c]) / dt if euler and prev else None
        return o[{"P": "pos", "V": "vel", "F": "F"}[w[0]]][c]
    if k == "R":
        o = d["rods"][i]; N = o["N"]
        if nd is not None: return o["pos" if w[0] == "P" else "vel"][nd][c]
        if w in ("RX", "RY"):
            if not N: return None
            q = A(o["pos"][N]) - A(o["pos"][0]); q /= np.linalg.norm(q)
            phi, b = math.atan2(math.hypot(q[0], q[1]), q[2]), math.atan2(q[1], q[0])
            return math.degrees(-phi * math.sin(b) if w == "RX" else phi * math.cos(b))
        if w[0] == "P": return o["pos"][0][c]
        if w[0] == "V": return o["vel"][0][c]
        if w[0] == "A": return (o["vel"][0][c] - prev["rods"][i]["vel"][0][c]) / dt if euler and prev and deck.rtype_(m.rods[i]["att"]) == "FREE" else None
        if w[0] == "F": return o["F"][c]
        if w[0] == "M": return o["F"][3 + c]
        if w[0] == "T":
            f = np.zeros(3); e = "B" if w[-1] == "B" else "A"
            for j, l in enumerate(m.lines):
                for s, n in (("A", 0), ("B", m.lines[j]["N"])):
                    z = trace.end_of(l[s])
                    if z[0] == "R" and z[1] == i and (z[2] == e): f += A(d["lines"][j]["F"][n])
            return np.linalg.norm(f)
        return None
    o = d["bodies"][i]
    if w.startswith("RV"): return math.degrees(o["om"][c])
    if w[0] == "R" and len(w) == 2: return math.degrees(o["ang"][c])
    if w[0] == "P": return o["pos"][c]
    if w[0] == "V": return o["vel"][c]
    if w[0] == "F": return o["F"][c]
    if w[0] == "M": return o["F"][3 + c]
    if w[0] == "A" and not w.startswith("RA"):
        t = deck.btype(m.bodies[i]["att"])
        if t == "FREE": return (o["vel"][c] - prev["bodies"][i]["vel"][c]) / dt if euler and prev else None
    if w.startswith("RA") and deck.btype(m.bodies[i]["att"]) == "FREE": return math.degrees((o["om"][c] - prev["bodies"][i]["om"][c]) / dt) if euler and prev else None
    if w in ("T", "TEN") and deck.btype(m.bodies[i]["att"]) == "FREE": return np.linalg.norm(A(o["F"][:3]))
    return None

def due(t, dt, dtOut, exact):
    """True / False / None when rounding decides"""
    if dtOut <= 0: return True
    a, b = (t - dt) / dtOut, t / dtOut
    for x in (a, b):
        if abs(x - round(x)) < 1e-9 and not exact: return None
    return math.floor(a) != math.floor(b)

def parse(txt): return [[w.strip() for w in l.split("\t") if w.strip()] for l in txt.split("\n") if l.strip()]

def num(w):
    try: return float(w)
    except ValueError: return None

def agree(w, x, atol=0.0):
    g = num(w)
    if g is None: return False
    if x != x: return g != g
    return abs(g - x) <= SIG * max(abs(x), abs(g)) + atol + 1e-300

FL = "pKvUDtcsdb"
NAMES = {"p": ("Node", 0, ("px", "py", "pz"), "(m)"), "K": ("Node", 0, ("Ku",), "(1/m)"), "v": ("Node", 0, ("vx", "vy", "vz"), "(m/s)"), "U": ("Node", 0, ("Ux", "Uy", "Uz"), "(m/s)"), "D": ("Node", 0, ("Dx", "Dy", "Dz"), "(N)"),
         "t": ("Seg", 1, ("Te",), "(N)"), "c": ("Seg", 1, ("cx", "cy", "cz"), "(N)"), "s": ("Seg", 1, ("St",), "(-)"), "d": ("Seg", 1, ("dSt",), "(-/s)"), "b": ("Node", 0, ("bx", "by", "bz"), "(N)"), "f": ("Node", 0, ("Fx", "Fy", "Fz"), "(N)")}

def rows_of(out, run, what, T, names, units, wantunits, times):
    """checks header, units and the instants; -> rows by step index"""
    if not T or [w.upper() for w in T[0]] != [w.upper() for w in names]:
        out.v("header", "%s: columns %s, requested %s" % (what, T[0][:12] if T else None, names[:12]), run); return None
    h = 1
    if wantunits:
        if len(T) < 2 or T[1] != units: out.v("units", "%s: units %s, of the channels %s" % (what, T[1][:12] if len(T) > 1 else None, units[:12]), run); return None
        h = 2
    R = T[h:]
    for r in R:
        if len(r) != len(names): out.v("row-width", "%s: a row of %d values under %d columns" % (what, len(r), len(names)), run); return None
    j = 0; res = {}
    for k, t, must in times:
        here = j < len(R) and agree(R[j][0], t, 1e-12)
        if here and must is False and j + 1 < len(R) and agree(R[j + 1][0], t, 1e-12): here = False
        if must is True and not here: out.v("row-missing", "%s: no row for t=%r (row %d is at %s)" % (what, t, j, R[j][0] if j < len(R) else "the end"), run); return None
        if must is False and here: out.v("row-extra", "%s: a row at t=%r, which is no output instant" % (what, t), run); return None
        if here: res[k] = R[j]; j += 1
        out.ob(1)
    if j != len(R): out.v("row-extra", "%s: %d rows more than output instants, the first at %s" % (what, len(R) - j, R[j][0]), run); return None
    return res

def line_values(m, i, flags, L, env, pair, d, out):
    """expected row of a line file; None for the values the trace does not give"""
    o = d["lines"][i]; N = o["N"]; res = []; R = None
    if pair is not None and set(flags) & set("tcsdU"):
        w = A(pair.wk["L"][i])
        if set(flags) & set("tcsd"):
            E = pair.E["lines"][i]; r, v = A(E["pos"]), A(E["vel"]); deps = np.where(np.isnan(w[:, 8]), -env.H, w[:, 8])
            env.depth = lambda x, y, _d={(a[0], a[1]): b for a, b in zip(r, deps)}: _d[(x, y)]
            qA, qB = trace.line_q(m, i, pair.E); z = lambda q: q if not isinstance(q, str) else np.zeros(3)
            R = ref.line_rhs(L, env, r, v, w[:, :3], w[:, 3:6], w[:, 6], w[:, 7], z(qA), z(qB)); seg = r[1:] - r[:-1]; qs = seg / R["ls"][:, None]
            l = L.UL / N; rate = np.einsum("ij,ij->i", qs, v[1:] - v[:-1]) / l
    scale = np.abs(A(o["T"])).max() + np.abs(A(o["F"])).max()
    for f in FL:
        if f not in flags: continue
        if f in "pvb": V, at = A(o[{"p": "pos", "v": "vel", "b": "B"}[f]]).ravel(), 0.0
        elif f == "K": V, at = A(o["curv"]), 0.0
        elif f == "D": V, at = (A(o["D"]) + A(o["A"])).ravel(), 1e-9 * (1 + np.abs(A(o["D"])).max())
        elif f == "U": V, at = (w[:, :3].ravel() if pair is not None else None), 1e-9
        elif R is None: V, at = None, 0
        elif f == "t": V, at = R["Tseg"], 1e-7 * scale
        elif f == "c": V, at = (R["Tdseg"][:, None] * qs).ravel(), 1e-7 * scale
        elif f == "s": V, at = R["ls"] / l - 1, 1e-9
        elif f == "d": V, at = rate, 1e-9
        n = len(NAMES[f][2]) * (N + 1 if NAMES[f][0] == "Node" else N)
        res += [(f, None if V is None else V[q], at) for q in range(n)]
    return res

def case(ctx, c):
    out = vp.Out(); rng = ctx.rng(c)
    m = deck.rnd_model(rng, zfree=rng.random() < .5, nmax=6, small=rng.random() < .5, pins=True, allow_zero_rod=False)
    phys.add_water(m, rng, rng.choice(phys.WATERS))
    euler = rng.random() < .6
    dt = 2.0 ** math.floor(math.log2(deck.safe_dt(m, .1, .01)))
    exact = rng.random() < .7; dt *= 1 if exact else .9
    dtOut = rng.choice([0, 0, 0, dt, 2 * dt, 2.5 * dt, 3 * dt, 5 * dt, .5 * dt])
    if dtOut: m.opts["dtOut"] = dtOut
    elif rng.random() < .3: m.opts["dtOut"] = 0
    wu = rng.choice([None, 0, 1, 1]); 
    if wu is not None: m.opts["WriteUnits"] = wu
    wu = 1 if wu is None else wu
    req = request(rng, m, rng.choice([0, 1, 3, 8, 20])); chans = [(w, ch) for w, ch in req if ch]
    m.outs = []
    i = 0
    while i < len(req):   # one or several per line
        n = rng.choice([1, 1, 1, 2, 4]); m.outs.append(" ".join(w for w, _ in req[i:i + n])); i += n
    for l in m.lines:
        fl = rng.choice(["-", "p", "v", "t", "c", "s", "d", "U", "D", "pt", "tcsd", "pvUDtcsd", "pvUDtcsdbK", "Kbp", None])
        if fl is None: fl = "".join(rng.sample("pvUDtcsd", rng.randint(1, 8)))
        l["out"] = fl
    for r in m.rods: r["out"] = rng.choice(["-", "p", "v", "pv", "vp"])
    if not euler: m.opts["tScheme"] = rng.choice(rich.SCHEMES[:14]); m.opts["dtM"] = dt / rng.choice([1, 1, 2])
    else: m.opts["tScheme"] = "Euler"; m.opts["dtM"] = dt * rng.choice([1, 1, 4.0])
    m.opts["writeLog"] = rng.choice([0, 1])
    mot = deck.Motion(rng, m, amp=.5); ns = rng.choice([4, 8, 15])
    if euler: hs = [dt] * ns
    else: hs = [dt * rng.choice([1, 1, 1, 2, 3, .5]) for _ in range(ns)]
    s = ["create a m.txt"]; x = mot.x(0.0); s += [deck.init_cmd("a", x, mot.v(0.0), rng.random() < .2), "dump a", "wk a"]; t = 0.0; T0 = []
    for h in hs:
        xd = mot.v(t); s += [deck.step_cmd("a", t, h, x, xd), "dump a", "wk a"]; x = x + xd * h; T0.append((t, h)); t += h
    early = rng.random() < .1   # the files are complete up to the last step also before the system is closed: they are read after
    s.append("close a")
    with vp.Scratch() as dd:
        run = vp.execute(ctx.exe(), m.deck(), s, dd, 120)
        files = {f: open(os.path.join(dd, f)).read() for f in os.listdir(dd) if f.endswith(".out") and f.startswith("m") and not f.startswith("m_Body")}
    if run.timeout: out.stat("slow"); return out
    if not phys.usable(run, out, m): return out
    dumps, wks, steps, xs = trace.parse_steps(run)
    pr = trace.pairs(m, run, out=out) if euler else None
    ok = next((k for k, st in enumerate(steps) if st["rc"] != 0), len(steps))
    nk = min([k for k in range(len(dumps)) if trace.speed(dumps[k]) > trace.VMAX] + [len(dumps) - 1, ok])
    if pr is not None: nk = min(nk, len(pr))
    if ok < len(steps): out.stat("failed steps"); return out
    ic = not (m.opts.get("dtOut") or 0) > 0
    times = ([(0, 0.0, True)] if ic else []) + [(k + 1, a + h, due(a + h, h, m.opts.get("dtOut") or 0, exact)) for k, (a, h) in enumerate(T0)]
    # which files there are
    want = {"m.out"} | {"m_Line%d.out" % (i + 1) for i, l in enumerate(m.lines) if set(l["out"]) & set("pvUDctsd")} | {"m_Rod%d.out" % (i + 1) for i, r in enumerate(m.rods) if set(r["out"]) & set("pv")}
    if set(files) != want: out.v("files", "output files %s, requested %s" % (sorted(files), sorted(want)), run); return out
    # main file
    names = ["Time"] + [w for w, _ in chans]; un = ["(s)"] + [units_of(ch) for _, ch in chans]
    rows = rows_of(out, run, "main file", parse(files["m.out"]), names, un, wu, times)
    if rows is None: return out
    for k, r in sorted(rows.items()):
        if k > nk: continue
        d = dumps[k]; prev = dumps[k - 1] if k else None; h = hs[k - 1] if k else None; rv = {}
        for j, (w, ch) in enumerate(chans):
            key = ch[0] + (" node " if ch[2] is not None else " ") + re.sub("[XYZ]$", "", ch[3])
            if ch[3] in ("RVX", "RVY") and ch[0] == "R": rv.setdefault(ch[1], {})[ch[3]] = num(r[j + 1]); continue
            if ch[3] == "SUB":
                g = num(r[j + 1]); out.ob(1, "R SUB")
                if g is None or not -1e-9 <= g <= 1 + 1e-9: out.v("value", "%s at t=%s is %s, not a fraction" % (w, r[0], r[j + 1]), run)
                continue
            v = value(ch, d, prev, m, h, euler)
            if v is None: out.stat("not comparable"); continue
            sc = 0.0
            if ch[3][0] in "A" or ch[3][:2] == "RA": sc = 1e-7 * (1 + np.abs(A(prev["points"][ch[1]]["vel"] if ch[0] == "P" else prev["bodies"][ch[1]]["vel"] + [60 * q for q in prev["bodies"][ch[1]]["om"]] if ch[0] == "B" else prev["rods"][ch[1]]["vel"][0])).max()) / (h or 1) if prev else 0.0
            if ch[0] == "R" and ch[3] in ("RX", "RY"): sc = 1e-4
            if ch[0] == "R" and ch[3][0] == "T": sc = 1e-6 * max(np.abs(A(l["F"])).max() for l in d["lines"])
            if not agree(r[j + 1], v, sc): out.v("value", "%s at t=%s is %s, the API reports %.9g" % (w, r[0], r[j + 1], v), run)
            out.ob(1, key + ("" if k else " t0"))
        for i, q in rv.items():
            if len(q) < 2: continue
            o = d["rods"][i]; N = o["N"]; D = A(o["pos"][N]) - A(o["pos"][0]); V = A(o["vel"][N]) - A(o["vel"][0]); L2 = D @ D
            # w is known up to its component along the rod: w = D x V / L2 + a D
            wq = np.cross(D, V) / L2; g = np.radians([q["RVX"], q["RVY"]])
            if abs(D[0]) + abs(D[1]) < 1e-3: continue
            a = (g - wq[:2]) @ D[:2] / (D[:2] @ D[:2]); e = np.abs(g - wq[:2] - a * D[:2]).max(); out.ob(1, "R RV")
            if not e <= 1e-5 * (np.abs(g).max() + np.abs(wq).max()) + 1e-9: out.v("value", "rod %d turns at %s deg/s in the file at t=%s, its ends move as %s (up to its axis)" % (i + 1, q, r[0], np.degrees(wq)), run)
    # line files
    env = ref.Env(m)
    for i, l in enumerate(m.lines):
        f = "m_Line%d.out" % (i + 1)
        if f not in files: continue
        N = l["N"]; names, un = ["Time"], ["(s)"]
        for q in FL:
            if q in l["out"]:
                b, z, cs, u = NAMES[q]
                for n in range(z, N + 1): names += ["%s%d%s" % (b, n, cc) for cc in cs]; un += [u] * len(cs)
        rows = rows_of(out, run, f, parse(files[f]), names, un, wu, times)
        if rows is None: continue
        lt = trace.ltype_of(m, i); L = ref.Line(lt, l["L"], N) if hasattr(ref, "Line") else None
        for k, r in sorted(rows.items()):
            if k > nk: continue
            ev = line_values(m, i, l["out"], L, env, pr[k - 1] if euler and k else None, dumps[k], out)
            for j, (q, v, at) in enumerate(ev):
                if v is None: continue
                if not agree(r[j + 1], v, at): out.v("line-file", "line %d: %s at t=%s is %s, expected %.9g" % (i + 1, names[j + 1], r[0], r[j + 1], v), run)
                out.ob(1, "line file " + q + ("" if k else " t0"))
    for i, rr in enumerate(m.rods):
        f = "m_Rod%d.out" % (i + 1)
        if f not in files: continue
        N = rr["N"]; names, un = ["Time"], ["(s)"]
        for q in "pv":
            if q in rr["out"]:
                b, z, cs, u = NAMES[q]
                for n in range(z, N + 1): names += ["%s%d%s" % (b, n, cc) for cc in cs]; un += [u] * 3
        rows = rows_of(out, run, f, parse(files[f]), names, un, wu, times)
        if rows is None: continue
        for k, r in sorted(rows.items()):
            if k > nk: continue
            V = [v for q in "pv" if q in rr["out"] for v in A(dumps[k]["rods"][i]["pos" if q == "p" else "vel"]).ravel()]
            for j, v in enumerate(V):
                if not agree(r[j + 1], v): out.v("rod-file", "rod %d: %s at t=%s is %s, the API reports %.9g" % (i + 1, names[j + 1], r[0], r[j + 1], v), run)
                out.ob(1, "rod file" + ("" if k else " t0"))
    if not out["samples"] or len(out["samples"]) < 2: out["samples"].append({"outputs": m.outs, "header": files["m.out"][:600]})
    return out

def run(ctx):
    ctx.exe()
    ctx.map(case, [("o", i) for i in range(5000 if ctx.quick else 60000)])
    return ctx.finish()
