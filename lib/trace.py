"""Runs a model with the explicit Euler scheme, one internal step per call, and pairs every force
evaluation with the state it was evaluated at (see DESIGN.md, 'Euler observation')."""
import copy, math
import numpy as np
import vp, ref, deck
from deck import btype, rtype_, ptype, attbody

class Pair: pass

def A(x): return np.array(x, float)

def euler_script(model, mot, dt, nsteps, name="m.txt", sid="a", pre=(), mid=None, water=True, ic=False):
    s = ["create %s %s" % (sid, name)]
    s += list(pre)
    x = A(model.x0()) if mot is None else mot.x(0.0).copy()
    xd = np.zeros(len(x)) if mot is None else mot.v(0.0)
    s.append(deck.init_cmd(sid, x, xd, ic)); s.append("dump %s" % sid)
    if water: s.append("wk %s" % sid)
    for k in range(nsteps):
        if mid and k in mid: s += mid[k]
        t = k * dt
        xd = np.zeros(len(x)) if mot is None else mot.v(t)
        s.append(deck.step_cmd(sid, t, dt, x, xd)); s.append("dump %s" % sid)
        if water: s.append("wk %s" % sid)
        x = x + xd * dt
    s.append("close %s" % sid)
    return s

def parse_steps(run, sid="a"):
    """-> init record, [state dumps], [wk], [step records], [(x, xd)]"""
    dumps, wks, steps, xs = [], [], [], []
    for r, c in zip(run.recs, [l for l in run.script if l.strip()]):
        if r.get("s") != sid: continue
        if r["c"] == "dump": dumps.append(r)
        elif r["c"] == "wk": wks.append(r)
        elif r["c"] == "step":
            steps.append(r)
            f = c.split(); n = int(f[4]); v = [float(y) for y in f[5:]]
            xs.append((A(v[:n]), A(v[n:2 * n])))
    return dumps, wks, steps, xs

def driven(model, x, xd):
    """dicts kind->index->(x, xd) of driven objects."""
    out = {"B": {}, "R": {}, "P": {}}; i = 0
    for k, j, n in model.layout():
        out[k][j] = (x[i:i + n], xd[i:i + n]); i += n
    return out

def evaluated_state(model, d, x, xd, rodw=None):
    """State at which the next evaluation happens: dump d with driven velocities replaced by xd
    (positions are continuous by construction of the motions)."""
    d = copy.deepcopy({k: d[k] for k in ("lines", "points", "rods", "bodies")})
    dr = driven(model, x, xd)
    endv = {}
    bw = {}
    for i, b in enumerate(model.bodies):
        o = d["bodies"][i]
        if i in dr["B"]:
            v = dr["B"][i][1]
            if btype(b["att"]) == "COUPLED": o["vel"], o["om"] = list(v[:3]), list(v[3:]); o["rd"] = list(v)
            else: o["vel"] = list(v[:3]); o["rd"][:3] = list(v[:3])
        bw[i + 1] = (A(o["pos"]), A(o["vel"]), A(o["om"]))
    for i, p in enumerate(model.points):
        b = attbody(p["att"]); o = d["points"][i]
        if b: P, v, w = bw[b]; o["vel"] = list(v + np.cross(w, A(o["pos"]) - P))
        elif i in dr["P"]: o["vel"] = list(dr["P"][i][1])
    for i, p in enumerate(model.rods):
        b = attbody(p["att"]); o = d["rods"][i]; N = o["N"]
        rA = A(o["pos"][0]); rB = A(o["pos"][N])
        if b:
            P, v, w = bw[b]
            vA = v + np.cross(w, rA - P)
            if rtype_(p["att"]) == "FIXED": vB = v + np.cross(w, rB - P)
            else: vB = vA + A(o["vel"][N]) - A(o["vel"][0])
        elif i in dr["R"]:
            v = dr["R"][i][1]; vA = v[:3]
            vB = vA + np.cross(v[3:], rB - rA) if len(v) == 6 else vA + A(o["vel"][N]) - A(o["vel"][0])
        else: vA, vB = A(o["vel"][0]), A(o["vel"][N])
        for k in range(N + 1):
            f = k / N if N else 0.0
            o["vel"][k] = list(vA + f * (vB - vA))
    for i, l in enumerate(model.lines):
        o = d["lines"][i]
        for e, n in (("A", 0), ("B", o["N"])):
            kind, j, re_ = end_of(l[e])
            if kind == "P": o["vel"][n] = d["points"][j]["vel"]
            else: R = d["rods"][j]; o["vel"][n] = R["vel"][0 if re_ == "A" else R["N"]]
    return d

def end_of(a):
    """'R2B' -> ('R', 1, 'B');  '3' -> ('P', 2, None)"""
    a = a.upper()
    if a.startswith("ROD"): a = "R" + a[3:]
    if a.startswith("R"):
        return "R", int(a[1:-1]) - 1, a[-1]
    for p in ("POINT", "CON", "P", "C"):
        if a.startswith(p): return "P", int(a[len(p):]) - 1, None
    return "P", int(a) - 1, None

VMAX = 150.0
def speed(d):
    """largest speed in a dump; inf when it holds values that are not numbers"""
    m = 0.0
    for k in ("lines", "rods"):
        for o in d[k]:
            for key in ("vel", "pos"):
                for v in o[key]:
                    if not isinstance(v, list) or any(x != x or abs(x) > 1e6 for x in v): return float("inf")
                    if key == "vel": m = max(m, max(map(abs, v)))
    for k in ("points", "bodies"):
        for o in d[k]:
            for v in (o["vel"], o["pos"], o.get("om", [0.0])):
                if any(x != x or abs(x) > 1e6 for x in v): return float("inf")
            m = max(m, max(map(abs, o["vel"])))
    return m

def pairs(model, run, sid="a", out=None, at=None):
    """Pairs every evaluation with its state.  A run that has diverged (speeds beyond VMAX: explicit Euler on a
    stiff random system) is cut there: what follows says nothing about the force model."""
    dumps, wks, steps, xs = parse_steps(run, sid)
    res = []; base = model
    for k in range(min(len(steps), len(dumps) - 1)):
        if at: model = at(k, steps)         # the system may change along the run (failures)
        if speed(dumps[k]) > VMAX:
            if out is not None: out.stat("runs cut at divergence")
            break
        if steps[k]["rc"] != 0:
            if out is not None: out.v("step-failed", "step %d of a sane state failed with %d" % (k, steps[k]["rc"]), run)
            break
        p = Pair(); p.k = k; p.m = model; p.E = evaluated_state(model, dumps[k], *xs[k]); p.wk = wks[k] if k < len(wks) else None
        p.D = dumps[k + 1]; p.S = dumps[k]; p.step = steps[k]; p.x, p.xd = xs[k]; p.dt = steps[k]["dt0"]
        dr = driven(model, p.x, p.xd)["B"]; p.xd_of = lambda k, _d=dr: _d[k][1][:3]
        res.append(p)
    return res

def line_q(model, i, E):
    """prescribed end tangents of line i (from rods), in state E"""
    l = model.lines[i]; out = []
    for e in ("A", "B"):
        kind, j, re_ = end_of(l[e])
        if kind != "R": out.append(None); continue
        R = E["rods"][j]
        if not R["N"] and "zq" not in R: out.append("zero"); continue
        q = A(R["pos"][R["N"]]) - A(R["pos"][0]) if R["N"] else R["zq"]; q = q / (np.linalg.norm(q) or 1)
        if e == "B": out.append(-q if re_ == "B" else q)
        else: out.append(-q if re_ == "A" else q)
    return out

def ltype_of(model, i):
    return next(t for t in model.ltypes if t["name"] == model.lines[i]["ltype"])
def rtype_of(model, i):
    return next(t for t in model.rtypes if t["name"] == model.rods[i]["rtype"])

def close(a, b, rtol, atol):
    a, b = A(a), A(b)
    if a.shape != b.shape: return False, float("inf")
    if not np.all(np.isfinite(a)) or not np.all(np.isfinite(b)): return False, float("inf")
    e = np.abs(a - b); s = rtol * np.maximum(np.abs(a), np.abs(b)) + atol + 1e-300
    m = float(np.max(e / s)) if e.size else 0.0
    return m <= 1.0, m
