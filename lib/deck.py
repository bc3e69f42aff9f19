"""Model description -> MoorDyn deck text, and random generators of models and motions."""
import math, random, copy
import numpy as np

def f(x):
    return repr(float(x)) if not isinstance(x, str) else x

class Model:
    def __init__(self):
        self.opts = {}        # name -> value (ordered)
        self.ltypes, self.rtypes, self.bodies, self.rods, self.points, self.lines, self.fails = [], [], [], [], [], [], []
        self.outs = []
        self.files = {}       # auxiliary files, relative names
    def clone(self): return copy.deepcopy(self)
    # --- construction helpers
    def ltype(self, name="lt", d=0.1, w=20.0, EA=1e6, BA=-0.8, EI=0.0, Cd=1.2, Ca=1.0, CdAx=0.2, CaAx=0.1):
        self.ltypes.append(dict(name=name, d=d, w=w, EA=EA, BA=BA, EI=EI, Cd=Cd, Ca=Ca, CdAx=CdAx, CaAx=CaAx)); return name
    def rtype(self, name="rt", d=0.4, w=100.0, Cd=1.0, Ca=1.0, CdEnd=0.6, CaEnd=0.5):
        self.rtypes.append(dict(name=name, d=d, w=w, Cd=Cd, Ca=Ca, CdEnd=CdEnd, CaEnd=CaEnd)); return name
    def body(self, att, r6, M=1000.0, CG=(0, 0, 0), I=(500., 500., 500.), V=1.0, CdA=(1., 1., 1., 0., 0., 0.), Ca=(1., 1., 1.)):
        self.bodies.append(dict(att=att, r6=list(r6), M=M, CG=list(CG), I=list(I), V=V, CdA=list(CdA), Ca=list(Ca))); return len(self.bodies)
    def rod(self, rtype, att, a, b, N=4, out="-"):
        self.rods.append(dict(rtype=rtype, att=att, a=list(a), b=list(b), N=N, out=out)); return len(self.rods)
    def point(self, att, r, m=0.0, V=0.0, CdA=0.0, Ca=0.0, F=None):
        self.points.append(dict(att=att, r=list(r), m=m, V=V, CdA=CdA, Ca=Ca, F=F)); return len(self.points)
    def line(self, ltype, A, B, L, N=8, out="-"):
        self.lines.append(dict(ltype=ltype, A=str(A), B=str(B), L=L, N=N, out=out)); return len(self.lines)
    # --- text
    def text(self):
        o = ["MoorDyn input file", "generated"]
        a = o.append
        def sec(name, cols):
            a("---------------------- %s -----------------------" % name); a(cols); a("(-) (-)")
        if self.ltypes:
            sec("LINE TYPES", "Name Diam MassDen EA BA EI Cd Ca CdAx CaAx")
            for t in self.ltypes: a(" ".join([t["name"]] + [f(t[k]) for k in ("d", "w", "EA", "BA", "EI", "Cd", "Ca", "CdAx", "CaAx")]))
        if self.rtypes:
            sec("ROD TYPES", "Name Diam MassDen Cd Ca CdEnd CaEnd")
            for t in self.rtypes: a(" ".join([t["name"]] + [f(t[k]) for k in ("d", "w", "Cd", "Ca", "CdEnd", "CaEnd")]))
        if self.bodies:
            sec("BODIES", "ID Attachment X0 Y0 Z0 r0 p0 y0 Mass CG* I* Volume CdA* Ca*")
            for i, b in enumerate(self.bodies):
                a(" ".join([str(i + 1), b["att"]] + [f(x) for x in b["r6"]] + [f(b["M"]), bar(b["CG"]), bar(b["I"]), f(b["V"]), bar(b["CdA"]), bar(b["Ca"])]))
        if self.rods:
            sec("RODS", "ID Type Attachment Xa Ya Za Xb Yb Zb NumSegs Outputs")
            for i, r in enumerate(self.rods):
                a(" ".join([str(i + 1), r["rtype"], r["att"]] + [f(x) for x in r["a"] + r["b"]] + [str(r["N"]), r["out"]]))
        if self.points:
            sec("POINTS", "ID Attachment X Y Z Mass Volume CdA Ca")
            for i, p in enumerate(self.points):
                a(" ".join([str(i + 1), p["att"]] + [f(x) for x in p["r"]] + [f(p["m"]), f(p["V"]), f(p["CdA"]), f(p["Ca"])]))
        if self.lines:
            sec("LINES", "ID LineType AttachA AttachB UnstrLen NumSegs Outputs")
            for i, l in enumerate(self.lines):
                a(" ".join([str(i + 1), l["ltype"], l["A"], l["B"], f(l["L"]), str(l["N"]), l["out"]]))
        if self.fails:
            sec("FAILURE", "ID Point Lines Time Ten")
            for i, l in enumerate(self.fails): a(" ".join([str(i + 1)] + [str(x) for x in l]))
        a("---------------------- OPTIONS -----------------------")
        for k, v in self.opts.items(): a("%s %s" % (f(v) if isinstance(v, float) else v, k))
        if self.outs:
            a("---------------------- OUTPUTS -----------------------")
            for x in self.outs: a(x)
        a("------------------------- need this line --------------------")
        return "\n".join(o) + "\n"
    def deck(self, name="m.txt"):
        d = dict(self.files); d[name] = self.text(); return d
    # --- coupled layout: [(kind, index, ndof)]
    def layout(self):
        r = []
        for i, b in enumerate(self.bodies):
            k = btype(b["att"])
            if k == "COUPLED": r.append(("B", i, 6))
            elif k == "CPLDPIN": r.append(("B", i, 6))      # rotations are ignored
        for i, b in enumerate(self.rods):
            k = rtype_(b["att"])
            if k == "COUPLED": r.append(("R", i, 6))
            elif k == "CPLDPIN": r.append(("R", i, 3))
        for i, p in enumerate(self.points):
            if ptype(p["att"]) == "COUPLED": r.append(("P", i, 3))
        return r
    def x0(self):
        x = []
        for k, i, n in self.layout():
            if k == "B": x += list(self.bodies[i]["r6"][:3]) + [math.radians(a) for a in self.bodies[i]["r6"][3:n]]
            elif k == "R":
                r = self.rods[i]; x += list(r["a"])
                if n == 6: x += [0.0, 0.0, 0.0]
            else: x += list(self.points[i]["r"])
        return x

def bar(v):
    if isinstance(v, str): return v
    return "|".join(f(x) for x in v)

def up(s): return s.upper()
def btype(a):
    a = up(a)
    if a in ("ANCHOR", "FIXED", "FIX"): return "FIXED"
    if a in ("VESSEL", "VES", "COUPLED", "CPLD"): return "COUPLED"
    if a in ("VESSELPINNED", "VESPIN", "CPLDPIN", "COUPLEDPINNED"): return "CPLDPIN"
    return "FREE"
def rtype_(a):
    a = up(a)
    if a in ("ANCHOR", "FIXED", "FIX"): return "FIXED"
    if a in ("PINNED", "PIN"): return "PINNED"
    if a.startswith("BODY"): return "PINNED" if a.rstrip("0123456789").endswith(("PINNED", "PIN")) or "PIN" in a else "FIXED"
    if a in ("VESSEL", "VES", "COUPLED", "CPLD"): return "COUPLED"
    if a in ("VESSELPINNED", "VESPIN", "CPLDPIN", "COUPLEDPINNED"): return "CPLDPIN"
    return "FREE"
def ptype(a):
    a = up(a)
    if a in ("ANCHOR", "FIXED", "FIX"): return "FIXED"
    if a.startswith("BODY"): return "FIXED"
    if a in ("FAIRLEAD", "VESSEL", "VES", "COUPLED", "CPLD"): return "COUPLED"
    return "FREE"
def attbody(a):
    a = up(a)
    if a.startswith("BODY"):
        n = ""
        for c in a[4:]:
            if c.isdigit(): n += c
            else: break
        return int(n)
    return None

# ------------------------------------------------------------------ motions
class Motion:
    """Random smooth prescribed motion for the coupled DOFs of a model."""
    def __init__(self, rng, model, amp=1.0, rot=0.1, still=False):
        self.x0 = np.array(model.x0(), float)
        n = len(self.x0)
        self.rotdof = np.zeros(n, bool)
        i = 0
        self.rodidx = []
        for k, _, m in model.layout():
            if m == 6: self.rotdof[i + 3:i + 6] = True
            if k == "R" and m == 6: self.rodidx.append(i)
            i += m
        A = np.where(self.rotdof, rot, amp)
        self.a = np.array([[rng.uniform(-1, 1) * A[j] for _ in range(2)] for j in range(n)]).reshape(n, 2)
        self.w = np.array([[rng.uniform(0.3, 3.0) for _ in range(2)] for j in range(n)]).reshape(n, 2)
        self.p = np.array([[rng.uniform(0, 6.28) for _ in range(2)] for j in range(n)]).reshape(n, 2)
        if still: self.a[:] = 0
    def x(self, t):
        return self.x0 + (self.a * (np.sin(self.w * t + self.p) - np.sin(self.p))).sum(1)
    def v(self, t):
        return (self.a * self.w * np.cos(self.w * t + self.p)).sum(1)

def fmt(v): return " ".join(repr(float(x)) for x in v)
def step_cmd(s, t, dt, x, xd):
    return "step %s %r %r %d %s %s" % (s, float(t), float(dt), len(x), fmt(x), fmt(xd))
def init_cmd(s, x, xd, ic=False):
    return "%s %s %d %s %s" % ("init" if ic else "initnoic", s, len(x), fmt(x), fmt(xd))

# ------------------------------------------------------------------ random models
def wave_speed(t): return math.sqrt(float(t["EA"]) / float(t["w"])) if not isinstance(t["EA"], str) else 300.0
def safe_dt(m, frac=0.15, cap=0.02):
    dt = cap
    for l in m.lines:
        t = next(x for x in m.ltypes if x["name"] == l["ltype"])
        dt = min(dt, frac * (l["L"] / l["N"]) / wave_speed(t))
    return dt

def rnd_ltype(rng, m, name, ei=None):
    d = 10 ** rng.uniform(-1.4, -0.5); w = 1025 * math.pi * d * d / 4 * rng.uniform(0.6, 4.0)
    EA = 10 ** rng.uniform(5, 7); BA = rng.choice([-rng.uniform(0.05, 1.0), 10 ** rng.uniform(2, 4), 0.0])
    EI = 10 ** rng.uniform(1, 4) if (ei if ei is not None else rng.random() < 0.3) else 0.0
    return m.ltype(name, d=d, w=w, EA=EA, BA=BA, EI=EI, Cd=rng.uniform(0, 2), Ca=rng.uniform(0, 1.5), CdAx=rng.uniform(0, 0.6), CaAx=rng.uniform(0, 0.6))

def rnd_rtype(rng, m, name):
    d = 10 ** rng.uniform(-0.7, 0.2)
    return m.rtype(name, d=d, w=1025 * math.pi * d * d / 4 * rng.uniform(0.3, 3.0), Cd=rng.uniform(0, 1.5), Ca=rng.uniform(0, 1.2), CdEnd=rng.uniform(0, 1.5), CaEnd=rng.uniform(0, 1.2))

def rnd_env(rng, m, depth=None):
    m.opts["WtrDpth"] = depth or rng.uniform(40, 120)
    m.opts["rhoW"] = None; del m.opts["rhoW"]
    if rng.random() < 0.5: m.opts["rho"] = rng.uniform(900, 1100)
    if rng.random() < 0.5: m.opts["g"] = rng.uniform(8, 12)
    m.opts["kb"] = 10 ** rng.uniform(4, 6); m.opts["cb"] = 10 ** rng.uniform(3, 5)
    if rng.random() < 0.5:
        m.opts["FrictionCoefficient"] = rng.uniform(0.1, 1.0)
        m.opts["FricDamp"] = 10 ** rng.uniform(1, 3); m.opts["StatDynFricScale"] = rng.uniform(0.5, 2.0)
    m.opts["TmaxIC"] = 0.0
    return m

def vec_in(rng, lo, hi): return [rng.uniform(a, b) for a, b in zip(lo, hi)]
def unit(rng):
    v = np.array([rng.gauss(0, 1) for _ in range(3)]); return v / np.linalg.norm(v)

def rnd_model(rng, bodies=True, rods=True, zfree=False, ei=None, maxlines=5, nmax=10, small=False, pins=True, allow_zero_rod=False):
    """A connected-ish random system: seabed anchors, driven/fixed/free points, bodies and rods, lines between them."""
    m = Model()
    rnd_env(rng, m)
    H = m.opts["WtrDpth"]
    nlt = rng.randint(1, 2)
    lts = [rnd_ltype(rng, m, "lt%d" % i, ei) for i in range(nlt)]
    ends = []   # (attach string, position)
    if bodies:
        for _ in range(rng.randint(0, 2 if not small else 1)):
            att = rng.choice(["Coupled", "Free", "Fixed", "Free"] + (["CpldPin"] if pins else []))
            pos = vec_in(rng, (-30, -30, -0.7 * H), (30, 30, -5 if not zfree else 3))
            ang = [rng.uniform(-40, 40) for _ in range(3)]
            M = 10 ** rng.uniform(3, 4.5)
            b = m.body(att, pos + ang, M=M, CG=vec_in(rng, (-1, -1, -1), (1, 1, 1)), I=[M * rng.uniform(1, 5) for _ in range(3)], V=M / 1025 * rng.uniform(0.3, 1.5),
                       CdA=[rng.uniform(0, 4) for _ in range(3)] + [rng.uniform(0, 20) for _ in range(3)], Ca=[rng.uniform(0, 1) for _ in range(3)])
            R = euler(np.radians(ang))
            for _ in range(rng.randint(1, 3)):
                rel = vec_in(rng, (-4, -4, -4), (4, 4, 4))
                p = m.point("Body%d" % b, rel, m=rng.choice([0.0, rng.uniform(1, 300)]), V=rng.choice([0, rng.uniform(0, 0.5)]), CdA=rng.choice([0, rng.uniform(0, 2)]), Ca=rng.uniform(0, 1))
                ends.append((str(p), np.array(pos) + R @ np.array(rel), "b%d" % b))
    if rods:
        n = rng.randint(0 if m.bodies else 1, 2 if not small else 1)
        if n:
            rts = [rnd_rtype(rng, m, "rt%d" % i) for i in range(rng.randint(1, 2))]
        for _ in range(n):
            opts = ["Coupled", "Free", "Fixed", "Free", "Pinned"] + (["CpldPin"] if pins else [])
            if m.bodies: opts += ["Body%d" % rng.randint(1, len(m.bodies)), "Body%dPinned" % rng.randint(1, len(m.bodies))]
            att = rng.choice(opts)
            N = rng.randint(1, 6); L = rng.uniform(1, 8)
            q = unit(rng)
            if att.startswith("Body"):
                b = m.bodies[attbody(att) - 1]
                a = np.array(vec_in(rng, (-4, -4, -4), (4, 4, 4))); e = a + L * q
                R = euler(np.radians(b["r6"][3:])); ga = np.array(b["r6"][:3]) + R @ a; ge = np.array(b["r6"][:3]) + R @ e
            else:
                a = np.array(vec_in(rng, (-30, -30, -0.8 * H), (30, 30, -10 if not zfree else 3))); e = a + L * q; ga, ge = a, e
            r = m.rod(rng.choice(rts), att, a, e, N)
            ends.append(("R%dA" % r, ga, "r%d" % r)); ends.append(("R%dB" % r, ge, "r%d" % r))
    for _ in range(rng.randint(1, 2)):
        p = m.point("Coupled", vec_in(rng, (-20, -20, -10), (20, 20, 5 if zfree else -2)), m=rng.choice([0, rng.uniform(0, 100)]), V=rng.choice([0, rng.uniform(0, 1)]), CdA=rng.uniform(0, 2), Ca=rng.uniform(0, 1))
        ends.append((str(p), np.array(m.points[-1]["r"]), "p%d" % p))
    for _ in range(rng.randint(1, 2)):
        p = m.point("Fixed", vec_in(rng, (-60, -60, -H), (60, 60, -H)))
        ends.append((str(p), np.array(m.points[-1]["r"]), "p%d" % p))
    for _ in range(rng.randint(0, 2)):
        p = m.point("Free", vec_in(rng, (-30, -30, -0.8 * H), (30, 30, -8 if not zfree else 2)), m=rng.uniform(10, 1000), V=rng.uniform(0, 1), CdA=rng.uniform(0, 3), Ca=rng.uniform(0, 1))
        ends.append((str(p), np.array(m.points[-1]["r"]), "p%d" % p))
    # lines: spanning chain over distinct owners, then random extras
    nl = rng.randint(2, maxlines)
    order = ends[:]; rng.shuffle(order)
    pairs = [(order[i], order[i + 1]) for i in range(len(order) - 1)]
    rng.shuffle(pairs)
    cnt = 0
    free_needs = [e for e in ends]
    for A, B_ in pairs + [tuple(rng.sample(ends, 2)) for _ in range(6)]:
        if cnt >= nl: break
        if A[2] == B_[2] and A[0] == B_[0]: continue
        span = float(np.linalg.norm(A[1] - B_[1]))
        if span < 2.0: continue
        m.line(rng.choice(lts), A[0], B_[0], span * rng.uniform(0.97, 1.25), rng.randint(1, nmax)); cnt += 1
    if not m.lines:
        m.line(lts[0], ends[-1][0], ends[-2][0], max(5.0, float(np.linalg.norm(ends[-1][1] - ends[-2][1])) * 1.1), 4)
    return m

def euler(a):
    """R = Rx Ry Rz (intrinsic XYZ)."""
    c, s = np.cos(a), np.sin(a)
    Rx = np.array([[1, 0, 0], [0, c[0], -s[0]], [0, s[0], c[0]]])
    Ry = np.array([[c[1], 0, s[1]], [0, 1, 0], [-s[1], 0, c[1]]])
    Rz = np.array([[c[2], -s[2], 0], [s[2], c[2], 0], [0, 0, 1]])
    return Rx @ Ry @ Rz
