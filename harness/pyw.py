"""Worker of checks C28 to C30: one system driven through the Python wrapper (or, with "fortran",
through the Fortran module), its twin through the C functions of the very same shared object.
Reads job.json, writes result.json."""
import sys, os, json, random, ctypes as C, struct, gc

job = json.load(open(sys.argv[1])); rng = random.Random(job["seed"])
sys.path.insert(0, os.path.dirname(job["so"])); sys.path.insert(0, job["pkg"])
FORT = job.get("fortran")
if not FORT: import cmoordyn, moordyn
L = C.CDLL(job["so"], mode=C.RTLD_GLOBAL)
V, D, U, I = C.c_void_p, C.c_double, C.c_uint, C.c_int
viol, stats, shapes = [], {}, set()
def bad(key, msg):
    if len(viol) < 12 and not any(v[0] == key for v in viol): viol.append([key, msg[:600]])
def ob(k, n=1): stats[k] = stats.get(k, 0) + n
getp = C.pythonapi.PyCapsule_GetPointer; getp.restype = V; getp.argtypes = [C.py_object, C.c_char_p]
KIND = {"sys": b"MoorDyn", "waves": b"MoorDynWaves", "floor": b"MoorDynSeafloor", "body": b"MoorDynBody", "rod": b"MoorDynRod", "point": b"MoorDynPoint", "line": b"MoorDynLine"}
def ptr(cap, kind): return cap.p if FORT else getp(cap, KIND[kind])
for n in ("MoorDyn_Create", "MoorDyn_GetWaves", "MoorDyn_GetSeafloor", "MoorDyn_GetBody", "MoorDyn_GetRod", "MoorDyn_GetPoint", "MoorDyn_GetLine"): getattr(L, n).restype = V
try: bytes_now = L.__sanitizer_get_current_allocated_bytes; bytes_now.restype = C.c_size_t
except AttributeError: bytes_now = None

def bits(x):
    if isinstance(x, float): return struct.pack("<d", x) if x == x else b"nan"
    if isinstance(x, (tuple, list)): return tuple(bits(y) for y in x)
    if isinstance(x, bool): return int(x)
    return x
def same(a, b): return bits(a) == bits(b)

# ---- C side of the getters: (shape) -> python value
def cget(name, p, shape, *idx):
    """(rc, value)"""
    f = getattr(L, "MoorDyn_" + name); args = [V(p)] + [U(i) for i in idx]
    outs = []
    for s in shape:
        if s == "i": o = I()
        elif s == "u": o = U()
        elif s == "d": o = D()
        elif s == "p": o = V()
        elif isinstance(s, int): o = (D * s)()
        else: o = (D * (s[0] * s[1]))()
        outs.append(o)
    rc = f(*args, *[C.byref(o) for o in outs])
    val = []
    for s, o in zip(shape, outs):
        if s in ("i", "u", "d", "p"): val.append(o.value)
        elif isinstance(s, int): val.append(tuple(o))
        else: val.append(tuple(tuple(o[i * s[1]:(i + 1) * s[1]]) for i in range(s[0])))
    return rc, val[0] if len(val) == 1 else tuple(val)

GET = {
 "sys": [("NCoupledDOF", ["u"]), ("GetNumberBodies", ["u"]), ("GetNumberRods", ["u"]), ("GetNumberPoints", ["u"]), ("GetNumberLines", ["u"])],
 "floor": [("GetAverageDepth", ["d"]), ("GetMinDepth", ["d"])],
 "body": [("GetBodyID", ["i"]), ("GetBodyType", ["i"]), ("GetBodyState", [6, 6]), ("GetBodyPos", [3]), ("GetBodyAngle", [3]), ("GetBodyVel", [3]), ("GetBodyAngVel", [3]), ("GetBodyForce", [6]), ("GetBodyM", [(6, 6)])],
 "rod": [("GetRodID", ["i"]), ("GetRodType", ["i"]), ("GetRodForce", [6]), ("GetRodM", [(6, 6)]), ("GetRodN", ["u"])],
 "point": [("GetPointID", ["i"]), ("GetPointType", ["i"]), ("GetPointPos", [3]), ("GetPointVel", [3]), ("GetPointForce", [3]), ("GetPointM", [(3, 3)]), ("GetPointNAttached", ["u"])],
 "line": [("GetLineID", ["i"]), ("GetLineN", ["u"]), ("GetLineUnstretchedLength", ["d"]), ("IsLineConstantEA", ["i"]), ("GetLineConstantEA", ["d"]), ("IsLinePressBend", ["i"]), ("GetLineFairTen", ["d"]), ("GetLineMaxTen", ["d"])],
}
NODE = {
 "rod": [("GetRodNodePos", [3]), ("GetRodNodeVel", [3])],
 "line": [("GetLineNodePos", [3]), ("GetLineNodeVel", [3]), ("GetLineNodeForce", [3]), ("GetLineNodeTen", [3]), ("GetLineNodeBendStiff", [3]), ("GetLineNodeWeight", [3]), ("GetLineNodeDrag", [3]), ("GetLineNodeFroudeKrilov", [3]), ("GetLineNodeSeabedForce", [3]), ("GetLineNodeCurv", ["d"]), ("GetLineNodeM", [(3, 3)])],
}
if FORT:
    GET["rod"].append(("GetRodNumberNodes", ["u"])); GET["line"].append(("GetLineNumberNodes", ["u"]))
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__))); import fmd
    moordyn = fmd.Module(C.CDLL(FORT), L, rng, bad, ob, GET, NODE, None)
VTK = {"sys": "SaveVTK", "body": "SaveBodyVTK", "rod": "SaveRodVTK", "point": "SavePointVTK", "line": "SaveLineVTK"}

def call(name, *a):
    """(value, None) or (None, exception)"""
    try: return getattr(moordyn, name)(*a), None
    except Exception as e: return None, e
def proper(name, e, what, kinds=(RuntimeError, ValueError, TypeError, IndexError, OverflowError, MemoryError, AssertionError)):
    if isinstance(e, SystemError) or isinstance(e, (NameError, AttributeError)) or not isinstance(e, kinds):
        bad("%s:%s" % (name, type(e).__name__), "%s (%s) ended with %s: %s" % (name, what, type(e).__name__, e))

def later(obj, **kw):
    """set attributes after the construction, in any order"""
    for k in sorted(kw, key=lambda _: rng.random()):
        setattr(obj, k, kw[k])
        if getattr(obj, k) is not kw[k] and not hasattr(getattr(obj, k), "values"): bad("gen:attribute", "%s.%s reads back %r after setting %r" % (type(obj).__name__, k, getattr(obj, k), kw[k]))
def made(cls, args, attrs):
    """cls(*args) with some arguments given later: attrs maps the attribute to the position of its argument"""
    sub = [a for a in attrs if rng.random() < .3]; a = list(args)
    for k in sub:
        old = a[attrs[k]]
        if isinstance(old, (list, tuple)): a[attrs[k]] = [q + 1.0 if isinstance(q, (int, float)) else q for q in old]
        elif isinstance(old, (int, float)) and not isinstance(old, bool): a[attrs[k]] = old + 1
    o = cls(*a); ob("objects generated")
    todo = {k: args[attrs[k]] for k in sub}
    if rng.random() < .5: later(o, **todo); todo = {}
    return o, todo
def generate(g):
    """the model through the generator; returns the Mooring"""
    G = moordyn.Generator; M = G.Mooring(); lt, rt, B, R, P, Ln, wait = {}, {}, [], [], [], [], []
    def add(fn, o, todo): fn(o); wait.append((o, todo)) if todo else None; return o
    for t in g["ltypes"]:
        keys = ("name", "d", "w", "EA", "BA", "EI", "Cd", "Ca", "CdAx", "CaAx"); nm = ("name", "d", "w", "ea", "ba", "ei", "cdn", "can", "cdt", "cat")
        lt[t["name"]] = add(M.AddLineMaterial, *made(G.LineMaterial, [t[k] for k in keys], {a: i for i, a in enumerate(nm) if i}))
    for t in g["rtypes"]:
        keys = ("name", "d", "w", "Cd", "Ca", "CdEnd", "CaEnd"); nm = ("name", "d", "w", "cdn", "can", "cdt", "cat")
        rt[t["name"]] = add(M.AddRodMaterial, *made(G.RodMaterial, [t[k] for k in keys], {a: i for i, a in enumerate(nm) if i}))
    for b in g["bodies"]:
        bp = G.BodyPoint()
        if b["kind"] == "COUPLED": bp.coupled = True
        elif b["kind"] == "FREE": bp.fixed = False
        elif rng.random() < .3: bp.coupled = True; bp.fixed = True
        one = lambda v: v[0] if len(v) == 1 else rng.choice([list, tuple])(v)
        B.append(add(M.AddBody, *made(G.Body, [bp, b["p"], b["rad"], b["M"], one(b["CG"]), one(b["I"]), one(b["CdA"]), b["V"], one(b["Ca"])], {"type": 0, "p": 1, "r": 2, "mass": 3, "cog": 4, "I": 5, "cda": 6, "vol": 7, "ca": 8})))
    for r in g["rods"]:
        rp = G.RodPoint(); k = r["kind"]
        def where():
            if r["body"]: rp.body = B[r["body"] - 1]
            elif k in ("COUPLED", "CPLDPIN"): rp.coupled = True
            elif k == "FREE": rp.fixed = False
        def how():
            if k in ("PINNED", "CPLDPIN"): rp.pinned = True
        for fn in rng.sample([where, how], 2): fn()
        R.append(add(M.AddRod, *made(G.Rod, [rt[r["rtype"]], rp, r["a"], r["b"], r["N"]], {"material": 0, "point": 1, "p0": 2, "p1": 3, "n": 4})))
        if rng.random() < .3: R[-1].material = rt[r["rtype"]]
    for p in g["points"]:
        t = B[p["body"] - 1] if p["body"] else rng.choice([p["kind"], p["kind"].lower(), p["kind"].capitalize()])
        P.append(add(M.AddPoint, *made(G.Point, [t, p["r"], p["m"], p["V"], p["CdA"], p["Ca"]], {"type": 0, "p": 1, "mass": 2, "vol": 3, "cda": 4, "ca": 5})))
    def end(e):
        if e[0] == "R":
            lp = G.LinePoint(R[int(e[1:-1]) - 1], e[-1]) if rng.random() < .6 or e[-1] != "A" else G.LinePoint(R[int(e[1:-1]) - 1])
            if rng.random() < .3: lp = G.LinePoint(R[0]); lp.obj = R[int(e[1:-1]) - 1]; lp.end_point = e[-1]
            return lp
        return G.LinePoint(P[int(e) - 1])
    for l in g["lines"]: Ln.append(add(M.AddLine, *made(G.Line, [lt[l["ltype"]], end(l["A"]), end(l["B"]), l["L"], l["N"]], {"material": 0, "point0": 1, "point1": 2, "l": 3, "n": 4})))
    for a, ls, t, ten in g["fails"]: add(M.AddFailure, *made(G.Failure, [end(a), [Ln[i - 1] for i in ls], t, ten], {"point": 0, "lines": 1, "time": 2, "ten": 3}))
    for k, v in g["opts"]: add(M.AddOption, *made(G.Option, [k, v], {"value": 1} if isinstance(v, (int, float)) else {}))
    for o, todo in wait: later(o, **todo)
    return M

class Pair:
    def __init__(self):
        if job.get("gen"):
            try: self.cap, e = generate(job["gen"]).Create(), None
            except RuntimeError as x: self.cap, e = None, x
        else: self.cap, e = call("Create", job["deck1"])
        self.t = L.MoorDyn_Create(job["deck2"].encode())
        if e is not None:
            proper("Create", e, "a deck C refuses"); shapes.add("deck refused"); ob("decks refused")
            if self.t: bad("Create", "Create raised %r, C accepts the deck" % e)
            self.t = None; return
        if not self.t: bad("Create", "Create accepts what C refuses"); return
        self.p = ptr(self.cap, "sys")
        self.n = moordyn.NCoupledDOF(self.cap)
    def objects(self):
        for kind, num, get in (("body", "GetNumberBodies", "GetBody"), ("rod", "GetNumberRods", "GetRod"), ("point", "GetNumberPoints", "GetPoint"), ("line", "GetNumberLines", "GetLine")):
            for i in range(1, getattr(moordyn, num)(self.cap) + 1):
                cap, e = call(get, self.cap, i)
                tp = getattr(L, "MoorDyn_" + get)(V(self.t), U(i)); pp = getattr(L, "MoorDyn_" + get)(V(self.p), U(i))
                if e is not None: bad(get, "%s(%d) raised %r" % (get, i, e)); continue
                if ptr(cap, kind) != pp: bad(get, "%s(%d) is another object than the C function gives" % (get, i))
                yield kind, cap, pp, tp, i

def compare(S, when):
    objs = [("sys", S.cap, S.p, S.t, 0)] + list(S.objects())
    fl, e = call("GetSeafloor", S.cap); fp = L.MoorDyn_GetSeafloor(V(S.p)); ft = L.MoorDyn_GetSeafloor(V(S.t))
    if e is not None: bad("GetSeafloor", "GetSeafloor raised %r" % e)
    elif (fl is None) != (not fp) or fl is not None and ptr(fl, "floor") != fp: bad("GetSeafloor", "GetSeafloor: %r where C has %r" % (fl, fp))
    if fl is not None: objs.append(("floor", fl, fp, ft, 0))
    def one(name, shape, cap, pp, tp, *idx):
        rc, cv = cget(name, pp, shape, *idx); rt, tv = cget(name, tp, shape, *idx)
        if tv != tv or not same(cv, tv) and rc == 0: return bad("twin:" + name, "%s%s after %s: %s, but the twin driven through C has %s" % (name, idx, when, cv, tv))
        v, e = call(name, cap, *idx); ob("getter results compared"); shapes.add("%s/%s" % (name, "error" if rc else "ok"))
        if rc:
            if e is None: bad(name, "%s%s: C gives %d, the wrapper %r" % (name, idx, rc, v))
            else: proper(name, e, "C gives %d" % rc)
        elif e is not None: bad(name, "%s%s raised %s: %s, C gives %s" % (name, idx, type(e).__name__, e, cv))
        elif not same(v, cv): bad(name, "%s%s after %s: wrapper %s, C %s" % (name, idx, when, v, cv))
    for kind, cap, pp, tp, i in objs:
        for name, shape in GET.get(kind, []): one(name, shape, cap, pp, tp)
        if kind in NODE:
            n = cget("GetRodN" if kind == "rod" else "GetLineN", pp, ["u"])[1]
            for k in sorted({0, n, rng.randint(0, n), rng.randint(0, n)}) + [n + 1, n + rng.randint(2, 50)]:
                for name, shape in NODE[kind]: one(name, shape, cap, pp, tp, k)
        if kind == "point":
            na = cget("GetPointNAttached", pp, ["u"])[1]
            for k in range(na + 1):
                rc, cv = cget("GetPointAttached", pp, ["p", "i"], k); v, e = call("GetPointAttached", cap, k); ob("getter results compared")
                if rc:
                    if e is None: bad("GetPointAttached", "GetPointAttached(%d): C gives %d, the wrapper %r" % (k, rc, v))
                    else: proper("GetPointAttached", e, "C gives %d" % rc)
                elif e is not None: bad("GetPointAttached", "raised %r" % e)
                elif (ptr(v[0], "line"), v[1]) != cv: bad("GetPointAttached", "GetPointAttached(%d): %s, C %s" % (k, v, cv))
        if kind in VTK:
            a, e = call(VTK[kind], cap, os.path.join(job["dir"], "w.vtk")); rc = getattr(L, "MoorDyn_" + VTK[kind])(V(tp), os.path.join(job["dir"], "c.vtk").encode()); ob("vtk calls")
            if e is not None or a != rc: bad(VTK[kind], "%s: %r, C gives %d" % (VTK[kind], e if e is not None else a, rc))
        if kind == "floor":
            for _ in range(3):
                x, y = rng.uniform(-200, 200), rng.uniform(-200, 200); o = D(); rc = L.MoorDyn_GetDepthAt(V(pp), D(x), D(y), C.byref(o)); v, e = call("GetDepthAt", cap, x, y); ob("getter results compared")
                if e is not None or rc or not same(v, o.value): bad("GetDepthAt", "GetDepthAt(%g, %g): %r, C %g" % (x, y, e if e is not None else v, o.value))
        if kind == "body":
            a, e = call("UseBodyVTK", cap, "none.stl"); rc = L.MoorDyn_UseBodyVTK(V(tp), b"none.stl"); ob("vtk calls")
            if e is not None or a != rc: bad("UseBodyVTK", "UseBodyVTK: %r, C gives %d" % (e if e is not None else a, rc))
    # tensions of all the lines
    nl = cget("GetNumberLines", S.p, ["u"])[1]
    for k in {nl, rng.randint(0, nl), nl + 1}:
        arr = [(C.c_float * max(k, 1))() for _ in range(4)]; rc = L.MoorDyn_GetFASTtens(V(S.p), C.byref(I(k)), *arr); v, e = call("GetFASTtens", S.cap, k); ob("getter results compared")
        if rc:
            if e is None: bad("GetFASTtens", "GetFASTtens(%d): C gives %d, the wrapper %r" % (k, rc, v))
            else: proper("GetFASTtens", e, "C gives %d" % rc)
        elif e is not None or not same(tuple(v), tuple(tuple(float(q) for q in a)[:k] for a in arr)): bad("GetFASTtens", "GetFASTtens(%d): %r, C %s" % (k, e if e is not None else v, [list(a)[:k] for a in arr]))
    # water kinematics
    w, e = call("GetWaves", S.cap); wp = L.MoorDyn_GetWaves(V(S.p)); wt = L.MoorDyn_GetWaves(V(S.t))
    if e is not None or ptr(w, "waves") != wp: bad("GetWaves", "GetWaves: %r" % (e or w))
    elif job["kind"] == "still" or job["kind"] == "bathy" or True:
        for _ in range(4):
            q = [rng.uniform(-60, 60), rng.uniform(-60, 60), rng.uniform(-job["depth"], 1.0)]; u, ud, z, pd = (D * 3)(), (D * 3)(), D(), D()
            use = fl if rng.random() < .5 else None
            rc = L.MoorDyn_GetWavesKin(V(wp), *[D(t) for t in q], u, ud, C.byref(z), C.byref(pd), V(fp if use is not None else None))
            v, e = call("GetWavesKin", w, *q, use) if use is not None or rng.random() < .5 else call("GetWavesKin", w, *q); ob("getter results compared"); shapes.add("GetWavesKin/%s" % ("error" if rc else "ok"))
            if rc:
                if e is None: bad("GetWavesKin", "GetWavesKin: C gives %d, the wrapper %r" % (rc, v))
                else: proper("GetWavesKin", e, "C gives %d" % rc)
            elif e is not None: bad("GetWavesKin", "GetWavesKin%s raised %s: %s" % (q, type(e).__name__, e))
            elif not same(v, (tuple(u), tuple(ud), z.value, pd.value)): bad("GetWavesKin", "GetWavesKin%s: %s, C %s" % (q, v, (tuple(u), tuple(ud), z.value, pd.value)))

def snap(p):
    n = C.c_size_t()
    if L.MoorDyn_Serialize(V(p), C.byref(n), None): return None
    b = C.create_string_buffer(n.value)
    if L.MoorDyn_Serialize(V(p), None, b): return None
    return b.raw

class It:
    def __init__(self, v): self.v = v
    def __iter__(self): return iter(self.v)
def dress(v):
    k = rng.randrange(5)
    return [list(v), tuple(v), It(list(v)), [repr(x) if False else x for x in v], __import__("array").array("d", v)][k]
def darr(v): return (D * max(len(v), 1))(*v)

def settle(S, t):
    """the external water, through both"""
    if not job["ext"]: return
    n, e = call("ExternalWaveKinGetN", S.cap); c = cget("ExternalWaveKinGetN", S.t, ["u"])
    if e is not None or c[0] or n != c[1]: return bad("ExternalWaveKinGetN", "ExternalWaveKinGetN: %r, C %s" % (e if e is not None else n, c))
    N = n; co = (D * (3 * max(N, 1)))(); L.MoorDyn_ExternalWaveKinGetCoordinates(V(S.t), co)
    v, e = call("GetWaveKinCoordinates", S.cap); ob("getter results compared")
    if e is not None or not same([tuple(q) for q in v], [tuple(co[3 * i:3 * i + 3]) for i in range(N)]): return bad("GetWaveKinCoordinates", "GetWaveKinCoordinates: %r, C differs" % (e if e is not None else v[:3]))
    u = [[rng.uniform(-1, 1) for _ in range(3)] for _ in range(N)]; a = [[rng.uniform(-1, 1) for _ in range(3)] for _ in range(N)]
    r, e = call("SetWaveKin", S.cap, u, a, t); rc = L.MoorDyn_ExternalWaveKinSet(V(S.t), darr(sum(u, [])), darr(sum(a, [])), D(t)); ob("controls")
    if e is not None or r != rc: bad("SetWaveKin", "SetWaveKin: %r, C %d" % (e if e is not None else r, rc))

def controls(S):
    for kind, cap, pp, tp, i in list(S.objects()):
        if kind != "line" or rng.random() < .4: continue
        n = cget("GetLineN", pp, ["u"])[1]; ea = cget("GetLineConstantEA", pp, ["d"])[1]; ul = cget("GetLineUnstretchedLength", pp, ["d"])[1]
        for name, val, cargs in (("SetLineUnstretchedLength", ul * rng.uniform(.995, 1.005), None), ("SetLineUnstretchedLengthVel", rng.uniform(-.01, .01), None), ("SetLineConstantEA", ea * rng.uniform(.9, 1.1), None),
                                 ("SetLinePressBend", rng.choice([True, False, 0, 1]), "b"), ("SetLinePressInt", [rng.uniform(0, 1e4) for _ in range(n + 1)], "a")):
            if rng.random() < .4: continue
            v, e = call(name, cap, dress(val) if cargs == "a" else val)
            rc = getattr(L, "MoorDyn_" + name)(V(tp), D(val) if cargs is None else I(int(val)) if cargs == "b" else darr(val)); ob("controls"); shapes.add("%s/%s" % (name, "error" if rc else "ok"))
            if rc:
                if e is None and v in (None, 0): bad(name, "%s: C gives %d, the wrapper says nothing" % (name, rc))
                elif e is not None: proper(name, e, "C gives %d" % rc)
            elif e is not None: bad(name, "%s(%r) raised %s: %s" % (name, val, type(e).__name__, e))

def init(S, x, v, ic):
    r, e = call("Init" if ic else "Init_NoIC", S.cap, dress(x), dress(v)); rc = getattr(L, "MoorDyn_Init" if ic else "MoorDyn_Init_NoIC")(V(S.t), darr(x), darr(v)); ob("controls")
    if e is not None or r != rc: bad("Init", "Init: %r, C gives %d" % (e if e is not None else r, rc))
    return rc == 0 and e is None

def step(S, x, v, t, dt):
    f = darr([0.0] * S.n); T, H = D(t), D(dt)
    r, e = call("Step", S.cap, dress(x), dress(v), t, dt); rc = L.MoorDyn_Step(V(S.t), darr(x), darr(v), f, C.byref(T), C.byref(H)); ob("steps compared")
    if rc:
        if e is None: bad("Step", "Step: C gives %d, the wrapper %r" % (rc, r))
        else: proper("Step", e, "C gives %d" % rc)
        return False
    if e is not None: bad("Step", "Step raised %s: %s" % (type(e).__name__, e)); return False
    if FORT and moordyn.stepped != (T.value, H.value): bad("Step:time", "Step(%g, %g) returns the times %s, C %s" % (t, dt, moordyn.stepped, (T.value, H.value)))
    if not same(r, tuple(f[:S.n])): bad("Step", "Step at %g: wrapper %s, C %s" % (t, r, list(f[:S.n]))); return False
    return True

def grows(name, fn, what):
    """memory kept by repeating a call"""
    if bytes_now is None: return
    for _ in range(3): fn()
    gc.collect(); best = None
    for trial in range(3):
        a = bytes_now()
        for _ in range(20): fn()
        gc.collect(); g = bytes_now() - a; best = g if best is None else min(best, g)
        if best <= 20 * 8: break
    ob("repetitions watched for leaks")
    if best > 20 * 8: bad("leak:" + name, "20 repetitions of %s (%s) keep %d bytes allocated" % (name, what, best))

def quiet(fn): 
    def f():
        try: fn()
        except Exception: pass
    return f

def misuse(S, x, v, t, dt):
    """wrong use raises, and changes nothing"""
    caps = {"sys": S.cap, "waves": moordyn.GetWaves(S.cap)}
    fl = moordyn.GetSeafloor(S.cap)
    if fl is not None: caps["floor"] = fl
    pt = {}
    for kind, cap, pp, tp, i in S.objects(): caps.setdefault(kind, cap); pt.setdefault(kind, pp)
    before = snap(S.p); n = S.n
    todo = []   # name, args, what
    wrong = lambda kind: [caps[k] for k in caps if k != kind] + [None, 3, "text", object()]
    for kind in caps:
        for name, _ in GET.get(kind, []): todo += [(name, (w,), "a wrong handle") for w in rng.sample(wrong(kind), 3)]
        for name, _ in NODE.get(kind, []): todo += [(name, (w, 0), "a wrong handle") for w in rng.sample(wrong(kind), 2)] + [(name, (caps[kind], "x"), "a text for an index"), (name, (caps[kind], 1 << 40), "a huge index"), (name, (caps[kind], -1), "a negative index"), (name, (caps[kind], 10 ** 6), "an index too high")]
        if kind in VTK: todo.append((VTK[kind], (rng.choice(wrong(kind)), "f.vtk"), "a wrong handle")); todo.append((VTK[kind], (caps[kind], 5), "a number for a path"))
    for g in ("GetBody", "GetRod", "GetPoint", "GetLine"): todo += [(g, (S.cap, i), "index %d" % i) for i in (0, -1, 10 ** 6)] + [(g, (rng.choice(wrong("sys")), 1), "a wrong handle"), (g, (S.cap, "1"), "a text for an index")]
    for nm, a in (("Init", ()), ("Init_NoIC", ()), ("Step", (t, dt))):
        todo += [(nm, (S.cap, x + [0.0], v) + a, "a position too many"), (nm, (S.cap, x, v + [0.0]) + a, "a velocity too many"), (nm, (S.cap, x, 3) + a, "a number for a list"), (nm, (rng.choice(wrong("sys")), x, v) + a, "a wrong handle")]
        if n: todo += [(nm, (S.cap, x[:-1], v) + a, "a position too few"), (nm, (S.cap, x, v[1:]) + a, "a velocity too few"), (nm, (S.cap, ["x"] + x[1:], v) + a, "a text among the positions"), (nm, (S.cap, x, v[:-1] + [None]) + a, "None among the velocities"), (nm, (S.cap, [[0.0]] + x[1:], v) + a, "a list among the positions")]
    todo += [("Step", (S.cap, x, v, "t", dt), "a text for the time"), ("Step", (S.cap, x, v, t, None), "None for the step")]
    b = before or b""
    todo += [("Deserialize", (S.cap, q), w) for q, w in ((None, "None"), ("text", "a text"), (bytearray(b), "a bytearray"), (b[:-8], "bytes cut by a word"), (b[:-1], "bytes cut by one"), (b"", "no bytes"), (b[:16], "two words"), (b + b"\0" * 8, "bytes too many")) if not isinstance(q, bytearray)]
    todo += [("Deserialize", (rng.choice(wrong("sys")), b), "a wrong handle"), ("Save", (S.cap, 3), "a number for a path"), ("Save", (S.cap, "/nonexistent/dir/f"), "a folder that is not there"), ("Load", (S.cap, "/nonexistent/dir/f"), "a file that is not there"), ("Load", (S.cap, None), "None"), ("Serialize", (rng.choice(wrong("sys")),), "a wrong handle"),
             ("GetFASTtens", (S.cap, -1), "-1 lines"), ("GetFASTtens", (S.cap, 10 ** 5), "too many lines"), ("GetFASTtens", (S.cap, "2"), "a text"), ("GetWavesKin", (caps["waves"], "x", 0.0, 0.0), "a text"), ("GetWavesKin", (caps["waves"], 0.0, 0.0, 0.0, caps["waves"]), "a wrong seafloor"), ("GetWavesKin", (S.cap, 0.0, 0.0, 0.0), "a wrong handle"),
             ("SetWaveKin", (S.cap, [[0.0] * 3] * 10 ** 4, [[0.0] * 3] * 10 ** 4, t), "far too many points"), ("SetWaveKin", (S.cap, [[0.0] * 3], [[0.0] * 2], t), "short vectors"), ("SetVerbosity", (S.cap, "x"), "a text"), ("SetLogFile", (S.cap, 4), "a number"), ("SetLogLevel", (None, 1), "None"), ("Create", (4,), "a number"), ("Create", ("/nonexistent/m.txt",), "a file that is not there"), ("NCoupledDOF", (), "no argument")]
    if job["ext"]:
        N = moordyn.ExternalWaveKinGetN(S.cap); todo += [("SetWaveKin", (S.cap, [[0.0] * 3] * (N + 1), [[0.0] * 3] * (N + 1), t), "a point too many"), ("SetWaveKin", (S.cap, [[0.0, "x", 0.0]] * N, [[0.0] * 3] * N, t), "texts"), ("SetWaveKin", (S.cap, [[0.0] * 3] * N, [[0.0, None, 0.0]] * N, t), "None")]
        if not N: todo = todo[:-2]
    if "line" in caps:
        ln = caps["line"]; N = moordyn.GetLineN(ln)
        todo += [("SetLineUnstretchedLength", (ln, "x"), "a text"), ("SetLineConstantEA", (None, 1.0), "None"), ("SetLinePressInt", (ln, [0.0] * N), "a value too few"), ("SetLinePressInt", (ln, [0.0] * (N + 2)), "a value too many"), ("SetLinePressInt", (ln, [None] * (N + 1)), "None values"), ("SetLinePressInt", (ln, 1.0), "a number for a list"), ("SetLinePressBend", (ln, "x"), "a text"), ("SetLineUnstretchedLengthVel", (caps.get("point", 3), 1.0), "a wrong handle")]
    rng.shuffle(todo)
    for name, args, what in todo[:job["nmis"]]:
        val, e = call(name, *args); ob("misuses tried"); shapes.add("%s: %s" % (name, what))
        if e is None:
            # an error code is an answer as well
            if isinstance(val, int) and val < 0: pass
            elif name == "SetWaveKin" and not job["ext"]: pass
            else: bad("%s accepts %s" % (name, what), "%s given %s returned %r" % (name, what, val))
        else: proper(name, e, what, (RuntimeError, ValueError, TypeError, IndexError, OverflowError, MemoryError, AssertionError))
        if rng.random() < .5: grows(name, quiet(lambda: getattr(moordyn, name)(*args)), what)
    if before is not None and snap(S.p) != before: bad("misuse changes the state", "the state changed by refused calls")

def leaks(S):
    objs = list(S.objects()); k = rng.randrange(5)
    names = []
    for kind, cap, pp, tp, i in [("sys", S.cap, S.p, S.t, 0)] + objs:
        for name, _ in GET.get(kind, []): names.append((name, (cap,)))
        for name, _ in NODE.get(kind, []): names.append((name, (cap, 0)))
        if kind == "point": names.append(("GetPointAttached", (cap, 0)))
    names += [("Serialize", (S.cap,)), ("GetFASTtens", (S.cap, 1)), ("GetWaves", (S.cap,)), ("GetSeafloor", (S.cap,)), ("GetLine", (S.cap, 1)), ("GetPoint", (S.cap, 1)), ("Save", (S.cap, os.path.join(job["dir"], "lk.md"))), ("GetWavesKin", (moordyn.GetWaves(S.cap), 0.0, 0.0, -1.0)), ("GetWaveKinCoordinates", (S.cap,)), ("Deserialize", (S.cap, moordyn.Serialize(S.cap)))]
    for name, args in rng.sample(names, min(len(names), 24)): grows(name, quiet(lambda: getattr(moordyn, name)(*args)), "valid use")

def heard(S):
    """what the verbosity lets through to the terminal"""
    lev = rng.choice([0, 1, 2, 3, 4096]); path = os.path.join(job["dir"], "term"); libc = C.CDLL(None); sent = []
    sys.stdout.flush(); sys.stderr.flush(); libc.fflush(None); keep = os.dup(1), os.dup(2); fd = os.open(path, os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND); os.dup2(fd, 1); os.dup2(fd, 2)
    try:
        call("SetVerbosity", S.cap, lev); L.MoorDyn_SetVerbosity(V(S.t), I(lev))
        for k in range(6):
            q = rng.randrange(4); n = rng.randrange(10 ** 8)
            call("Log", S.cap, q, "wrapper%d\n" % n); L.MoorDyn_Log(V(S.t), I(q), b"library%d\n" % n); sent.append((q, n))
    finally: libc.fflush(None); os.dup2(keep[0], 1); os.dup2(keep[1], 2); [os.close(k) for k in keep + (fd,)]
    t = open(path).read()
    for q, n in sent:
        ob("messages followed to the terminal"); a, b = "wrapper%d" % n in t, "library%d" % n in t
        if a != b: bad("SetVerbosity", "a message of level %d with verbosity %d is %s through the wrapper, %s through C" % (q, lev, "shown" if a else "silent", "shown" if b else "silent"))

def main():
    S = Pair()
    if not S.t: return
    M = job["motion"]
    if job.get("gen"):
        moordyn.SetVerbosity(S.cap, 4096); L.MoorDyn_SetVerbosity(V(S.t), I(4096))
        if not init(S, M["x"][0], M["v"][0], job["ic"]): (shapes.add("init refused"), ob("initialisations refused")); return finish(S, None)
        compare(S, "init"); t = 0.0
        for k in range(1, len(M["x"])):
            if not step(S, M["x"][k], M["v"][k], t, M["h"]): break
            t += M["h"]; compare(S, "step %d" % k)
        shapes.add("%d bodies %d rods %d points %d lines %d failures" % tuple(len(job["gen"][k]) for k in ("bodies", "rods", "points", "lines", "fails")))
        return finish(S, t)
    for c in ("SetVerbosity", "SetLogLevel"):
        k = rng.choice([0, 1, 2, 3, 4096]); r, e = call(c, S.cap, k); rc = getattr(L, "MoorDyn_" + c)(V(S.t), I(k)); ob("controls")
        if e is not None or r != rc: bad(c, "%s(%d): %r, C gives %d" % (c, k, e if e is not None else r, rc))
    heard(S)
    moordyn.SetVerbosity(S.cap, 4096); L.MoorDyn_SetVerbosity(V(S.t), I(4096))
    # the log, and what the level lets through
    lf = os.path.join(job["dir"], "w.log"); lc = os.path.join(job["dir"], "c.log"); lev = rng.choice([0, 1, 2, 3])
    for nm, a in (("SetLogFile", (lf, lc)), ("SetLogLevel", (lev, lev))):
        r, e = call(nm, S.cap, a[0]); rc = getattr(L, "MoorDyn_" + nm)(V(S.t), a[1].encode() if isinstance(a[1], str) else I(a[1]))
        if e is not None or r != rc: bad(nm, "%s: %r, C gives %d" % (nm, e if e is not None else r, rc))
    sent = []
    for k in range(4):
        q = rng.choice([0, 1, 2, 3]); msg = "note%d_%d\n" % (k, rng.randrange(10 ** 6)); r, e = call("Log", S.cap, q, msg); rc = L.MoorDyn_Log(V(S.t), I(q), msg.encode()); sent.append((q, msg)); ob("controls")
        if e is not None or r != rc: bad("Log", "Log(%d): %r, C gives %d" % (q, e if e is not None else r, rc))
    moordyn.SetLogLevel(S.cap, 4096); L.MoorDyn_SetLogLevel(V(S.t), I(4096))
    if job["ext"]:
        r, e = call("ExternalWaveKinInit", S.cap); n = U(); rc = L.MoorDyn_ExternalWaveKinInit(V(S.t), C.byref(n))
        if e is not None or r != rc: bad("ExternalWaveKinInit", "ExternalWaveKinInit: %r, C gives %d" % (e if e is not None else r, rc))
        elif FORT and moordyn.next != n.value: bad("ExternalWaveKinInit", "ExternalWaveKinInit: %r points, C %d" % (moordyn.next, n.value))
    x, v = M["x"][0], M["v"][0]
    settle(S, 0.0)
    if not init(S, x, v, job["ic"]): (shapes.add("init refused"), ob("initialisations refused")); return finish(S, None)
    a, b = open(lf).read() if os.path.exists(lf) else "", open(lc).read() if os.path.exists(lc) else ""
    for q, msg in sent:
        if (msg.strip() in a) != (msg.strip() in b): bad("Log", "message %r at level %d with log level %d: %s in the file of the wrapper, %s in that of C" % (msg, q, lev, msg.strip() in a, msg.strip() in b))
    compare(S, "init")
    for kind, cap, pp, tp, i in S.objects():
        w = job["types"].get(kind, [])
        if i <= len(w) and hasattr(moordyn, "%s_TYPE_%s" % (kind.upper(), w[i - 1])):
            ob("object kinds named"); q = getattr(moordyn, "%s_TYPE_%s" % (kind.upper(), w[i - 1])); ty = {"body": moordyn.GetBodyType, "rod": moordyn.GetRodType, "point": moordyn.GetPointType}[kind](cap)
            if ty != q: bad("type:" + kind, "%s %d declared %s reports type %r, the constant is %r" % (kind, i, w[i - 1], ty, q))
    t = 0.0; alive = True; keep = None
    for k in range(1, len(M["x"])):
        settle(S, t)
        alive = step(S, M["x"][k], M["v"][k], t, M["h"]); t += M["h"]
        if not alive: break
        if rng.random() < .35: compare(S, "step %d" % k)
        if rng.random() < .25: controls(S)
        if rng.random() < .3:
            b1, e = call("Serialize", S.cap); b2 = snap(S.p); b3 = snap(S.t); ob("snapshots compared")
            if e is not None or b1 != b2: bad("Serialize", "Serialize: %s, C gives %d bytes" % (e if e is not None else "%d other bytes" % len(b1), len(b2)))
            elif b2 != b3: bad("twin:Serialize", "the state differs from the twin driven through C")
            if keep is None: keep = (b1, b3)
        if rng.random() < .15:
            f1, f2 = os.path.join(job["dir"], "w.md"), os.path.join(job["dir"], "c.md"); r, e = call("Save", S.cap, f1); rc = L.MoorDyn_Save(V(S.t), f2.encode()); ob("snapshots compared")
            if e is not None or rc or open(f1, "rb").read() != open(f2, "rb").read(): bad("Save", "Save: %r, other bytes than C" % e)
            elif rng.random() < .5:
                r, e = call("Load", S.cap, f1); rc = L.MoorDyn_Load(V(S.t), f2.encode())
                if (e is None) != (rc == 0): bad("Load", "Load: %r, C gives %d" % (e, rc))
        if keep and rng.random() < .15:
            r, e = call("Deserialize", S.cap, keep[0]); rc = L.MoorDyn_Deserialize(V(S.t), keep[1]); ob("snapshots compared")
            if (e is None) != (rc == 0): bad("Deserialize", "Deserialize: %r, C gives %d" % (e, rc))
    if alive:
        compare(S, "the run")
        if job["nmis"]: misuse(S, x, v, t, M["h"])
        if not FORT: leaks(S)
        settle(S, t)
        if step(S, M["x"][-1], M["v"][-1], t, M["h"]): compare(S, "misuse")
        if S.n and not FORT and rng.random() < .5: grows("Step", quiet(lambda: moordyn.Step(S.cap, [float("nan")] * S.n, M["v"][-1], t, M["h"])), "steps that fail")
    finish(S, t)

def finish(S, t):
    r, e = call("Close", S.cap); rc = L.MoorDyn_Close(V(S.t))
    if e is not None or r != rc: bad("Close", "Close: %r, C gives %d" % (e if e is not None else r, rc))

CONST = {"LEVEL_NONE": "MOORDYN_NO_OUTPUT", "LEVEL_ERR": "MOORDYN_ERR_LEVEL", "LEVEL_WRN": "MOORDYN_WRN_LEVEL", "LEVEL_MSG": "MOORDYN_MSG_LEVEL", "LEVEL_DBG": "MOORDYN_DBG_LEVEL",
         **{"ERRCODE_" + k: "MOORDYN_" + k for k in ("SUCCESS", "INVALID_INPUT_FILE", "INVALID_OUTPUT_FILE", "INVALID_INPUT", "NAN_ERROR", "MEM_ERROR", "INVALID_VALUE", "NON_IMPLEMENTED", "UNHANDLED_ERROR")}}
for k, c in CONST.items():
    if c in job["consts"]:
        ob("constants compared")
        if getattr(moordyn, k, None) != job["consts"][c]: bad("constant", "%s is %r, %s is %d" % (k, getattr(moordyn, k, None), c, job["consts"][c]))
main()
json.dump({"viol": viol, "stats": stats, "shapes": sorted(shapes)}, open(job["out"], "w"))
