"""The functions of the Fortran module under the names of the Python wrapper, so that pyw.py can drive both.
Every call goes through harness/fshim.f90, which calls the module the way a Fortran program does."""
import ctypes as C
V, D, U, I = C.c_void_p, C.c_double, C.c_uint, C.c_int
SIG = {"NCoupledDOF": "I:r", "SetVerbosity": "i:r", "SetLogFile": "s:r", "SetLogLevel": "i:r", "Log": "is:r", "Init": "AA:r", "Init_NoIC": "AA:r", "Step": "AAATT:r", "Close": ":r", "GetWaves": ":p", "GetSeafloor": ":p", "ExternalWaveKinInit": "I:r", "ExternalWaveKinGetN": "I:r", "ExternalWaveKinGetCoordinates": "A:r", "ExternalWaveKinSet": "AAd:r", "GetNumberBodies": "I:r", "GetBody": "i:p", "GetNumberRods": "I:r", "GetRod": "i:p", "GetNumberPoints": "I:r", "GetPoint": "i:p", "GetNumberLines": "I:r", "GetLine": "i:p", "GetFASTtens": "iAAAA:r", "Save": "s:r", "Load": "s:r", "SaveVTK": "s:r", "GetWavesKin": "ddddAADDc:r", "GetDepthAt": "ddD:r", "GetAverageDepth": "D:r", "GetMinDepth": "D:r", "GetBodyID": "I:r", "GetBodyType": "I:r", "GetBodyState": "AA:r", "GetBodyPos": "A:r", "GetBodyAngle": "A:r", "GetBodyVel": "A:r", "GetBodyAngVel": "A:r", "GetBodyForce": "A:r", "GetBodyM": "A:r", "SaveBodyVTK": "s:r", "UseBodyVTK": "s:r", "GetRodID": "I:r", "GetRodType": "I:r", "GetRodForce": "A:r", "GetRodM": "A:r", "GetRodN": "I:r", "GetRodNumberNodes": "I:r", "GetRodNodePos": "iA:r", "GetRodNodeVel": "iA:r", "SaveRodVTK": "s:r", "GetPointID": "I:r", "GetPointType": "I:r", "GetPointPos": "A:r", "GetPointVel": "A:r", "GetPointForce": "A:r", "GetPointM": "A:r", "GetPointNAttached": "I:r", "GetPointAttached": "iPI:r", "SavePointVTK": "s:r", "GetLineID": "I:r", "GetLineN": "I:r", "GetLineNumberNodes": "I:r", "GetLineUnstretchedLength": "D:r", "SetLineUnstretchedLength": "d:r", "SetLineUnstretchedLengthVel": "d:r", "IsLineConstantEA": "I:r", "GetLineConstantEA": "D:r", "SetLineConstantEA": "d:r", "IsLinePressBend": "I:r", "SetLinePressBend": "i:r", "SetLinePressInt": "A:r", "GetLineNodePos": "iA:r", "GetLineNodeVel": "iA:r", "GetLineNodeForce": "iA:r", "GetLineNodeTen": "iA:r", "GetLineNodeBendStiff": "iA:r", "GetLineNodeWeight": "iA:r", "GetLineNodeDrag": "iA:r", "GetLineNodeFroudeKrilov": "iA:r", "GetLineNodeSeabedForce": "iA:r", "GetLineNodeCurv": "iD:r", "GetLineNodeM": "iA:r", "GetLineMaxTen": "D:r", "GetLineFairTen": "D:r", "SaveLineVTK": "s:r"}
CONST = ["LEVEL_NONE", "LEVEL_ERR", "LEVEL_WRN", "LEVEL_MSG", "LEVEL_DBG"] + ["ERRCODE_" + k for k in ("SUCCESS", "INVALID_INPUT_FILE", "INVALID_OUTPUT_FILE", "INVALID_INPUT", "NAN_ERROR", "MEM_ERROR", "INVALID_VALUE", "NON_IMPLEMENTED", "UNHANDLED_ERROR")]

class H:
    def __init__(self, p, kind): self.p, self.kind = p, kind

class Module:
    def __init__(self, F, L, rng, bad, ob, get, node, size):
        self.F, self.L, self.rng, self.bad, self.ob = F, L, rng, bad, ob
        self.spoiled = I.in_dll(F, "f_spoiled")
        F.f_Create.restype = V
        for n, s in SIG.items(): getattr(F, "f_" + n).restype = V if s.endswith("p") else I
        for k, n in enumerate(CONST): setattr(self, n, F.f_constant(I(k)))
        for tab in (get, node):
            for kind in tab:
                for name, shape in tab[kind]: setattr(self, name, self.getter(name, shape))
        for n in ("SetVerbosity", "SetLogLevel", "SetLogFile", "Log", "Save", "Load", "SaveVTK", "SaveBodyVTK", "SaveRodVTK", "SavePointVTK", "SaveLineVTK", "UseBodyVTK", "SetLineUnstretchedLength", "SetLineUnstretchedLengthVel", "SetLineConstantEA", "SetLinePressBend", "SetLinePressInt", "Init", "Init_NoIC", "Close"):
            setattr(self, n, self.setter(n))
        for n in ("GetBody", "GetRod", "GetPoint", "GetLine"): setattr(self, n, self.child(n))
    def f(self, name, h, *vals):
        """call; the values of the outputs come back in order of the signature"""
        s, _, res = SIG[name].partition(":"); args = [V(h.p)]; outs = []
        for c, v in zip(s, vals):
            if c in "IP": o = (I if c == "I" else V)(-77 if c == "I" else 12345); args.append(C.byref(o)); outs.append(o)
            elif c in "DT": o = D(-77.5 if v is None else v); args.append(C.byref(o)); outs.append(o)
            elif c == "i": args.append(I(int(v)))
            elif c == "d": args.append(D(v))
            elif c == "c": args.append(V(v.p if v is not None else None))
            elif c == "s": b = str(v).encode() + b" " * self.rng.choice([0, 0, 1, 40]); args += [b, I(len(b))]
            else: # an array to fill (its length) or to read (its values)
                v = [-77.25] * v if isinstance(v, int) else [float(x) for x in v]
                o = (D * max(len(v), 1))(*v); args += [o, I(len(v)), I(self.rng.choice([1, 1, 2, 3]))]; o.n = len(v); outs.append(o)
        self.spoiled.value = 0
        rc = getattr(self.F, "f_" + name)(*args); self.ob("calls through Fortran")
        if self.spoiled.value: self.bad("spoiled:" + name, "%s writes %d values beside the array it was given" % (name, self.spoiled.value))
        return rc, [tuple(o[:o.n]) if isinstance(o, C.Array) else o.value for o in outs]
    def getter(self, name, shape):
        want = [s if isinstance(s, int) else s[0] * s[1] if isinstance(s, tuple) else None for s in shape]
        def g(cap, *idx):
            rc, o = self.f(name, cap, *idx, *want)
            if rc: raise RuntimeError("code %d" % rc)
            o = [tuple(v[i * s[1]:(i + 1) * s[1]] for i in range(s[0])) if isinstance(s, tuple) else v for s, v in zip(shape, o)]
            o = [v % (1 << 32) if s == "u" else v for s, v in zip(shape, o)]
            return o[0] if len(o) == 1 else tuple(o)
        return g
    def setter(self, name):
        def g(cap, *vals): return self.f(name, cap, *vals)[0]
        return g
    def child(self, name):
        def g(cap, i):
            p = self.f(name, cap, i)[0]
            if not p: raise RuntimeError("no such object")
            return H(p, name[3:].lower())
        return g
    def Create(self, path):
        b = path.encode() + b" " * self.rng.choice([0, 1, 40]); p = self.F.f_Create(b, I(len(b)))
        if not p: raise RuntimeError("refused")
        return H(p, "sys")
    def Step(self, cap, x, v, t, dt):
        x = list(x); rc, (x2, v2, f, t2, h2) = self.f("Step", cap, x, list(v), len(x), t, dt)
        if rc: raise RuntimeError("code %d" % rc)
        self.stepped = (t2, h2)
        return f
    def GetWaves(self, cap): return H(self.f("GetWaves", cap)[0], "waves")
    def GetSeafloor(self, cap):
        p = self.f("GetSeafloor", cap)[0]
        return H(p, "floor") if p else None
    def GetPointAttached(self, cap, k):
        rc, (p, e) = self.f("GetPointAttached", cap, k, None, None)
        if rc: raise RuntimeError("code %d" % rc)
        return H(p, "line"), e
    def GetDepthAt(self, cap, x, y):
        rc, (d,) = self.f("GetDepthAt", cap, x, y, None)
        if rc: raise RuntimeError("code %d" % rc)
        return d
    def GetFASTtens(self, cap, k):
        rc, o = self.f("GetFASTtens", cap, k, k, k, k, k)
        if rc: raise RuntimeError("code %d" % rc)
        return tuple(o)
    def GetWavesKin(self, w, x, y, z, floor=None):
        rc, (u, ud, zeta, pd) = self.f("GetWavesKin", w, x, y, z, self.rng.uniform(0, 50), 3, 3, None, None, floor)
        if rc: raise RuntimeError("code %d" % rc)
        return u, ud, zeta, pd
    def ExternalWaveKinInit(self, cap):
        rc, (self.next,) = self.f("ExternalWaveKinInit", cap, None); return rc
    def ExternalWaveKinGetN(self, cap):
        rc, (n,) = self.f("ExternalWaveKinGetN", cap, None)
        if rc: raise RuntimeError("code %d" % rc)
        return n
    def GetWaveKinCoordinates(self, cap):
        n = self.ExternalWaveKinGetN(cap); rc, (r,) = self.f("ExternalWaveKinGetCoordinates", cap, 3 * n)
        if rc: raise RuntimeError("code %d" % rc)
        return [r[3 * i:3 * i + 3] for i in range(n)]
    def SetWaveKin(self, cap, u, a, t): return self.f("ExternalWaveKinSet", cap, sum(u, []), sum(a, []), t)[0]
    def Serialize(self, cap):
        n = C.c_size_t(); self.L.MoorDyn_Serialize(V(cap.p), C.byref(n), None); b = C.create_string_buffer(n.value); self.L.MoorDyn_Serialize(V(cap.p), None, b); return b.raw
    def Deserialize(self, cap, b):
        rc = self.L.MoorDyn_Deserialize(V(cap.p), b)
        if rc: raise RuntimeError("code %d" % rc)
        return rc
