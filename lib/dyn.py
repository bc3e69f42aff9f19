"""Right-hand side of a whole system (lines, points, rods, bodies) in water at rest or under a uniform
steady current, over a flat bed, built from the reference model: the oracle of the time-scheme replay."""
import math
import numpy as np
import ref, trace
from trace import A
from deck import btype, rtype_, ptype, attbody, euler

class Dyn:
    def __init__(self, m, D0, U=(0, 0, 0)):
        self.m, self.env, self.U = m, ref.Env(m), A(U)
        env = self.env; env.depth = lambda x, y: -env.H
        self.lt = [ref.Line(trace.ltype_of(m, i), l["L"], l["N"]) for i, l in enumerate(m.lines)]
        self.rt = [ref.Rod(trace.rtype_of(m, j), r["a"], r["b"], r["N"]) for j, r in enumerate(m.rods)]
        self.bt = [ref.Body(b, env) for b in m.bodies]
        self.margin = 1e9
        # layout of the flat state
        self.off = {}; n = 0
        def add(k, i, sz):
            nonlocal n
            self.off[k, i] = slice(n, n + sz); n += sz
        for k, b in enumerate(m.bodies):
            if btype(b["att"]) in ("FREE", "CPLDPIN"): add("B", k, 13)
        for j, r in enumerate(m.rods):
            if rtype_(r["att"]) in ("FREE", "PINNED", "CPLDPIN"): add("R", j, 13)
        for j, p in enumerate(m.points):
            if ptype(p["att"]) == "FREE": add("P", j, 6)
        for i, l in enumerate(m.lines): add("L", i, 6 * (l["N"] - 1))
        self.n = n
        y = np.zeros(n)
        for (k, i), s in self.off.items():
            if k == "B": o = D0["bodies"][i]; y[s] = np.concatenate([o["pos"], ref.mat2q(euler(A(o["ang"]))), o["vel"], o["om"]])
            elif k == "R": o = D0["rods"][i]; y[s] = np.concatenate([o["pos"][0], [1, 0, 0, 0], o["vel"][0], [0, 0, 0]])
            elif k == "P": o = D0["points"][i]; y[s] = np.concatenate([o["pos"], o["vel"]])
            else: o = D0["lines"][i]; y[s] = np.concatenate([A(o["pos"])[1:-1].ravel(), A(o["vel"])[1:-1].ravel()])
        self.y0 = y
    def place(self, tl, y, x, xd):
        """every object's kinematics; x, xd the driven motion of the coupling step, tl the time since its start"""
        m = self.m; dr = trace.driven(m, x, xd); K = {"B": {}, "P": {}, "R": {}}
        for k, b in enumerate(m.bodies):
            t = btype(b["att"])
            if t == "COUPLED": X, V = dr["B"][k]; K["B"][k] = (X[:3] + V[:3] * tl, euler(X[3:] + V[3:] * tl), V[:3], V[3:])
            elif t == "FIXED": K["B"][k] = (A(b["r6"][:3]), euler(np.radians(b["r6"][3:])), np.zeros(3), np.zeros(3))
            else:
                s = y[self.off["B", k]]
                if t == "FREE": K["B"][k] = (s[:3], ref.qmat(s[3:7]), s[7:10], s[10:])
                else: X, V = dr["B"][k]; K["B"][k] = (X[:3] + V[:3] * tl, ref.qmat(s[3:7]), V[:3], s[10:])
        for j, p in enumerate(m.points):
            b = attbody(p["att"]); t = ptype(p["att"])
            if b: P, R, v, w = K["B"][b - 1]; rel = R @ A(p["r"]); K["P"][j] = (P + rel, v + np.cross(w, rel))
            elif t == "COUPLED": X, V = dr["P"][j]; K["P"][j] = (X + V * tl, V)
            elif t == "FIXED": K["P"][j] = (A(p["r"]), np.zeros(3))
            else: s = y[self.off["P", j]]; K["P"][j] = (s[:3], s[3:])
        for j, r in enumerate(m.rods):
            b = attbody(r["att"]); t = rtype_(r["att"]); a, e = A(r["a"]), A(r["b"]); R_ = self.rt[j]
            if b: P, R, v, w = K["B"][b - 1]; q = R @ R_.q0; pa = P + R @ a; va = v + np.cross(w, R @ a)
            elif t == "COUPLED": X, V = dr["R"][j]; q = euler(X[3:] + V[3:] * tl) @ R_.q0; pa = X[:3] + V[:3] * tl; va, w = V[:3], V[3:]
            elif t == "FIXED": q, pa, va, w = R_.q0, a, np.zeros(3), np.zeros(3)
            else:
                s = y[self.off["R", j]]; q = ref.qmat(s[3:7]) @ R_.q0; w = s[10:]
                if t == "FREE": pa, va = s[:3], s[7:10]
                elif t == "PINNED": pa, va = a, np.zeros(3)
                else: X, V = dr["R"][j]; pa, va = X[:3] + V[:3] * tl, V[:3]
            K["R"][j] = (pa, pa + R_.L * q, va, va + np.cross(w, R_.L * q), q)
        return K
    def f(self, tl, y, x, xd, acc=None):
        """acc: acceleration of the driven objects (kind -> index -> 6 or 3 values), None for uniform motion.
        Leaves in self.load what the driven objects require from the caller."""
        self.load = {}; A0 = lambda kd, j, n: acc[kd][j] if acc else np.zeros(n)
        m, env = self.m, self.env; K = self.place(tl, y, x, xd); dy = np.zeros(self.n)
        endP = {j: [] for j in range(len(m.points))}; endR = {j: ([], []) for j in range(len(m.rods))}; momR = {j: np.zeros(3) for j in range(len(m.rods))}
        for i, l in enumerate(m.lines):
            N = l["N"]; s = y[self.off["L", i]]; h = 3 * (N - 1)
            r = np.zeros((N + 1, 3)); v = np.zeros((N + 1, 3))
            r[1:-1] = s[:h].reshape(-1, 3); v[1:-1] = s[h:].reshape(-1, 3)
            qe = []
            for e, n in (("A", 0), ("B", N)):
                kd, j, re_ = trace.end_of(l[e])
                if kd == "P": r[n], v[n] = K["P"][j]; qe.append(None)
                else:
                    pa, pb, va, vb, q = K["R"][j]; r[n], v[n] = (pa, va) if re_ == "A" else (pb, vb)
                    qe.append((-q if re_ == "B" else q) if e == "B" else (-q if re_ == "A" else q))
            o = ref.line_rhs(self.lt[i], env, r, v, np.tile(self.U, (N + 1, 1)), np.zeros((N + 1, 3)), np.zeros(N + 1), np.zeros(N + 1), qe[0], qe[1])
            if o["fric_edge"]: self.margin = 0.0
            d = dy[self.off["L", i]]
            d[:h] = s[h:]
            for n in range(1, N): d[h + 3 * (n - 1):h + 3 * n] = np.linalg.solve(o["M"][n], o["F"][n])
            for e, n in (("A", 0), ("B", N)):
                kd, j, re_ = trace.end_of(l[e]); q = (o["F"][n], o["M"][n])
                if kd == "P": endP[j].append(q)
                else: endR[j][0 if re_ == "A" else 1].append(q); momR[j] = momR[j] + ref.end_moment(self.lt[i], r, qe[0 if e == "A" else 1], e)[0]
        con = {k: [] for k in range(len(m.bodies))}
        for j, p in enumerate(m.points):
            F, M = ref.point_rhs(p, env, K["P"][j][1], self.U, endP[j]); b = attbody(p["att"])
            if b: con[b - 1].append(ref.point_on(K["P"][j][0], F, M, K["B"][b - 1][0], K["B"][b - 1][3]))
            elif ptype(p["att"]) == "COUPLED": self.load["P", j] = F
            elif ("P", j) in self.off: d = dy[self.off["P", j]]; d[:3] = K["P"][j][1]; d[3:] = np.linalg.solve(M, F)
        for j, r in enumerate(m.rods):
            pa, pb, va, vb, q = K["R"][j]; N = r["N"]; z = np.zeros(N + 1)
            o = ref.rod_rhs(self.rt[j], env, pa, pb, va, vb, q, np.tile(self.U, (N + 1, 1)), np.zeros((N + 1, 3)), z, z, *endR[j], mom=momR[j])
            self.margin = min(self.margin, o["margin"]); b = attbody(r["att"]); t = rtype_(r["att"])
            if b: con[b - 1].append(ref.rod_on(self.rt[j], o, K["B"][b - 1][0], K["B"][b - 1][3]))
            elif t == "COUPLED": self.load["R", j] = o["F6"] - o["M6"] @ A0("R", j, 6)
            elif ("R", j) in self.off:
                s = y[self.off["R", j]]; d = dy[self.off["R", j]]
                d[3:7] = ref.qdot(s[3:7], s[10:])
                if t == "FREE": d[:3] = s[7:10]; d[7:] = np.linalg.solve(o["M6"], o["F6"])
                else:
                    a0 = A0("R", j, 3)[:3] if t == "CPLDPIN" else np.zeros(3)
                    d[10:] = np.linalg.solve(o["M6"][3:, 3:], o["F6"][3:] - o["M6"][3:, :3] @ a0)
                    self.load["R", j] = o["F6"][:3] - o["M6"][:3, :3] @ a0 - o["M6"][:3, 3:] @ d[10:]
        for k, b in enumerate(m.bodies):
            P, R, v, w = K["B"][k]
            F, M = ref.body_rhs(self.bt[k], env, R, P, np.concatenate([v, w]), self.U, con[k])
            if btype(b["att"]) == "COUPLED": self.load["B", k] = F - M @ A0("B", k, 6)
            if ("B", k) not in self.off: continue
            s = y[self.off["B", k]]; d = dy[self.off["B", k]]
            d[3:7] = ref.qdot(s[3:7], s[10:])
            if btype(b["att"]) == "FREE": d[:3] = s[7:10]; d[7:] = np.linalg.solve(M, F)
            else:
                a0 = A0("B", k, 3)[:3]
                d[10:] = np.linalg.solve(M[3:, 3:], F[3:] - M[3:, :3] @ a0)
                self.load["B", k] = np.concatenate([F[:3] - M[:3, :3] @ a0 - M[:3, 3:] @ d[10:], np.zeros(3)])
        return dy
    def observe(self, y, D):
        """[(what, state of the replay, state observed in dump D)]"""
        o = []
        for (k, i), s in self.off.items():
            v = y[s]
            if k == "B":
                B = D["bodies"][i]
                o.append(("body %d rotation" % (i + 1), ref.qmat(v[3:7]).ravel(), euler(A(B["ang"])).ravel())); o.append(("body %d spin" % (i + 1), v[10:], A(B["om"])))
                if btype(self.m.bodies[i]["att"]) == "FREE": o.append(("body %d position" % (i + 1), v[:3], A(B["pos"]))); o.append(("body %d velocity" % (i + 1), v[7:10], A(B["vel"])))
            elif k == "R":
                R = D["rods"][i]; N = R["N"]; L = self.rt[i].L; q = ref.qmat(v[3:7]) @ self.rt[i].q0
                o.append(("rod %d direction" % (i + 1), q, (A(R["pos"][N]) - A(R["pos"][0])) / L)); o.append(("rod %d spin" % (i + 1), np.cross(v[10:], q), (A(R["vel"][N]) - A(R["vel"][0])) / L))
                if rtype_(self.m.rods[i]["att"]) == "FREE": o.append(("rod %d position" % (i + 1), v[:3], A(R["pos"][0]))); o.append(("rod %d velocity" % (i + 1), v[7:10], A(R["vel"][0])))
            elif k == "P": o.append(("point %d" % (i + 1), v, A(D["points"][i]["pos"] + D["points"][i]["vel"])))
            elif len(v): o.append(("line %d" % (i + 1), v, np.concatenate([A(D["lines"][i]["pos"])[1:-1].ravel(), A(D["lines"][i]["vel"])[1:-1].ravel()])))
        return o
    def vec(self, D):
        return np.concatenate([x[2] for x in self.observe(self.y0, D)]) if self.off else np.zeros(0)

# --- explicit schemes: advance (y, hist) over one internal step
def substeps(dt, dtM):
    out, rem = [], dt
    while rem > 0.0:
        h = min(dtM, rem); out.append(h); rem -= h
    return out

def advance(scheme, F, tl, y, h, hist):
    """F(tl, y) -> dy.  hist: past derivatives of the multistep schemes, most recent first."""
    if scheme == "euler": return y + h * F(tl, y)
    if scheme == "rk2": k = F(tl, y); return y + h * F(tl + h / 2, y + h / 2 * k)
    if scheme == "rk4":
        a = F(tl, y); b = F(tl + h / 2, y + h / 2 * a); c = F(tl + h / 2, y + h / 2 * b); d = F(tl + h, y + h * c)
        return y + h / 6 * (a + d) + h / 3 * (b + c)
    if scheme.startswith("ab"):
        n = int(scheme[2:]); hist.insert(0, F(tl, y)); del hist[n:]
        C = {1: [1.0], 2: [1.5, -.5], 3: [23 / 12, -4 / 3, 5 / 12], 4: [55 / 24, -59 / 24, 37 / 24, -3 / 8]}[len(hist)]
        return y + h * sum(c * f for c, f in zip(C, hist))
    raise ValueError(scheme)
