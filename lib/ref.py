"""Independent reference model of the documented physics (numpy, double precision).

Everything here is written from the documentation (docs/) and the published
lumped-mass equations; it never calls the library.
"""
import math
import numpy as np
from deck import euler, btype, rtype_, ptype, attbody

ZH = np.array([0.0, 0.0, 1.0])
I3 = np.eye(3)

class Env:
    def __init__(self, m):
        o = m.opts
        g = lambda *ks, d: next((float(o[k]) for k in ks if k in o), d)
        self.rho = g("rho", "Rho", "WtrDnsty", d=1025.0); self.g = g("g", "gravity", d=9.80665)
        self.kb = g("kb", "kBot", "kbot", d=3e6); self.cb = g("cb", "cBot", "cbot", d=3e5)
        self.mu = g("FrictionCoefficient", d=0.0); self.cv = g("FricDamp", d=200.0); self.sds = g("StatDynFricScale", d=1.0)
        self.H = g("WtrDpth", d=0.0)
        self.depth = lambda x, y: -self.H

class Line:
    def __init__(self, t, L, N):
        self.d = float(t["d"]); self.w = float(t["w"]); self.N = N; self.UL = float(L)
        self.A = math.pi / 4 * self.d ** 2; self.rho = self.w / self.A
        self.tab = {k: t.get(k + "_tab") for k in ("EA", "BA", "EI")}
        self.EA = float(t["EA"]) if self.tab["EA"] is None else None
        self.EI = float(t["EI"]) if self.tab["EI"] is None else None
        BA = float(t["BA"]) if self.tab["BA"] is None else None
        self.Cdn, self.Can, self.Cdt, self.Cat = (float(t[k]) for k in ("Cd", "Ca", "CdAx", "CaAx"))
        EA0 = self.EA if self.EA is not None else self.tab["EA"][1][-1] / self.tab["EA"][0][-1]
        self.BA_N = None
        if BA is not None:
            self.BA_N = BA if BA >= 0 else -BA * (self.UL / N) * math.sqrt(EA0 * self.w)   # internal damping, N s
        self.pb = False; self.pin = np.zeros(N + 1)
        self.hasEI = self.tab["EI"] is not None or self.EI > 0

def subseg(r1, r2, surf, d):
    z1, z2 = r1[2] - surf, r2[2] - surf
    if z1 <= 0 and z2 < 0: return 1.0
    if z1 > 0 and z2 > 0: return 0.0
    if z1 == -z2: return 0.5
    lo, hi = (r1, r2) if z1 < z2 else (r2, r1)
    ax = hi - lo
    n = np.cross(ax, np.cross(ZH, ax)); ln = np.linalg.norm(n)
    nz = n[2] / ln * d / 2 if ln > 0 else 0.0
    zl, zh = lo[2] - surf - nz, hi[2] - surf + nz
    return abs(zl) / (abs(zl) + zh)

def curvature(l, a, b):
    c = float(a @ b)
    if c + np.finfo(float).eps > 1.0: return 0.0
    return 4.0 / l * math.sqrt(0.5 * (1 - c))

def unitv(v):
    n = np.linalg.norm(v)
    return (v / n if n > 1.2e-14 else v), n

def line_rhs(L, env, r, v, U, Ud, zeta, pd, qA=None, qB=None, UL=None):
    """qA,qB: prescribed end tangents (line attached to a rod), None where pinned."""
    N = L.N; UL = L.UL if UL is None else UL; l = UL / N; V = l * L.A; d = L.d
    seg = r[1:] - r[:-1]; ls = np.linalg.norm(seg, axis=1); qs = seg / ls[:, None]
    ld = np.einsum("ij,ij->i", qs, v[1:] - v[:-1])
    q = np.zeros((N + 1, 3))
    if N > 1:
        t = r[2:] - r[:-2]; q[1:-1] = t / np.linalg.norm(t, axis=1)[:, None]
    q[0] = qs[0] if qA is None or not L.hasEI else qA
    q[N] = qs[-1] if qB is None or not L.hasEI else qB
    F = np.array([subseg(r[i], r[i + 1], 0.5 * (zeta[i] + zeta[i + 1]), d) for i in range(N)])
    Fn = np.zeros(N + 1); Fn[:-1] += F; Fn[1:] += F            # sum of adjacent submergences
    cnt = np.zeros(N + 1); cnt[:-1] += 1; cnt[1:] += 1
    Q = np.einsum("ij,ik->ijk", q, q)
    M = (0.5 * cnt * l * L.w)[:, None, None] * I3 + (env.rho * 0.5 * V * Fn)[:, None, None] * (L.Can * (I3 - Q) + L.Cat * Q)
    # axial
    eps = ls / l - 1.0
    if L.tab["EA"] is None: T = np.where(ls / l > 1.0, L.EA * eps, 0.0)
    else: T = np.where(eps > 0, np.interp(eps, *L.tab["EA"]), 0.0)
    rate = ld / l
    if L.tab["BA"] is None: Td = L.BA_N * rate
    else:
        xs, ys = L.tab["BA"]
        # the table holds stress against rate
        Td = L.A * (np.interp(rate, xs, ys) if xs[0] < 0 else np.sign(rate) * np.interp(abs(rate), xs, ys))
        Td = np.where(rate == 0, 0.0, Td)
    Ts = (T[:, None] * qs); Tds = Td[:, None] * qs
    # bending
    Bs = np.zeros((N + 1, 3)); Pb = np.zeros((N + 1, 3)); K = np.zeros(N + 1)
    if L.hasEI or L.pb:
        for i in range(N + 1):
            if i == 0: K[i] = curvature(ls[0], q[0], qs[0]) if qA is not None else 0.0
            elif i == N: K[i] = curvature(ls[-1], qs[-1], q[N]) if qB is not None else 0.0
            else: K[i] = curvature(ls[i - 1] + ls[i], qs[i - 1], qs[i])
            if K[i] <= 1.2e-14: continue
            a = q[0] if i == 0 else qs[i - 1]; b = q[N] if i == N else qs[i]
            p = np.cross(a, b); n = np.linalg.norm(p)
            if n > 1.2e-14: p = p / n
            if L.hasEI:
                mom = np.interp(K[i], *L.tab["EI"]) if L.tab["EI"] is not None else L.EI * K[i]
                if i > 0:
                    fm = np.cross(qs[i - 1], p) * mom / ls[i - 1]; Bs[i - 1] += fm; Bs[i] -= fm
                if i < N:
                    fp = np.cross(qs[i], p) * mom / ls[i]; Bs[i + 1] += fp; Bs[i] -= fp
            if L.pb:
                h = max(0.0, zeta[i] - r[i][2])
                pr = L.pin[i] - (env.rho * env.g * h + pd[i])
                Pb[i] = 0.5 * L.A * cnt[i] * l * pr * K[i] * np.cross(q[i], p)
    W = np.zeros((N + 1, 3)); W[:, 2] = -0.5 * L.A * l * (cnt * L.rho - Fn * env.rho) * env.g
    vi = U - v
    vq = np.einsum("ij,ij->i", vi, q)[:, None] * q; vp = vi - vq
    D = 0.25 * env.rho * d * (Fn * l)[:, None] * (L.Cdn * np.linalg.norm(vp, axis=1)[:, None] * vp + math.pi * L.Cdt * np.linalg.norm(vq, axis=1)[:, None] * vq)
    aq = np.einsum("ij,ij->i", Ud, q)[:, None] * q; ap = Ud - aq
    Af = env.rho * 0.5 * V * Fn[:, None] * ((1 + L.Can) * ap + (1 + L.Cat) * aq)
    B = np.zeros((N + 1, 3)); fric_edge = False
    for i in range(N + 1):
        dep = env.depth(r[i][0], r[i][1])
        if r[i][2] < dep:
            B[i][2] = ((dep - r[i][2]) * env.kb - v[i][2] * env.cb) * 0.5 * d * l * cnt[i]
            fmax = abs(B[i][2]) * env.mu; vh = math.hypot(v[i][0], v[i][1])
            f = vh * env.mu * env.cv
            if fmax > 0 and abs(f / (env.sds * fmax) - 1) < 1e-6: fric_edge = True
            if f > env.sds * fmax: f = fmax
            if vh > 0: B[i][:2] = -f * v[i][:2] / vh
    Fnet = W + D + Af + B + Bs + Pb
    Fnet[:-1] += Ts + Tds; Fnet[1:] -= Ts + Tds
    # reported nodal tension
    nt = np.zeros((N + 1, 3)); tt = Ts + Tds
    nt[0] = tt[0]; nt[N] = tt[-1]
    if N > 1: nt[1:-1] = 0.5 * (tt[1:] + tt[:-1])
    return dict(M=M, W=W, D=D, A=Af, B=B, Bs=Bs, Pb=Pb, T=nt, F=Fnet, curv=K, ls=ls, sub=F, Tseg=T, Tdseg=Td, fric_edge=fric_edge, q=q)

def H(r):
    """getH: H(r) a = -r x a = a x r"""
    x, y, z = r
    return np.array([[0, z, -y], [-z, 0, x], [y, -x, 0.0]])

def trans_mass(r, M):
    """3x3 mass at offset r -> 6x6 about the reference."""
    h = H(r); o = np.zeros((6, 6)); o[:3, :3] = M; o[:3, 3:] = M @ h; o[3:, :3] = (M @ h).T; o[3:, 3:] = h @ M @ h.T
    return o
def trans_mass6(r, M):
    h = H(r); o = np.zeros((6, 6)); m = M[:3, :3]
    o[:3, :3] = m; o[:3, 3:] = m @ h + M[:3, 3:]; o[3:, :3] = o[:3, 3:].T
    o[3:, 3:] = h @ m @ h.T + M[3:, :3] @ h + h.T @ M[:3, 3:] + M[3:, 3:]
    return o
def rot_mass6(R, M):
    o = np.zeros((6, 6))
    for a in (0, 3):
        for b in (0, 3): o[a:a + 3, b:b + 3] = R @ M[a:a + 3, b:b + 3] @ R.T
    o[3:, :3] = o[:3, 3:].T
    return o

def point_rhs(P, env, v, U, ends, Fc=None):
    """ends: list of (F, M3) line-end loads."""
    F = np.array([0, 0, env.g * (P["V"] * env.rho - P["m"])]) + (0 if Fc is None else Fc)
    M = (P["m"] + P["V"] * env.rho * P["Ca"]) * I3
    for f, m in ends: F = F + f; M = M + m
    vi = U - v
    return F + 0.5 * env.rho * P["CdA"] * np.linalg.norm(vi) * vi, M

class Rod:
    def __init__(self, t, a, b, N):
        self.d = float(t["d"]); self.w = float(t["w"]); self.N = N
        self.Cdn, self.Can, self.CdE, self.CaE = (float(t[k]) for k in ("Cd", "Ca", "CdEnd", "CaEnd"))
        q = np.array(b, float) - np.array(a, float)
        self.L = np.linalg.norm(q) if N else 0.0
        self.q0 = q / np.linalg.norm(q) if N else np.zeros(3)

def rotz(b): c, s = math.cos(b), math.sin(b); return np.array([[c, -s, 0], [s, c, 0], [0, 0, 1.0]])
def roty(b): c, s = math.cos(b), math.sin(b); return np.array([[c, 0, s], [0, 1, 0], [-s, 0, c]])

def end_moment(L, r, qe, end):
    """moment a cantilevered line end puts on its rod (the reaction to the couple on the end segment), and its rounding error"""
    if not L.hasEI or qe is None: return np.zeros(3), 0.0
    d = r[1] - r[0] if end == "A" else r[-1] - r[-2]; l = np.linalg.norm(d); qs = d / l
    a, b = (qe, qs) if end == "A" else (qs, qe); K = curvature(l, a, b); p = np.cross(a, b); n = np.linalg.norm(p)
    EIm = L.EI if L.EI is not None else max(y / max(x, 1e-9) for x, y in zip(*L.tab["EI"]) if x > 0)
    tol = EIm * min(4 / l * 4e-8, (4 / l) ** 2 * 4e-16 / max(K, 1e-30))
    if K <= 1.2e-14 or n <= 1.2e-14: return np.zeros(3), tol
    mom = np.interp(K, *L.tab["EI"]) if L.tab["EI"] is not None else L.EI * K
    return (1 if end == "A" else -1) * mom * p / n, tol

def rod_rhs(R, env, rA, rB, vA, vB, q, U, Ud, zeta, pd, endA=(), endB=(), mom=None):
    """-> F6 about end A, M6 about end A, node masses, node positions, margin to a branch switch."""
    N, d, L = R.N, R.d, R.L
    fr = np.linspace(0, 1, N + 1) if N else np.zeros(1)
    r = rA + fr[:, None] * (rB - rA); v = vA + fr[:, None] * (vB - vA)
    hl = math.hypot(q[0], q[1])
    phi = math.atan2(hl, q[2]) if N else 0.0
    beta = math.atan2(q[1], q[0]) if N and hl >= 1e-6 else 0.0
    s, c = math.sin(phi), math.cos(phi); sb, cb = math.sin(beta), math.cos(beta)
    z = zeta[N]; zA_, zB_ = r[0][2] - z, r[N][2] - z
    # submerged interval [lo, hi] of the axis, measured from end A
    if zA_ <= 0 and zB_ <= 0: lo, hi = 0.0, L
    elif zA_ < 0 < zB_: lo, hi = 0.0, -zA_ / q[2]
    elif zB_ < 0 < zA_: lo, hi = -zA_ / q[2], L
    else: lo, hi = 0.0, 0.0
    area = math.pi / 4 * d * d
    Fn = np.zeros((N + 1, 3)); Mn = np.zeros((N + 1, 3, 3)); Mext = np.zeros(3); VOFs = np.zeros(N + 1)
    Q = np.outer(q, q); s0 = 0.0; margin = 1e9
    for i in range(N + 1):
        if N: dL = L / N * (0.5 if i in (0, N) else 1.0)
        else: dL = 0.0
        m_i = R.w * dL; v_i = area * dL
        if N == 0: v0 = 1.0 if (zA_ <= 0) else 0.0
        else: v0 = min(1.0, max(0.0, (min(hi, s0 + dL) - max(lo, s0)) / dL))
        s0 += dL
        zh, zl = r[i][2] + 0.5 * d * abs(s), r[i][2] - 0.5 * d * abs(s)
        margin = min(margin, abs(zh - z), abs(zl - z), abs(r[i][2] - z))
        if zl > z: Ac, zc = 0.0, 0.0
        elif zh < z: Ac, zc = area, r[i][2]
        elif abs(s) < 0.001: Ac, zc = 0.5, 0.0
        else:
            g = (r[i][2] - z) / abs(s); al = math.acos(max(-1.0, min(1.0, 2 * g / d))); k = 2 * al - math.sin(2 * al)
            Ac = d * d / 8 * k; zc = r[i][2] - (2.0 / 3 * d * math.sin(al) ** 3 / k if k > 0 else 0)
        vof = v0 * c * c + Ac / area * s * s
        VOFs[i] = vof
        Mn[i] = m_i * I3 + vof * env.rho * v_i * R.Can * (I3 - Q)
        vi = U[i] - v[i]; vq = (vi @ q) * q; vp = vi - vq; aq = (Ud[i] @ q) * q; ap = Ud[i] - aq
        if N:
            Fn[i][2] -= m_i * env.g
            ft = -vof * v_i * env.rho * env.g * s
            Fn[i] += ft * np.array([cb * c, sb * c, -s])
            Fn[i] += vof * 0.5 * env.rho * R.Cdn * d * dL * np.linalg.norm(vp) * vp
            Fn[i] += vof * env.rho * (1 + R.Can) * v_i * ap
            dep = env.depth(r[i][0], r[i][1])
            if r[i][2] < dep: Fn[i][2] += ((dep - r[i][2]) * env.kb - v[i][2] * env.cb) * d * dL
        for e, sg in ((0, -1.0), (N, 1.0)):
            if i == e and zl < z:
                Fn[i] += sg * vof * area * env.rho * env.g * zc * np.array([cb * s, sb * s, c])
                mt = sg * vof / 64 * math.pi * d ** 4 * env.rho * env.g * s
                Mext += mt * np.array([sb, -cb, 0])
                Fn[i] += 0.5 * vof * area * env.rho * R.CdE * np.linalg.norm(vq) * vq
                vt = 2.0 / 3 * math.pi * d ** 3 / 8
                Fn[i] += vof * env.rho * R.CaE * vt * aq
                Fn[i] -= sg * vof * area * pd[i] * q
                Mn[i] += vof * env.rho * R.CaE * vt * Q
    if zA_ * zB_ < 0:
        Mext += math.pi / 16 * d ** 4 * env.rho * env.g * s * c * np.array([sb, -cb, 0])
    for f, m in endA: Fn[0] += f; Mn[0] += m
    for f, m in endB: Fn[N] += f; Mn[N] += m
    F6 = np.zeros(6); M6 = np.zeros((6, 6))
    for i in range(N + 1):
        x = r[i] - r[0]
        F6[:3] += Fn[i]; F6[3:] += np.cross(x, Fn[i]); M6 += trans_mass(x, Mn[i])
    F6[3:] += Mext if mom is None else Mext + mom
    if N:
        mass = R.w * L; rr = d / 2
        Ir = mass * (rr * rr / 4 - L * L / (6.0 * N * N)); Il = mass * rr * rr / 2
        O = rotz(beta) @ roty(phi)
        M6[3:, 3:] += O @ np.diag([Ir, Ir, Il]) @ O.T
    return dict(F6=F6, M6=M6, Mn=Mn, r=r, v=v, margin=margin, vof=VOFs, phi=phi, beta=beta)

def rod_on(R, out, ref, w):
    """Contribution of a rod (rod_rhs output) to a body: 6 force / 6x6 mass about ref."""
    rel = out["r"][0] - ref
    F = out["F6"].copy(); F[3:] += np.cross(rel, out["F6"][:3])
    if R.N:
        for i in range(R.N + 1): F[:3] -= out["Mn"][i] @ np.cross(w, np.cross(w, out["r"][i] - ref))
    return F, trans_mass6(rel, out["M6"])

class Body:
    def __init__(self, b, env):
        own = btype(b["att"]) in ("FREE", "CPLDPIN")
        e3 = lambda v, n: np.array(v, float) if not np.isscalar(v) else np.full(n, float(v))
        self.m = b["M"] if own else 0.0; self.V = b["V"] if own else 0.0
        self.cg = np.array(b["CG"], float) if own else np.zeros(3)
        I = e3(b["I"], 3) if own else np.zeros(3)
        self.CdA = e3(b["CdA"], 6) if own else np.zeros(6)
        Ca = e3(b["Ca"], 3) if own else np.zeros(3)
        M = np.zeros((6, 6)); M[:3, :3] = self.m * I3; M[3:, 3:] = np.diag(I)
        self.M0 = trans_mass6(self.cg, M)
        for i in range(3): self.M0[i, i] += self.V * env.rho * Ca[i]

def body_rhs(b, env, R, pos, v6, U, contrib):
    """contrib: list of (F6, M6) about pos."""
    M = rot_mass6(R, b.M0); cg = R @ b.cg; w = v6[3:]
    fg = np.array([0, 0, (b.V * env.rho - b.m) * env.g])
    F = np.concatenate([fg, np.cross(cg, fg)])
    F[:3] -= M[:3, :3] @ np.cross(w, np.cross(w, cg))
    vl = U - v6[:3]; va = -w
    F[:3] += 0.5 * env.rho * (R @ np.diag(b.CdA[:3]) @ R.T @ vl) * np.linalg.norm(vl)
    F[3:] += 0.5 * env.rho * (R @ np.diag(b.CdA[3:]) @ R.T @ va) * np.linalg.norm(va)
    for f, m in contrib: F = F + f; M = M + m
    return F, M

def point_on(r, F, M, ref, w):
    rel = r - ref
    f = np.concatenate([F - M @ np.cross(w, np.cross(w, rel)), np.cross(rel, F)])
    return f, trans_mass(rel, M)

# ---------------------------------------------------------------- quaternions (w,x,y,z)
def qmul(a, b):
    w1, x1, y1, z1 = a; w2, x2, y2, z2 = b
    return np.array([w1 * w2 - x1 * x2 - y1 * y2 - z1 * z2, w1 * x2 + x1 * w2 + y1 * z2 - z1 * y2,
                     w1 * y2 - x1 * z2 + y1 * w2 + z1 * x2, w1 * z2 + x1 * y2 - y1 * x2 + z1 * w2])
def qmat(q):
    w, x, y, z = q / np.linalg.norm(q)
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                     [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                     [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])
def mat2q(R):
    t = np.trace(R)
    if t > 0:
        s = math.sqrt(t + 1) * 2; return np.array([s / 4, (R[2, 1] - R[1, 2]) / s, (R[0, 2] - R[2, 0]) / s, (R[1, 0] - R[0, 1]) / s])
    i = int(np.argmax(np.diag(R))); j, k = (i + 1) % 3, (i + 2) % 3
    s = math.sqrt(1 + R[i, i] - R[j, j] - R[k, k]) * 2
    q = np.zeros(4); q[0] = (R[k, j] - R[j, k]) / s; q[1 + i] = s / 4; q[1 + j] = (R[j, i] + R[i, j]) / s; q[1 + k] = (R[k, i] + R[i, k]) / s
    return q
def qdot(q, w): return 0.5 * qmul(np.concatenate([[0.0], w]), q)
