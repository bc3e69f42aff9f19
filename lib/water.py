"""Reference water kinematics: Airy components, FFT grids, current profiles and their superposition."""
import math
import numpy as np
from trace import A

def dispersion(w, g, h):
    if w == 0: return 0.0
    y = w * w * h / g; x = y if y > 1 else math.sqrt(y)
    for _ in range(60):
        t = math.tanh(x); d = t + x * (1 - t * t); s = (x * t - y) / d; x -= s
        if abs(s) < 1e-15 * x: break
    return x / h

def decay(k, z, h):
    """cosh/sinh, sinh/sinh, cosh/cosh of depth, overflow-free"""
    if k == 0: return 0.0, 1.0, 1.0
    e1 = math.exp(k * z); e2 = math.exp(-k * (z + 2 * h)); q = math.exp(-2 * k * h)
    return (e1 + e2) / (1 - q), (e1 - e2) / (1 - q), (e1 + e2) / (1 + q)

def loc(v, t):
    """upper-bound index and weight, clamped"""
    if len(v) == 1 or t <= v[0]: return 0, 0, 0.0
    if t >= v[-1]: return len(v) - 2, len(v) - 1, 1.0
    i = int(np.searchsorted(v, t, side="right")) - 1
    return i, i + 1, (t - v[i]) / (v[i + 1] - v[i])

def stretch(z, zeta, bottom, avg):
    return min(0.0, -avg * (z - bottom) / (zeta - bottom) + avg)

class Airy:
    """independent components (w, re, im, beta): elevation A sin(wt - kl + phase)"""
    def __init__(self, rows, g, h): self.c = [(w, abs(complex(a, b)), math.atan2(b, a), be, dispersion(w, g, h)) for w, a, b, be in rows]
    def kin(self, p, t, bottom, avg):
        ph = [(w * t - k * (math.cos(be) * p[0] + math.sin(be) * p[1]) + f) for w, a, f, be, k in self.c]
        zeta = sum(c[1] * math.sin(q) for c, q in zip(self.c, ph)); z = stretch(p[2], zeta, bottom, avg)
        U = np.zeros(3); Ud = np.zeros(3)
        for (w, a, f, be, k), q in zip(self.c, ph):
            cs, ss, _ = decay(k, z, -avg); s, c = a * math.sin(q), a * math.cos(q); e = A([math.cos(be), math.sin(be), 0])
            U += w * s * cs * e; U[2] += w * c * ss; Ud += w * w * c * cs * e; Ud[2] -= w * w * s * ss
        return zeta, U, Ud, 0.0

class Grid:
    """FFT grid from one-sided amplitudes zc (as for irfft) at multiples of dw"""
    def __init__(self, px, py, pz, zc, betas, dw, g, h, rho):
        nw = len(zc); self.nt = 2 * (nw - 1); self.dt = 2 * math.pi / dw / self.nt
        self.ax = [list(px), list(py), list(pz)]; w = np.arange(nw) * dw; k = A([dispersion(x, g, h) for x in w])
        S = (len(px), len(py), len(pz), self.nt); self.zeta = np.zeros(S[:2] + S[3:]); self.U = np.zeros(S + (3,)); self.Ud = np.zeros(S + (3,)); self.pd = np.zeros(S)
        cb, sb = np.cos(betas), np.sin(betas)
        for i, x in enumerate(px):
            for j, y in enumerate(py):
                zz = zc * np.exp(-1j * k * (cb * x + sb * y)); self.zeta[i, j] = np.fft.irfft(zz, self.nt)
                for l, z in enumerate(pz):
                    D = A([decay(q, z, h) for q in k])
                    u = w * zz * D[:, 0]; uz = 1j * w * zz * D[:, 1]
                    for c, s in ((0, u * cb), (1, u * sb), (2, uz)):
                        self.U[i, j, l, :, c] = np.fft.irfft(s, self.nt); self.Ud[i, j, l, :, c] = np.fft.irfft(1j * w * s, self.nt)
                    self.pd[i, j, l] = np.fft.irfft(rho * g * zz * D[:, 2], self.nt)
    def kin(self, p, t, bottom, avg):
        """None inside the last interval of the period, whose interpolation is documented to be off"""
        q = t / self.dt; n = math.floor(q + 1e-9); ft = max(0.0, q - n); u = (n + 1) % self.nt
        if u == 0: return None
        if abs(ft) < 1e-6 or ft > 1 - 1e-6:
            if u <= 1: return None
        l = u - 1; (x0, x1, fx), (y0, y1, fy) = loc(self.ax[0], p[0]), loc(self.ax[1], p[1])
        def I(a, *r):
            a = a[..., l, :] * (1 - ft) + a[..., u, :] * ft if a.ndim == 5 else a[..., l] * (1 - ft) + a[..., u] * ft
            a = a[x0] * (1 - fx) + a[x1] * fx; a = a[y0] * (1 - fy) + a[y1] * fy
            return a[r[0]] * (1 - r[2]) + a[r[1]] * r[2] if r else a
        zeta = float(I(self.zeta)); z = loc(self.ax[2], stretch(p[2], zeta, bottom, avg))
        return zeta, I(self.U, *z), I(self.Ud, *z), float(I(self.pd, *z))

class Current:
    """profile over x, y, z, t (any of x, y, t may be a single value)"""
    def __init__(self, x, y, z, t, V): self.ax = [x, y, z, t]; self.V = V       # V[ix][iy][iz][it] -> 3
    def __call__(self, p, t):
        a = np.asarray(self.V, float)
        for v, q in zip(self.ax, list(p) + [t]): i, j, f = loc(v, q); a = a[i] * (1 - f) + a[j] * f
        return a

def axis(rng, lo, hi, end=None):
    n = rng.choice([1, 2, 3, 4])
    if n == 1: return [0.0], "0\n0\n"
    if rng.random() < .5: v = sorted(round(rng.uniform(lo, hi), 3) for _ in range(n)); v[-1] = end if end is not None else v[-1]; v = sorted(set(v)); return (v, "1\n%s\n" % " ".join(map(repr, v))) if len(v) > 1 else ([0.0], "0\n0\n")
    a, b = lo * rng.uniform(.5, 1), end if end is not None else hi * rng.uniform(.5, 1)
    return [a + (b - a) * i / (n - 1) for i in range(n)], "2\n%r %r %d\n" % (a, b, n)

def add_waves(m, rng, mode, g, rho, H):
    """-> reference"""
    m.opts["WaveKin"] = mode
    if mode == 7:
        n = rng.randint(1, 8); a = rng.choice([.2, 1.0]); rows = [(0.0, 0.0, 0.0, 0.0)]
        rows += [(rng.uniform(.15, 3.0) if rng.random() < .9 else rng.uniform(4, 8), rng.uniform(-a, a), rng.uniform(-a, a), rng.choice([0.0, rng.uniform(-3.1, 3.1)])) for _ in range(n)]
        if n > 2 and rng.random() < .4: rows[-1] = (rows[-2][0], rows[-1][1], rows[-1][2], -rows[-2][3] + .5)
        m.files["wave_frequencies.txt"] = "".join("%r %r %r %r\n" % r if r[3] else "%r %r %r\n" % r[:3] for r in rows)
        return Airy(rows, g, H)
    (px, tx), (py, ty), (pz, tz) = axis(rng, -60, 60), axis(rng, -60, 60), axis(rng, -H, -.5, 0.0)
    m.files["water_grid.txt"] = "-\nheader\n-\n" + tx + ty + tz
    if mode == 2:
        n = rng.randint(4, 24); dw = rng.choice([.125, .0625, .25]); be = [rng.uniform(-3, 3)] * n if rng.random() < .6 else [rng.uniform(-3, 3) for _ in range(n)]
        if rng.random() < .2: be = [0.0] * n
        a = [0] + [complex(rng.uniform(-.5, .5), rng.uniform(-.5, .5)) for _ in range(n - 2)] + [0]
        keep = [i for i in range(n) if i < 2 or i == n - 1 or rng.random() < .7]        # gaps are filled by interpolation
        w = [i * dw for i in keep]; aa = np.interp(np.arange(n) * dw, w, [complex(a[i]).real for i in keep]) + 1j * np.interp(np.arange(n) * dw, w, [complex(a[i]).imag for i in keep])
        bb = np.interp(np.arange(n) * dw, w, [be[i] for i in keep])
        m.files["wave_frequencies.txt"] = "".join("%r %r %r %r\n" % (i * dw, complex(a[i]).real, complex(a[i]).imag, be[i]) if be[i] else "%r %r %r\n" % (i * dw, complex(a[i]).real, complex(a[i]).imag) for i in keep)
        return Grid(px, py, pz, aa * (n - 1), bb, dw, g, H, rho)
    dt = rng.choice([.25, .5, 1.0, .125]); m.opts["dtWave"] = dt; nt = rng.randint(10, 60); step = dt * rng.choice([1, .5, 1, .37])
    T = [i * step for i in range(int(nt * dt / step) + 2)]; cs = [(rng.uniform(.1, 2.5), rng.uniform(.1, .6), rng.uniform(0, 6)) for _ in range(3)]
    E = [sum(a * math.cos(w * t + f) for w, a, f in cs) for t in T]
    m.files["wave_elevation.txt"] = "".join("%r %r\n" % (t, e) for t, e in zip(T, E))
    n = math.floor(T[-1] / dt) + 1; n -= n % 2; el = np.interp(np.arange(n) * dt, T, E); z = np.fft.rfft(el); dw = math.pi / (dt * (n // 2))
    z[np.arange(len(z)) * dw > math.pi] = 0
    return Grid(px, py, pz, z, np.zeros(len(z)), dw, g, H, rho)

def add_current(m, rng, mode, H):
    m.opts["Currents"] = mode; U = lambda: [round(rng.uniform(-2, 2), 4), round(rng.uniform(-2, 2), 4), round(rng.uniform(-.4, .4), 4)]
    def ticks(n, lo, hi): return sorted(set(round(rng.uniform(lo, hi), 2) for _ in range(n)))
    z = ticks(rng.randint(1, 6), -H, rng.choice([0, 5])); nt = rng.choice([1, 2, 3, 5, 8]); b = rng.choice([.5, 1.0, 2.0, .3, .7])
    if mode == 1:
        V = [U() for _ in z]; c = rng.choice([2, 3, 4]); V = [v[:c - 1] + [0.0] * (4 - c) for v in V]
        m.files["current_profile.txt"] = "-\n-\n-\n" + "".join(" ".join(map(repr, [q] + v[:c - 1])) + "\n" for q, v in zip(z, V))
        return Current([0.0], [0.0], z, [0.0], [[[[v] for v in V]]])
    t = [0.0]
    while len(t) < nt: t.append(round(t[-1] + b * rng.choice([1, 1, 1, 2, 3]), 6))
    # profiles are sampled at their shortest interval: the other instants are multiples of it
    if nt > 1 and all(round((y - x) / b) > 1 for x, y in zip(t, t[1:])): t.insert(1, b)
    if mode == 2:
        z = sorted(set(round(q * 64) / 64 for q in z))      # these depths are read in single precision
        c = rng.choice([1, 2, 3]); V = [[U()[:c] + [0.0] * (3 - c) for _ in t] for _ in z]
        m.files["current_profile_dynamic.txt"] = "-\n-\n-\n-\n" + " ".join(map(repr, z)) + "\n\n" + "".join(" ".join(map(repr, [tt] + [V[k][i][q] for q in range(c) for k in range(len(z))])) + "\n" for i, tt in enumerate(t))
        return Current([0.0], [0.0], z, t, [[V]])
    x, y = ticks(rng.randint(1, 4), -50, 50), ticks(rng.randint(1, 4), -50, 50)
    if len(x) * len(y) * len(z) * len(t) == 1: x = x + [x[0] + 10]     # files of less than 7 lines are refused
    V = [[[[U() for _ in t] for _ in z] for _ in y] for _ in x]
    alt = (lambda v: repr(v)) if rng.random() < .6 else (lambda v: rng.choice([repr(v), "%.3f" % v, "%g" % v if float("%g" % v) == v else repr(v)]))
    rows = ["%s %s %s %s %r %r %r\n" % ((alt(a), alt(b_), alt(c), alt(d)) + tuple(V[i][j][k][l])) for i, a in enumerate(x) for j, b_ in enumerate(y) for k, c in enumerate(z) for l, d in enumerate(t)]
    rng.shuffle(rows)
    m.files["current_profile_4d.txt"] = "%d %d %d %d\n" % (len(x), len(y), len(z), len(t)) + "".join(" ".join(map(repr, v)) + "\n" for v in (x, y, z, t)) + "".join(rows)
    return Current(x, y, z, t, V)
