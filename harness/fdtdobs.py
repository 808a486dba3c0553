"""Reference geometry and observables of the FDTD library (float64)."""
import numpy as np
from harness import fdtdref as R
from harness.vp import Skip


class Zmap:
    """Vertical coordinate <-> layer index of a piecewise uniform grid."""

    def __init__(self, g):
        self.seg, pos = [], 0
        for a, b, m in g.edges:
            self.seg.append((a, b, m, pos))
            pos += int(round((b - a) * m))
        self.total = pos

    def index(self, z):
        """layer index and its distance to a rounding tie"""
        for q, (a, b, m, pos) in enumerate(self.seg):
            if z <= b or q == len(self.seg) - 1:
                u = 0.5 + (z - a) * m
                return int(np.floor(u)) + pos, min(abs(u - np.round(u)), 1.0)

    def z(self, i):
        for q, (a, b, m, pos) in enumerate(self.seg):
            n = int(round((b - a) * m))
            if i <= pos + n or q == len(self.seg) - 1:
                return a + (i - pos) / m


def rotation(al, be, ga):
    """z-x-z Euler rotation of the coordinates into the frame of an object"""
    a, b, c = (np.deg2rad(x) for x in (al, be, ga))

    def rz(t):
        return np.array([[np.cos(t), np.sin(t), 0], [-np.sin(t), np.cos(t), 0], [0, 0, 1]])
    rx = np.array([[1, 0, 0], [0, np.cos(b), np.sin(b)], [0, -np.sin(b), np.cos(b)]])
    return rz(c) @ rx @ rz(a)


class Shape:
    """One object: inside(i, j, k) in units of grid cells -> (inside, distance to a change of that answer)"""

    def __init__(self, g, kind, c, s, eps=None, euler=None, matrix=None):
        self.g, self.kind, self.euler, self.eps, self.matrix = g, kind, euler, eps, matrix
        self.c, self.s = np.array(c, float), np.array(s, float)
        self.zm = Zmap(g)
        l = g.lat
        self.ci = [(c[d] + 0.5 * g.size[d]) * l[d] for d in range(3)]
        self.height = {"rod": s[1], "ellipse": s[1], "contour": s[1], "donut": s[2], "cone": s[2], "block": s[2]}.get(kind)
        if euler is None and self.height is not None:
            lo, t0 = self.zm.index(c[2] - 0.5 * self.height)
            hi, t1 = self.zm.index(c[2] + 0.5 * self.height)
            if min(t0, t1) < 2e-3:
                raise Skip()
            self.zr = (lo, hi)

    def inside(self, i, j, k):
        g, s, l, kind = self.g, self.s, self.g.lat, self.kind
        x, y, z = i - self.ci[0], j - self.ci[1], k - self.ci[2]
        if self.euler is not None:
            Q = rotation(*self.euler)
            x, y, z = (Q[r, 0] * x + Q[r, 1] * y + Q[r, 2] * z for r in range(3))
        rad = {"rod": 0, "donut": 0, "sphere": 0, "shell": 0, "ellipse": 0, "cone": 0, "rodX": 1, "rodY": 0}
        L = l[rad.get(kind, 0)]
        zin, zd = True, np.inf
        if self.euler is None and self.height is not None:
            zin = (k >= self.zr[0]) & (k <= self.zr[1])
        elif kind in ("rod", "ellipse") or kind == "block":
            h = 0.5 * self.height * l[2]
            zin, zd = np.abs(z) <= h, np.abs(np.abs(z) - h)
        if kind in ("rod", "donut", "ellipse", "cone"):
            r = np.hypot(x, y / s[2]) if kind == "ellipse" else np.hypot(x, y)
            if kind == "donut":
                return (r >= s[0] * L) & (r <= s[1] * L) & zin, np.minimum(abs(r - s[0] * L), abs(r - s[1] * L))
            if kind == "cone":
                zz = np.vectorize(lambda q: self.zm.z(int(q)))(k)
                R_ = np.abs((s[0] - s[1]) * L * (zz - self.c[2]) / s[2] + 0.5 * (s[0] + s[1]) * L)
                return (r <= R_) & zin, abs(r - R_)
            return (r <= s[0] * L) & zin, np.minimum(abs(r - s[0] * L), zd)
        if kind in ("rodX", "rodY"):
            ax, r = (x, np.hypot(y, z)) if kind == "rodX" else (y, np.hypot(x, z))
            R_, h = s[0] * l[1 if kind == "rodX" else 0], 0.5 * s[1] * l[0 if kind == "rodX" else 1]
            return (r <= R_) & (np.abs(ax) <= h), np.minimum(abs(r - R_), abs(np.abs(ax) - h))
        if kind in ("sphere", "shell"):
            r = np.sqrt(x * x + y * y + z * z)
            if kind == "sphere":
                return r <= s[0] * L, abs(r - s[0] * L)
            return (r >= s[0] * L) & (r <= s[1] * L), np.minimum(abs(r - s[0] * L), abs(r - s[1] * L))
        if kind == "ellipsoidal":
            a = s * np.array(l)
            q = np.sqrt((x / a[0]) ** 2 + (y / a[1]) ** 2 + (z / a[2]) ** 2)
            return q <= 1, abs(q - 1) * a.min()
        if kind == "block":
            hx, hy = 0.5 * s[0] * l[0], 0.5 * s[1] * l[1]
            return ((np.abs(x) <= hx) & (np.abs(y) <= hy) & zin,
                    np.minimum(np.minimum(abs(np.abs(x) - hx), abs(np.abs(y) - hy)), zd))
        # contour: a matrix of levels around a centre given in matrix units
        f = s[2]
        u = self.c[0] + (i - 0.5 * g.size[0] * l[0]) / f
        v = self.c[1] + (j - 0.5 * g.size[1] * l[1]) / f
        col, row = self.matrix.shape
        I, J = np.floor(u).astype(int), np.floor(v).astype(int)
        ok = (I >= 0) & (J >= 0) & (I < col) & (J < row)
        lev = self.matrix[np.clip(I, 0, col - 1), np.clip(J, 0, row - 1)]
        d = f * np.minimum(abs(u - np.round(u)), abs(v - np.round(v)))
        return ok & (lev <= s[0]) & zin, d


MARGIN = 4e-4


def epsilon_map(g, shapes, back, axis, shape):
    """cell averages around the samples of one component -> (value, allowed deviation, judged)"""
    off = [0.5 if d == axis else 0.0 for d in range(3)]
    idx = np.meshgrid(*[np.arange(q) + o for q, o in zip(shape, off)], indexing="ij")
    pts = np.stack([q.ravel() for q in idx])            # 3 x N
    N = pts.shape[1]
    corn = np.array([[a, b, c] for a in (-.5, .5) for b in (-.5, .5) for c in (-.5, .5)]).T
    sub = np.arange(10) * 0.1 - 0.45
    sg = np.stack([q.ravel() for q in np.meshgrid(sub, sub, sub, indexing="ij")])
    val = {}          # node -> 1000 samples (only when partly filled)
    flat = np.full(N, float(back))
    tol = np.zeros(N)
    judged = np.ones(N, bool)
    for s in shapes:
        cp = pts[:, :, None] + corn[:, None, :]
        ins, d = s.inside(*cp)
        ins = np.broadcast_to(ins, cp.shape[1:])
        judged &= ~(np.broadcast_to(d, cp.shape[1:]) < MARGIN).any(axis=1)
        n = ins.sum(axis=1)
        for q in np.flatnonzero(n == 8):
            flat[q], tol[q] = s.eps, 0.0
            val.pop(int(q), None)
        mix = np.flatnonzero((n > 0) & (n < 8))
        if len(mix):
            sp = pts[:, mix, None] + sg[:, None, :]
            ins, d = s.inside(*sp)
            ins = np.broadcast_to(ins, sp.shape[1:])
            amb = (np.broadcast_to(d, sp.shape[1:]) < MARGIN).sum(axis=1)
            for w, q in enumerate(mix):
                v = val.setdefault(int(q), np.full(1000, flat[q]))
                tol[q] += amb[w] / 1000.0 * (np.abs(s.eps - v).max() if amb[w] else 0)
                v[ins[w]] = s.eps
    for q, v in val.items():
        flat[q] = v.mean()
    return flat.reshape(shape), tol.reshape(shape), judged.reshape(shape)


def metal_map(g, shapes, shape):
    """(eps_b, omega_p, gamma) of the last object covering each node; judged nodes"""
    idx = np.meshgrid(*[np.arange(q, dtype=float) for q in shape], indexing="ij")
    out = np.zeros(tuple(shape) + (3,))
    judged = np.ones(shape, bool)
    for s in shapes:
        ins, d = s.inside(*idx)
        ins = np.broadcast_to(ins, shape)
        judged &= ~(np.broadcast_to(d, shape) < 1e-4)
        out[ins] = s.eps
    return out, judged


class Nodes:
    """Field values at the nodes, unfolded over mirror planes."""

    def __init__(self, g, dump, W=None, imag=False):
        self.g, self.W = g, W
        self.a = dump
        self.imag = imag
        self.cache = {}
        self.last = [n - 1 + (1 if d < 2 and g.per[d] else 0) for d, n in enumerate(g.n)]

    def _unfold(self, f, sign):
        g = self.g
        for d in range(3):
            if not g.parity[d]:
                continue
            c = g.n[d] // 2
            a = [slice(None)] * 3
            a[d] = slice(0, c + 1)
            b = [slice(None)] * 3
            b[d] = slice(c - 1, 0, -1)
            f = np.concatenate([f[tuple(a)], sign[d] * f[tuple(b)]], axis=d)
        return f

    def get(self, q):
        """nodal array of one of E?, H?, J? (or their imaginary parts)"""
        if q in self.cache:
            return self.cache[q]
        f = self.a[q]
        grp, x = q.lstrip("i")[0], "xyz".index(q[-1])
        sh = np.roll
        if grp in "EJ":
            v = 0.5 * (f + sh(f, 1, x))
        else:
            y, z = [d for d in range(3) if d != x]
            v = 0.25 * (f + sh(f, 1, y) + sh(f, 1, z) + sh(sh(f, 1, y), 1, z))
        sg = [(p if (d == x) == (grp != "H") else -p) for d, p in enumerate(self.g.parity)]
        self.cache[q] = self._unfold(v, sg)
        return self.cache[q]

    def eps(self):
        if "eps" not in self.cache:
            e = sum(self.a["epsilon" + x] + np.roll(self.a["epsilon" + x], 1, d) for d, x in enumerate("xyz")) / 6
            self.cache["eps"] = self._unfold(e, [1, 1, 1])
        return self.cache["eps"]

    def metal(self):
        if "metal" not in self.cache:
            self.cache["metal"] = [self._unfold(self.a[q], [1, 1, 1]) for q in ("mepsilon", "momega", "mgamma")]
        return self.cache["metal"]

    def dz(self):
        dz = self.a["ds_nz"].ravel()
        g = self.g
        if g.parity[2]:
            c = g.n[2] // 2
            dz = np.concatenate([dz[:c + 1], dz[c - 1:0:-1]])
        return dz

    def vec(self, grp, phase=None):
        v = [self.get(grp + x) for x in "xyz"]
        if phase is not None and self.g.complex:
            v = [a * np.cos(phase) - self.get("i" + grp + x) * np.sin(phase) for a, x in zip(v, "xyz")]
        return v

    def value(self, comp, phase=None):
        g = self.g
        if len(comp) == 2 and comp[0] in "EHJ":
            return self.vec(comp[0], phase)["xyz".index(comp[1])]
        E, H = self.vec("E", phase), self.vec("H", phase)
        if comp == "J.E":
            return sum(a * b for a, b in zip(E, self.vec("J", phase)))
        sq = {"E": [e * e for e in E], "H": [h * h for h in H]}
        if comp.startswith("Log"):
            with np.errstate(divide="ignore"):
                return np.log10(self.value(comp[3:], phase))
        if comp in ("E^2", "H^2"):
            return sum(sq[comp[0]])
        if comp in ("Sx", "Sy", "Sz"):
            x = "xyz".index(comp[1])
            a, b = (x + 1) % 3, (x + 2) % 3
            return E[a] * H[b] - E[b] * H[a]
        if comp[2:3] == "2":      # Ex2Ey2
            return sq[comp[0]]["xyz".index(comp[1])] + sq[comp[0]]["xyz".index(comp[4])]
        # energies
        me, mw, mg = self.metal()
        w = (self.W or 0.0) * 2 * 3.1415926 * R.C0 / (g.dx * g.lat[0])
        w2, g2 = w * w, mg * mg
        with np.errstate(divide="ignore", invalid="ignore"):
            kin = mw ** 2 * (w2 - g2) / (w2 + g2) ** 2
            e1 = me - 0.5 * mw ** 2 / (w2 + g2) + 0.5 * kin
        kind = comp[-1] if comp[-1] in "23" else ""
        m = {"": e1, "2": kin, "3": me}[kind]
        out = 0.5 * R.EO * np.where(me == 0, self.eps() if not kind else 0.0, m) * sum(sq["E"])
        if comp.startswith("EM"):
            out = out + np.where((me == 0) & bool(kind), 0.0, 0.5 * R.UO * sum(sq["H"]))
        return out


COMPONENTS = (["Ex", "Ey", "Ez", "Hx", "Hy", "Hz", "J.E", "E^2", "H^2", "Sx", "Sy", "Sz", "LogE^2", "LogH^2",
               "EM_Energy", "EM_Energy2", "EM_Energy3", "E_Energy", "E_Energy2", "E_Energy3", "Jx", "Jy", "Jz",
               "Ex2Ey2", "Ey2Ez2", "Ez2Ex2", "Hx2Hy2", "Hy2Hz2", "Hz2Hx2"] +
              ["LogEx2Ey2", "LogEy2Ez2", "LogEz2Ex2", "LogHx2Hy2", "LogHy2Hz2", "LogHz2Hx2"])
