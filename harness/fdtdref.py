"""Independent float64 model of the FDTD library: grid constants, absorbing
layers, Yee time stepping, source waveforms, node interpolation."""
import numpy as np

PI, EO = 3.141592, 8.854e-12
UO = PI * 4e-7
C0 = 1.0 / np.sqrt(EO * UO)
COMPS = ("Ex", "Ey", "Ez", "Hx", "Hy", "Hz")


class Grid:
    """A uniform-in-x,y, piecewise-uniform-in-z grid with its boundaries."""

    def __init__(self, size, lat, pml, S, zones=(), parity=(0, 0, 0), per=(0, 0, 0.0, 0.0),
                 back=1.0, order=(3.5,) * 6, smax=(1.0,) * 6, kappa=(1.0,) * 3):
        self.size, self.lat, self.S = np.array(size, float), np.array(lat), S
        self.zones = sorted(zones)
        self.back, self.kappa = back, np.array(kappa, float)
        self.order, self.smax = order, smax
        n = [int(np.floor(0.5 + size[d] * lat[d])) for d in range(2)]
        # z intervals
        edges, z = [], -0.5 * size[2]
        for zi, zf, nz in self.zones:
            edges += [(z, zi, lat[2]), (zi, zf, nz)]
            z = zf
        edges.append((z, 0.5 * size[2], lat[2]))
        self.edges = edges
        per_int = [int(round((b - a) * m)) for a, b, m in edges]
        n.append(sum(per_int))
        self.n = n
        fine = max(m for (a, b, m), q in zip(edges, per_int) if q > 0)
        L = int(np.lcm.reduce([lat[0], lat[1], fine]))
        self.dx, self.dy = L // lat[0], L // lat[1]
        dz = np.full(n[2], L / lat[2])
        k, pos = 1, 0
        for (_, _, m), q in zip(edges, per_int):
            pos += q      # a node belongs to the interval that ends at or beyond it
            dz[k:pos + 1] = L / m
            k = max(k, pos + 1)
        self.full_dz = dz
        self.dt = 1.0 / (C0 * S)
        self.parity, self.per = parity, per
        self.m = list(n)
        for d in range(3):
            if parity[d]:
                self.m[d] = n[d] // 2 + 2
        self.pml_in = list(pml)
        self.pml = [list(pml[0:2]), list(pml[2:4]), list(pml[4:6])]
        for d in range(2):
            if per[d]:
                self.m[d] = n[d] + 2
                self.pml[d] = [-5, -5]
        self.dz = dz[:self.m[2]] if self.m[2] <= n[2] else dz
        self.p = [q - 1 for q in self.m]
        self.complex = bool((per[0] or per[1]) and (per[2] or per[3]))
        self.position = self._position()

    def _position(self):
        ok = []
        for d in range(3):
            i = np.arange(self.m[d])
            ok.append((i >= self.pml[d][0] + 1) & (i <= self.n[d] - self.pml[d][1] - 2))
        return ok[0][:, None, None] & ok[1][None, :, None] & ok[2][None, None, :]

    def script(self, zones=None):
        """Library calls that set this grid up, up to the allocation."""
        s, l = self.size, self.lat
        r = [f"structure_size {s[0]:.9g} {s[1]:.9g} {s[2]:.9g}", f"lattice_size {l[0]} {l[1]} {l[2]}"]
        r += [f"non_uniform_grid {a:.9g} {b:.9g} {m}" for a, b, m in (zones or self.zones)]
        r.append("pml_size " + " ".join(map(str, self.pml_in)))
        r.append(f"set_default {self.S:.9g}")
        r.append("sigma_order " + " ".join(f"{x:.9g}" for x in self.order))
        r.append("sigma_max " + " ".join(f"{x:.9g}" for x in self.smax))
        r.append("kappa " + " ".join(f"{x:.9g}" for x in self.kappa))
        if any(self.parity):
            r.append("parity %d %d %d" % tuple(self.parity))
        if self.per[0] or self.per[1]:
            r.append("periodic %d %d %.9g %.9g" % tuple(self.per))
        return r + ["specn 1", "memory", f"background {self.back:.9g}"]

    def sigma(self, d, a):
        """Graded conductivity of the absorbing layer of axis d at position a."""
        a = np.asarray(a, float)
        if d < 2 and self.per[d]:
            return np.zeros_like(a)
        lo, hi = self.pml[d]
        ol, orr = self.order[2 * d], self.order[2 * d + 1]
        base = 150 * PI * np.sqrt(self.back)
        sl, sr = self.smax[2 * d] * (ol + 1) / base, self.smax[2 * d + 1] * (orr + 1) / base
        out = np.zeros_like(a)
        if lo > 0:
            w = a < lo + 0.5
            out[w] = sl * ((lo + 0.5 - a[w]) / lo) ** ol
        if hi > 0:
            w = (a >= self.n[d] - hi - 1) & ~(a < lo + 0.5)
            out[w] = sr * ((a[w] - (self.n[d] - hi - 1)) / hi) ** orr
        return out


class Yee:
    """E and H at half steps; materials are those of the run under test."""

    def __init__(self, g, eps, meps, mom, mgam, tri=False):
        self.g, self.tri = g, tri
        m = tuple(g.m)
        ty = complex if g.complex else float
        self.F = {c: np.zeros(m, ty) for c in COMPS}
        for c in ("Jx", "Jy", "Jz", "Dx", "Dy", "Dz", "Bx", "By", "Bz"):
            self.F[c] = np.zeros(m, ty)
        self.eps = eps
        pos = g.position
        self.metal = (meps != 0) & (meps != 1000)
        self.pec = pos & (meps == 1000)
        self.frozen = ~pos & (meps == 1000)
        self.normal = pos & (meps == 0)
        self.pml = ~pos & (meps == 0)
        self.meps = np.where(self.metal, meps, 1.0)
        self.mom, self.mgam = mom, mgam
        sh = [(-1, 1, 1), (1, -1, 1), (1, 1, -1)]
        self.s0 = [g.sigma(d, np.arange(g.m[d])).reshape(sh[d]) for d in range(3)]
        self.s5 = [g.sigma(d, np.arange(g.m[d]) + 0.5).reshape(sh[d]) for d in range(3)]
        self.inner = np.zeros(m, bool)
        self.inner[1:-1, 1:-1, 1:-1] = True
        self.steps = 0

    def _d(self, f, d, back):
        """One-sided difference quotient along axis d."""
        g = self.g
        o = np.zeros_like(f)
        lo = [slice(None)] * 3
        hi = [slice(None)] * 3
        lo[d], hi[d] = slice(0, -1), slice(1, None)
        diff = f[tuple(hi)] - f[tuple(lo)]
        if d == 2:
            h = 0.5 * (g.dz[:-1] + g.dz[1:]) if back else g.dz[:-1]
            diff = diff / h
        else:
            diff = diff / (g.dx, g.dy)[d]
        o[tuple(hi) if back else tuple(lo)] = diff
        return o

    def step(self):
        g, F = self.g, self.F
        dt, K = g.dt, g.kappa
        ax = "xyz"
        new = {}
        for c in range(3):
            a, b = (c + 1) % 3, (c + 2) % 3   # E_c: d_a H_b - d_b H_a
            curl = self._d(F["H" + ax[b]], a, True) - self._d(F["H" + ax[a]], b, True)
            E, J, D = F["E" + ax[c]], F["J" + ax[c]], F["D" + ax[c]]
            e = self.eps[c]
            r = E.copy()
            w = self.inner & self.normal
            r[w] += (dt / EO / e * curl)[w]
            w = self.inner & self.metal
            if w.any():
                gam, wp, ei = self.mgam[w], self.mom[w], self.meps[w]
                # d_t E = (curl - J)/(eo e),  d_t J + g J = eo wp^2 E, both centred
                km = (2 - gam * dt) / (2 + gam * dt)
                bm = wp ** 2 * EO * dt / (2 + gam * dt)
                den = 2 * EO * ei + dt * bm
                r[w] = ((2 * EO * ei - dt * bm) * E[w] + 2 * dt * (curl[w] - 0.5 * (1 + km) * J[w])) / den
                Jn = J.copy()
                Jn[w] = km * J[w] + bm * (r[w] + E[w])
                new["J" + ax[c]] = Jn
            w = self.inner & self.pml
            if w.any():
                # d_t D + s_a D/eo = curl ; d_t(eo e E) + s_b .. = d_t D + s_c D/eo
                q = lambda k, s: (K[k] / dt + s / (2 * EO), K[k] / dt - s / (2 * EO))
                pa, ma = q(a, self.s0[a])
                pb, mb = q(b, self.s0[b])
                pc, mc = q(c, self.s5[c])
                Dn = (ma * D + curl) / pa
                En = (mb * E + (pc * Dn - mc * D) / (EO * e)) / pb
                D2 = D.copy()
                D2[w] = np.broadcast_to(Dn, D.shape)[w]
                r[w] = np.broadcast_to(En, D.shape)[w]
                new["D" + ax[c]] = D2
            r[self.inner & self.pec] = 0
            new["E" + ax[c]] = r
        F.update(new)
        self._wrap("E")
        self._mirror("E")
        new = {}
        for c in range(3):
            a, b = (c + 1) % 3, (c + 2) % 3
            curl = self._d(F["E" + ax[b]], a, False) - self._d(F["E" + ax[a]], b, False)
            H, B = F["H" + ax[c]], F["B" + ax[c]]
            r = H.copy()
            w = self.inner & (self.normal | self.metal)
            r[w] -= (dt / UO * curl)[w]
            w = self.inner & self.pml
            if w.any():
                q = lambda k, s: (K[k] / dt + s / (2 * EO), K[k] / dt - s / (2 * EO))
                pa, ma = q(a, self.s5[a])
                pb, mb = q(b, self.s5[b])
                pc, mc = q(c, self.s0[c])
                Bn = (ma * B - curl) / pa
                Hn = (mb * H + (pc * Bn - mc * B) / UO) / pb
                B2 = B.copy()
                B2[w] = np.broadcast_to(Bn, B.shape)[w]
                r[w] = np.broadcast_to(Hn, B.shape)[w]
                new["B" + ax[c]] = B2
            r[self.inner & self.pec] = 0
            new["H" + ax[c]] = r
        F.update(new)
        self._wrap("H")
        self._mirror("H")
        self.steps += 1

    def _wrap(self, f):
        g, F = self.g, self.F
        if not (g.per[0] or g.per[1]):
            return
        ph = [np.exp(2j * PI * g.per[2]), np.exp(2j * PI * g.per[3])]
        if not g.complex:
            ph = [1.0, 1.0]
        kz = slice(1, g.p[2])
        n0, n1 = g.n[0], g.n[1]
        for d in (0, 1):
            if not g.per[d]:
                continue
            low = [f + "xyz"[q] for q in range(3) if (q == d) == (f == "E")]
            high = [f + "xyz"[q] for q in range(3) if (q == d) != (f == "E")]
            if d == 0:
                j = slice(1, g.p[1])
                for c in low:
                    F[c][0, j, kz] = F[c][n0, j, kz] / ph[0]
                for c in high:
                    F[c][n0 + 1, j, kz] = F[c][1, j, kz] * ph[0]
            elif not self.tri:
                i = slice(1, g.p[0])
                for c in low:
                    F[c][i, 0, kz] = F[c][i, n1, kz] / ph[1]
                for c in high:
                    F[c][i, n1 + 1, kz] = F[c][i, 1, kz] * ph[1]
            else:
                # second lattice vector: half a cell along x, one along y
                i = np.arange(1, g.p[0])
                h = n0 // 2
                for c in low:
                    src = np.where(i + h <= n0, i + h, i + h - n0)
                    F[c][i, 0, kz] = F[c][src, n1, kz] * self._lowphase(i, h, n0)[:, None]
                for c in high:
                    src = np.where(i - h >= 1, i - h, i - h + n0)
                    F[c][i, n1 + 1, kz] = F[c][src, 1, kz] * self._highphase(i, h, n0)[:, None]

    def _lowphase(self, i, h, n0):
        g = self.g
        if not g.complex:
            return np.ones(len(i))
        kx, ky = g.per[2], g.per[3]
        # F(i,0) = F((i,0)+a2) e^{-i k.a2}, a2=(h,n1); if i+h leaves the cell use a2-a1
        t = np.where(i + h <= n0, 0.5 * kx + ky, -0.5 * kx + ky)
        return np.exp(-2j * PI * t)

    def _highphase(self, i, h, n0):
        g = self.g
        if not g.complex:
            return np.ones(len(i))
        kx, ky = g.per[2], g.per[3]
        t = np.where(i - h >= 1, 0.5 * kx + ky, -0.5 * kx + ky)
        return np.exp(2j * PI * t)

    def _mirror(self, f):
        g, F = self.g, self.F
        for d in range(3):
            p = g.parity[d]
            if not p:
                continue
            c = g.n[d] // 2
            sl = [slice(1, g.p[q]) for q in range(3)]
            at, src = list(sl), list(sl)
            at[d], src[d] = c, c - 1
            at, src = tuple(at), tuple(src)
            x, y, z = d, (d + 1) % 3, (d + 2) % 3
            N = "xyz"
            if f == "E":
                F["E" + N[x]][at] = p * F["E" + N[x]][src]
                if p == 1:
                    F["E" + N[y]][at] = 0
                    F["E" + N[z]][at] = 0
            else:
                F["H" + N[y]][at] = p * F["H" + N[y]][src]
                F["H" + N[z]][at] = p * F["H" + N[z]][src]
                if p == 1:
                    F["H" + N[x]][at] = 0
