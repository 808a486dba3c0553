"""P17 the auxiliary-field average of one weighted step is the imaginary-time evolution operator."""
import itertools
import numpy as np
import scipy.linalg as sl
from harness.vp import Family, Skip
from harness import systems as S, oracles as O, qmcsys as Q

ASSUMPTIONS = ["the Gaussian auxiliary fields are drawn from numpy's global generator, one row per walker; the average over them is taken with "
               "Gauss-Hermite nodes fed in place of that generator, so it is exact up to quadrature error",
               "explicit (not decoupled) bilinear coupling; real symmetric factors"]
S.plain_kernels()
BUDGET = {"quick": 300, "thorough": 1800}


class Feed:
    """replaces the draws of standard normals by given numbers while active"""

    def __init__(self, data):
        self.data, self.used, self.bad = np.asarray(data, float).ravel(), 0, None

    def _take(self, size):
        shape = (int(size),) if np.ndim(size) == 0 else tuple(int(s) for s in size)
        n = int(np.prod(shape))
        if self.used or n != self.data.size:
            self.bad = (self.used, n, self.data.size)
            return self._old[0](0.0, 1.0, shape)
        self.used += n
        return self.data.reshape(shape).copy()

    def __enter__(self):
        self._old = (np.random.normal, np.random.standard_normal, np.random.randn)
        np.random.normal = lambda loc=0.0, scale=1.0, size=None: loc + scale * self._take(1 if size is None else size)
        np.random.standard_normal = lambda size=None: self._take(1 if size is None else size)
        np.random.randn = lambda *s: self._take(s or 1)
        return self

    def __exit__(self, *a):
        np.random.normal, np.random.standard_normal, np.random.randn = self._old


def grid(nf, n):
    x, w = np.polynomial.hermite_e.hermegauss(n)
    w = w / w.sum()
    idx = np.array(list(itertools.product(range(n), repeat=nf)))
    return x[idx], w[idx].prod(axis=1)


def nodes_for(nf, cap=2500):
    return max(3, min(12, int(round(cap ** (1.0 / nf) - 0.49))))


def replicate(w, t, nw):
    """every walker is the same determinant"""
    for k in ("phiw", "boson_phiw"):
        x = getattr(w, k, None)
        if x is not None:
            setattr(w, k, np.array([x[0]] * nw))
    w.phiwa = w.phiw[:, :, : t.nalpha]
    if t.ncomponents > 1:
        w.phiwb = w.phiw[:, :, t.nalpha:]


def expm_batch(A, terms=14):
    out = np.broadcast_to(np.eye(A.shape[-1]), A.shape).astype(complex)
    term = out.copy()
    for k in range(1, terms):
        term = term @ A / k
        out = out + term
    return out


def ci_batch(t, pa, pb):
    return np.array([O.det2ci(a, b).ravel() for a, b in zip(pa, pb)])


def spins(t, w):
    return w.phiwa, (w.phiwb if t.ncomponents > 1 else w.phiwa)


def det_ovlp(t, pa, pb):
    psib = t.psib if t.ncomponents > 1 else t.psia
    return np.linalg.det(np.einsum("pi,wpj->wij", t.psia.conj(), pa)) * np.linalg.det(np.einsum("pi,wpj->wij", psib.conj(), pb))


def weighted_average(c, p, t, w, L, wq, x, fake, rng, boson=None):
    """run the real step on the nodes and return sum_x w(x) e^{factor} |phi'>, the walker factor being observed"""
    nw = len(wq)
    feed = Feed(np.hstack([x, rng.normal(size=(nw, fake))]))
    pa, pb = (np.array(y) for y in spins(t, w))
    ov0 = det_ovlp(t, pa, pb)
    b0 = None if boson is None else np.array(w.boson_phiw)
    with feed:
        p.propagate_walkers(t, w, L, eshift=np.complex128(0.0))
    if feed.bad or not feed.used:
        raise Skip()
    qa, qb = spins(t, w)
    ov1 = det_ovlp(t, qa, qb)
    if boson is not None:
        ov0 = ov0 * (b0 @ boson.conj())
        ov1 = ov1 * (np.array(w.boson_phiw) @ boson.conj())
    eh = np.asarray(w.ehybrid)
    c.ok(np.all(np.isfinite(eh)), "finite-hybrid-energy")
    fac = np.exp(-p.dt * eh) * ov0 / ov1
    return np.einsum("w,w,wi->i", wq, fac, ci_batch(t, qa, qb)), ci_batch(t, pa[:1], pb[:1])[0]


def hs_average(t, Ta, Tb, L, l, dt, x, wq, phi_a, phi_b):
    """sum_x w(x) e^{-dt/2 T} exp(i sqrt(dt) x.(L - l)) e^{-dt/2 T} |phi>, in the CI space"""
    Ea, Eb = sl.expm(-dt / 2 * Ta), sl.expm(-dt / 2 * Tb)
    A = expm_batch(1j * np.sqrt(dt) * np.einsum("wg,gpq->wpq", x, L))
    pa = np.einsum("pq,wqr,ri->wpi", Ea, A, Ea @ phi_a)
    pb = np.einsum("pq,wqr,ri->wpi", Eb, A, Eb @ phi_b)
    return np.einsum("w,w,wi->i", wq, np.exp(-1j * np.sqrt(dt) * (x @ l)), ci_batch(t, pa, pb))


def draw(rng):
    from openms.qmc.propagators import Phaseless  # noqa: F401

    nao, na, nb, ncomp = Q.shape_draw(rng, small=True)
    nao = min(nao, 4)
    ng = int(rng.integers(1, 4 if nao > 2 else 5))
    t = Q.rand_trial(rng, nao, na, nb, ncomp)
    L, eri = S.sym_eri(rng, nao, ng, scale=float(rng.choice([0.1, 0.3, 0.6])))
    h = S.herm(rng, nao)
    hs = np.array([h] * ncomp)
    if ncomp == 2 and rng.random() < 0.4:
        hs = np.array([h, S.herm(rng, nao)])
    return nao, na, nb, ncomp, ng, t, L, eri, hs


def step(c):
    from openms.qmc.propagators import Phaseless

    rng = c.rng
    nao, na, nb, ncomp, ng, t, L, eri, hs = draw(rng)
    dt = float(10.0 ** rng.uniform(-3.5, -1.7))
    fake = int(rng.choice([0, 0, 1, 3]))
    bound = float(rng.choice([1.0, 1.0, 0.02, 1e-3]))
    n = nodes_for(ng)
    x, wq = grid(ng, n)
    nw = len(wq)
    c.desc(nao=nao, na=na, nb=nb, ncomp=ncomp, ng=ng, dt=dt, fake=fake, bound=bound, nodes=n)
    c.cls(f"ncomp={ncomp}", f"fields={ng}", f"fake={fake > 0}", f"bound={bound}", f"pol={na - nb}")
    w = Q.rand_walkers(rng, t, nw)
    replicate(w, t, nw)
    if not Q.cond_ok(t, type("W", (), dict(nwalkers=1, phiwa=w.phiwa, phiwb=getattr(w, "phiwb", None))), 50):
        raise Skip()
    kw = dict(dt=dt, energy_scheme="hybrid", num_fake_fields=fake, taylor_order=10)
    p = Phaseless(**kw)
    p.verbose = 0
    p.bias_bound = bound
    p.ebound = 1e8
    t.half_rotate_integrals(hs, L)
    p.build(hs, L, t)
    pa, pb = (y[0].copy() for y in spins(t, w))
    got, c0 = weighted_average(c, p, t, w, L, wq, x, fake, rng)
    rho = t.psia @ t.psia.conj().T + (t.psib @ t.psib.conj().T if ncomp > 1 else t.psia @ t.psia.conj().T)
    l = np.einsum("gpq,pq->g", L, rho).real
    tr = 0.5 * np.einsum("gpr,grq->pq", L, L)
    lL = np.einsum("g,gpq->pq", l, L)
    ref = hs_average(t, hs[0] - tr + lL, hs[-1] - tr + lL, L, l, dt, x, wq, pa, pb)
    # quadrature remainder of the two sides: fields enter with at most s = sqrt(dt)|L|(n_e) + |bias|
    s = np.sqrt(dt) * max(np.linalg.norm(Li, 2) * (na + nb) + abs(li) for Li, li in zip(L, l)) + np.abs(p.rescale_fbias(
        -np.sqrt(dt) * (1j * np.asarray(p.vbias)[:1] - np.asarray(p.mf_shift)))).max()
    q = ng * s ** (2 * n) / np.sqrt(float(np.prod(np.arange(1.0, 2 * n + 1)))) * np.exp(s * s) * 4
    if q > 1e-3:
        raise Skip()
    nrm = np.linalg.norm(c0)
    c.close(got, ref, "field-average", atol=nrm * (1e-10 + q) * 10)
    c.cls(f"bias<={'1e-2' if np.abs(p.vbias).max() * np.sqrt(dt) < 1e-2 else 'more'}")
    c.events += nw


def hamiltonian(c):
    """the average differs from exp(-dt H) by the second-order Trotter and field-ordering error only"""
    from openms.qmc.propagators import Phaseless

    rng = c.rng
    nao, na, nb, ncomp, ng, t, L, eri, hs = draw(rng)
    n = min(nodes_for(ng), 6)
    x, wq = grid(ng, n)
    nw = len(wq)
    w0 = Q.rand_walkers(rng, t, nw, amp=0.3)
    replicate(w0, t, nw)
    keep = {k: np.array(getattr(w0, k)) for k in ("phiw",)}
    c.desc(nao=nao, na=na, nb=nb, ncomp=ncomp, ng=ng)
    c.cls(f"ncomp={ncomp}", f"fields={ng}", f"pol={na - nb}")
    e = O.Electrons(nao, na, nb)
    rho = t.psia @ t.psia.conj().T + (t.psib @ t.psib.conj().T if ncomp > 1 else t.psia @ t.psia.conj().T)
    l = np.einsum("gpq,pq->g", L, rho).real
    if not Q.cond_ok(t, type("W", (), dict(nwalkers=1, phiwa=w0.phiwa, phiwb=getattr(w0, "phiwb", None))), 50):
        raise Skip()
    err, dts = [], []
    dt = 2e-3 / max(1.0, np.abs(l).max() ** 2, np.abs(L).max() ** 2 * nao)
    for k in range(3):
        w0.phiw = keep["phiw"].copy()
        replicate(w0, t, nw)
        w0.weights = np.ones(nw)
        w0.ehybrid = np.zeros(nw)
        p = Phaseless(dt=dt, energy_scheme="hybrid", taylor_order=10)
        p.verbose = 0
        p.ebound = 1e8
        t.half_rotate_integrals(hs, L)
        p.build(hs, L, t)
        got, c0 = weighted_average(c, p, t, w0, L, wq, x, 0, rng)
        H = np.zeros((e.dim, e.dim), complex)
        if k == 0:
            for j in range(e.dim):
                v = np.zeros(e.dim)
                v[j] = 1
                H[:, j] = np.asarray(e.H_ci(hs[0], eri, v.reshape(e.shape), hb=hs[-1])).ravel()
            H = H + 0.5 * (l @ l) * np.eye(e.dim)
            Hk = H
        err.append(np.linalg.norm(got - sl.expm(-dt * Hk) @ c0) / np.linalg.norm(c0))
        dts.append(dt)
        dt /= 2
    c.ok(err[2] <= 0.4 * err[1] + 1e-10 and err[1] <= 0.4 * err[0] + 1e-10, "second-order-step", "the deviation from exp(-dt H) does not vanish like dt^2",
         err=err, dt=dts)
    c.events += 3 * nw


def coupled(c):
    """electron-boson walkers: mean-field coupling acts on both parts, the electron fields average to the coupled evolution"""
    rng = c.rng
    name = str(rng.choice(["H2", "HeH+"]))
    nm = int(rng.integers(1, 3))
    uhf = bool(rng.random() < 0.5)
    off = bool(rng.random() < 0.25)
    dt = float(10.0 ** rng.uniform(-3.5, -2))
    q, m, mf, om, vec, bs = Q.afqmc(rng, name, nm, uhf=uhf, nw=1, gmax=0.4, dt=dt, taylor_order=10, variant=0, opts={"turnoff_bosons": off})
    L = np.real(q.ltensor)
    ng = len(L)
    n = nodes_for(ng, 1300)
    x, wq = grid(ng, n)
    nw = len(wq)
    c.desc(mol=name, modes=nm, bs=bs, uhf=uhf, dt=dt, off=off, fields=ng, nodes=n)
    c.cls(name, f"modes={nm}", f"uhf={uhf}", f"off={off}", f"fields={ng}")
    Q.scramble(rng, q, 0.2)
    from openms.qmc import generic_walkers as gw

    t, p = q.trial, q.propagator
    one = q.walkers
    w = gw.make_walkers(t, {"nwalkers": nw})
    w.phiw = np.array([one.phiw[0]] * nw)
    w.boson_phiw = np.array([one.boson_phiw[0]] * nw)
    replicate(w, t, nw)
    if not Q.cond_ok(t, type("W", (), dict(nwalkers=1, phiwa=w.phiwa, phiwb=getattr(w, "phiwb", None))), 50) or abs(w.boson_phiw[0] @ t.boson_psi.conj()) < 0.05:
        raise Skip()
    p.build(q.h1e, q.ltensor, t, q.geb)
    p.ebound = 1e8
    Hb, X = Q.boson_blocks(bs, om)
    b0 = w.boson_phiw[0].copy()
    pa, pb = (y[0].copy() for y in spins(t, w))
    geb = np.real(q.geb)
    psib = t.psib if t.ncomponents > 1 else t.psia
    G = pa @ np.linalg.inv(t.psia.conj().T @ pa) @ t.psia.conj().T + pb @ np.linalg.inv(psib.conj().T @ pb) @ psib.conj().T
    Qa = np.array([np.vdot(b0, xk @ b0) for xk in X])
    z = np.einsum("kpq,pq->k", geb, G.T)
    got, c0 = weighted_average(c, p, t, w, q.ltensor, wq, x, 0, rng, boson=None if off else np.asarray(t.boson_psi))
    rho = t.psia @ t.psia.conj().T + psib @ psib.conj().T
    l = np.einsum("gpq,pq->g", L, rho).real
    h = np.real(q.h1e[0]) - 0.5 * np.einsum("gpr,grq->pq", L, L) + np.einsum("g,gpq->pq", l, L)
    if not off:
        h = h + np.einsum("k,kpq->pq", Qa, geb)
    ref = hs_average(t, h, h, L, l, dt, x, wq, pa, pb)
    c.close(got, ref, "coupled-field-average", atol=1e-9 * np.linalg.norm(c0))
    half = sl.expm(-dt / 2 * Hb)
    bref = b0 if off else half @ sl.expm(-dt * sum(a * xk for a, xk in zip(z, X))) @ half @ b0
    c.close(w.boson_phiw, np.array([bref] * nw), "boson-step", atol=1e-8)
    c.events += nw


FAMILIES = [
    Family("step", step, 96, 1200, chunk=8, monitors=["field-average", "finite-hybrid-energy"]),
    Family("hamiltonian", hamiltonian, 40, 500, chunk=5, monitors=["second-order-step"]),
    Family("coupled", coupled, 32, 400, chunk=4, monitors=["coupled-field-average", "boson-step"]),
]
