"""P14 electronic local energies are the exact mixed estimator of the Hamiltonian."""
import numpy as np
from harness.vp import Family, Skip
from harness import systems as S, oracles as O, qmcsys as Q

ASSUMPTIONS = [
    "real symmetric two-body factors (what the integral builders of the code produce); at most 5 orbitals, where the"
    " many-electron Hamiltonian is applied exactly to the expanded determinant",
]


def _cond_ok(t, w, lim=1e3):
    for i in range(w.nwalkers):
        if np.linalg.cond(w.phiwa[i].T @ t.psia.conj()) > lim:
            return False
        if t.ncomponents > 1 and np.linalg.cond(w.phiwb[i].T @ t.psib.conj()) > lim:
            return False
    return True


def _ham(rng, nao, ncomp, spin_dep=False):
    nchol = int(rng.integers(1, 2 * nao + 3))
    L, eri = S.sym_eri(rng, nao, nchol, scale=float(rng.choice([0.1, 0.4, 1.0])))
    h = S.herm(rng, nao)
    hs = [h] * ncomp
    if spin_dep and ncomp == 2:
        hs = [h, S.herm(rng, nao)]
    return np.array(hs), L, eri


def exact(c):
    from openms.qmc import estimators as est
    from openms.qmc.propagators import Phaseless

    rng = c.rng
    nao, na, nb, ncomp = Q.shape_draw(rng)
    nao = min(nao, 5)
    na, nb = min(na, nao), min(nb, nao)
    if ncomp == 1:
        na = nb = min(na, nao - 1)
    if na == nao and nb == nao:
        raise Skip()
    t = Q.rand_trial(rng, nao, na, nb, ncomp)
    nw = int(rng.choice([1, 2, 3, 4]))
    w = Q.rand_walkers(rng, t, nw)
    spin_dep = bool(rng.random() < 0.4)
    h, L, eri = _ham(rng, nao, ncomp, spin_dep)
    enuc = float(rng.normal() * 3)
    real = bool(np.isrealobj(t.psia))
    c.desc(nao=nao, na=na, nb=nb, ncomp=ncomp, nw=nw, nchol=len(L), real=real, spin_dep=spin_dep)
    c.cls(f"ncomp={ncomp}", f"real={real}", f"spin_dep={spin_dep}", f"pol={na-nb}")
    if not _cond_ok(t, w):
        raise Skip()
    w.weights = rng.uniform(0.0, 3.0, nw)
    if rng.random() < 0.2:
        w.weights[0] = 0.0
    wt0 = w.weights.copy()
    keep = (np.array(w.phiwa), None if ncomp == 1 else np.array(w.phiwb), h.copy(), L.copy())
    t.half_rotate_integrals(h, L)
    p = Phaseless(dt=0.01)
    out = p.local_energy(h, L, w, t, enuc=enuc)
    # exact mixed estimators
    el = O.Electrons(nao, na, nb)
    T = Q.trial_ci(t)
    E1, E2 = [], []
    hb = h[-1]
    z = np.zeros((nao, nao))
    for i in range(nw):
        W = Q.walker_ci(t, w, i)
        den = np.vdot(T, W)
        E1.append(np.vdot(T, el.one_ci(h[0], W, hb)) / den)
        E2.append(np.vdot(T, el.H_ci(z, eri, W)) / den)
    E1, E2 = np.array(E1), np.array(E2)
    sc = 1 + np.abs(E1).max() + np.abs(E2).max()
    c.close(w.eloc, E1 + E2 + enuc, "eloc-exact", atol=2e-8 * sc)
    c.ok(len(out) >= 4, "energy-tuple")
    W_ = max(1.0, wt0.sum())
    c.close(out[0], np.sum(wt0 * (E1 + E2 + enuc).real), "weighted-total", atol=2e-8 * sc * W_)
    c.close(out[1], wt0.sum(), "weighted-norm", atol=1e-11 * W_)
    c.close(out[2], np.sum(wt0 * E1.real), "weighted-e1", atol=2e-8 * sc * W_)
    c.close(out[3], np.sum(wt0 * E2.real), "weighted-e2", atol=2e-8 * sc * W_)
    c.ok(np.array_equal(w.weights, wt0), "weights-untouched")
    c.ok(np.array_equal(keep[0], w.phiwa) and (keep[1] is None or np.array_equal(keep[1], w.phiwb))
         and np.array_equal(keep[2], h) and np.array_equal(keep[3], L), "inputs-untouched")
    # the same numbers from every estimator the package offers
    f = est.local_energy_SD_UHF if ncomp > 1 else est.local_energy_SD_RHF
    e1, e2 = f(t, w)
    c.close(e1, E1, "estimator-e1", atol=2e-8 * sc)
    c.close(e2, E2, "estimator-e2", atol=2e-8 * sc)
    ex = []
    for (rl, gh, psi) in [(t.rltensora, w.Ghalfa, t.psia)] + ([(t.rltensorb, w.Ghalfb, t.psib)] if ncomp > 1 else []):
        ref = np.zeros(nw, dtype=complex)
        for i in range(nw):
            G = psi.conj() @ gh[i].T
            ref[i] = 0.5 * np.einsum("gpr,gqs,ps,qr->", L, L, G, G)
        c.close(est.exx_rltensor_Ghalf(rl, gh), ref, "exchange-numpy", atol=2e-8 * sc)
        c.close(est.exx_rltensor_Ghalf_kernel(rl, gh), ref, "exchange-kernel", atol=2e-8 * sc)
        ex.append(ref)
    if ncomp == 1:
        G = np.array([t.psia.conj() @ g.T for g in w.Ghalfa])
        c.close(est.local_eng_elec_chol_new(h[0], L, G), E1 + E2, "estimator-chol-full-gf", atol=2e-8 * sc)
        vb = np.einsum("npq,zpq->zn", L, G)
        TL = np.einsum("pr,npq->nrq", t.psia.conj(), L)
        TLt = np.einsum("npq,zqr->znpr", TL, w.Ghalfa)
        c.close(est.local_eng_elec_chol(TLt, h[0], vb, G), E1 + E2, "estimator-chol-theta", atol=2e-8 * sc)
        c.close(p.compute_local_energies(TLt, h[0], vb, G), E1 + E2, "estimator-chol-theta", atol=2e-8 * sc)


def invariance(c):
    """per-walker results do not depend on the other walkers, on the gauge of a walker, or on a unitary
    rotation of the auxiliary-field index"""
    from openms.qmc.propagators import Phaseless

    rng = c.rng
    nao, na, nb, ncomp = Q.shape_draw(rng)
    if na == nao and nb == nao:
        raise Skip()
    t = Q.rand_trial(rng, nao, na, nb, ncomp)
    nw = int(rng.choice([2, 3, 5, 9]))
    w = Q.rand_walkers(rng, t, nw)
    h, L, eri = _ham(rng, nao, ncomp)
    c.desc(nao=nao, na=na, nb=nb, ncomp=ncomp, nw=nw, nchol=len(L))
    if not _cond_ok(t, w):
        raise Skip()
    p = Phaseless(dt=0.02)
    t.half_rotate_integrals(h, L)
    p.local_energy(h, L, w, t)
    e0 = np.array(w.eloc)
    sc = 1 + np.abs(e0).max()
    perm = rng.permutation(nw)
    pa, pb = np.array(w.phiwa), None if ncomp == 1 else np.array(w.phiwb)

    def rot(x, n):
        for i in range(nw):
            R = np.eye(n) + 0.3 * S.cplx(rng, n, n) / n
            x[i] = x[i] @ R * np.exp(1j * rng.uniform(0, 6)) * rng.uniform(0.1, 8)
        return x

    w.phiwa = rot(pa, na)[perm]
    if ncomp > 1:
        w.phiwb = rot(pb, nb)[perm]
    U = np.linalg.qr(rng.normal(size=(len(L), len(L))))[0]
    L2 = np.einsum("gh,hpq->gpq", U, L)
    t.half_rotate_integrals(h, L2)
    p.local_energy(h, L2, w, t)
    c.close(w.eloc, e0[perm], "eloc-invariant", atol=5e-8 * sc)
    # shifting h by mu*N shifts every local energy by mu*N
    mu = float(rng.normal())
    t.half_rotate_integrals(h + mu * np.eye(nao)[None], L2)
    p.local_energy(h, L2, w, t)
    c.close(w.eloc, e0[perm] + mu * (na + nb), "chemical-potential-shift", atol=5e-8 * sc)


def afqmc(c):
    """the energy the AFQMC driver reports for walkers = trial is the mean-field energy of the molecule"""
    from openms.qmc.afqmc import AFQMC
    from pyscf import scf

    rng = c.rng
    name = ["H2", "HeH+", "LiH", "H4", "H3+", "H3", "OH", "H2O"][c.index % 8]
    m = S.mol(name, b=None if name in ("H2O",) else S.MOLS[name][1] * rng.uniform(0.85, 1.3))
    mf = scf.RHF(m) if m.spin == 0 else scf.ROHF(m)
    mf.verbose = 0
    mf.conv_tol = 1e-11
    e = mf.kernel()
    if not mf.converged:
        raise Skip()
    uhf = bool(m.spin) or bool(rng.random() < 0.5)
    nw = int(rng.choice([1, 3, 7]))
    blocked = bool(rng.random() < 0.5)
    c.desc(mol=name, uhf=uhf, nw=nw, blocked=blocked)
    q = AFQMC(m, mf=mf, uhf=uhf, num_walkers=nw, energy_scheme="hybrid", chol_thresh=1e-9,
              block_decompose_eri=blocked, verbose=0)
    out = q.propagator.local_energy(q.h1e, q.ltensor, q.walkers, q.trial, enuc=q.nuc_energy)
    c.close(out[0] / out[1], e, "reference-energy", atol=2e-6)
    c.close(np.asarray(q.walkers.eloc), np.full(nw, e), "per-walker-reference-energy", atol=2e-6)


FAMILIES = [
    Family("exact", exact, 120, 3000, chunk=8,
           monitors=["eloc-exact", "weighted-total", "weighted-norm", "weighted-e1", "weighted-e2", "estimator-e1",
                     "estimator-e2", "exchange-numpy", "exchange-kernel", "estimator-chol-full-gf",
                     "estimator-chol-theta", "inputs-untouched"]),
    Family("invariance", invariance, 80, 2000, chunk=10, monitors=["eloc-invariant", "chemical-potential-shift"]),
    Family("afqmc", afqmc, 16, 160, chunk=2, monitors=["reference-energy"]),
]
