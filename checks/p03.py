"""P03 photon subspace: mode Hamiltonians, ground states, density matrices, number distributions, packed storage."""
import math
import numpy as np
from harness.vp import Family, Skip
from harness import systems as S, qed as QD

ASSUMPTIONS = ["no squeezing in the off-diagonal photon Hamiltonian (documented as unfinished upstream)"]


def _photon(m, om, vec, nb, **kw):
    from openms.lib import boson
    from openms.mqed import qedhf

    q = boson.Photon(m, omega=om.copy(), vec=vec.copy(), nboson_states=list(nb), **kw)
    mf = qedhf.RHF(m, qed=q)
    mf.verbose = 0
    return q, mf


def ladder(n):
    return np.diag(np.sqrt(np.arange(1, n)), 1)


def ground(c):
    rng = c.rng
    name, basis, b, m, om, vec = QD.draw(rng, names=["H2", "HeH+", "LiH", "H2O", "HF"], bases=["sto-3g"], gmax=0.5)
    nm = len(om)
    nb = [int(x) for x in rng.integers(1, 12, nm)]
    mode = str(rng.choice(["fock", "fixed", "cs"]))
    z = rng.normal(size=nm)
    kw = {"use_cs": False} if mode == "fock" else ({"z_alpha": z.copy()} if mode == "fixed" else {})
    q, mf = _photon(m, om, vec, nb, **kw)
    f = rng.uniform(0, 1, nm) if rng.random() < 0.5 else np.zeros(nm)
    q.couplings_var = f.copy()
    q.update_couplings()
    I = QD.Ints(m)
    D, _ = QD.rand_dm(rng, I, m.nelectron // 2)
    q.update_cs(D)
    c.desc(mol=name, b=b, omega=om, vec=vec, nb=nb, mode=mode, z=z, f=f)
    c.cls(mode, f"modes={nm}")
    t = np.einsum("kpq,pq->k", I.g(vec), D)
    zz = {"fock": np.zeros(nm), "fixed": z, "cs": t}[mode]
    c.close(q.couplings_res, 1 - f, "residual-coupling", atol=1e-14)
    c.close(q.z_alpha, zz, "displacement", atol=1e-8 * (1 + np.abs(t).max()))
    q.update_boson_coeff(D)
    e = 0.0
    for k in range(nm):
        a = ladder(nb[k])
        H = om[k] * np.diag(np.arange(nb[k])) + np.sqrt(om[k] / 2) * (1 - f[k]) * (t[k] - zz[k]) * (a + a.T)
        w, v = np.linalg.eigh(H)
        p = v[:, 0] ** 2
        e += om[k] * p @ np.arange(nb[k])
        rho = np.array(q.get_boson_dm(k))
        c.close(rho, np.outer(v[:, 0], v[:, 0]), "mode-density-matrix", atol=1e-7)
        c.close(np.trace(rho), 1.0, "normalised", atol=1e-10)
        c.close(q.get_bdag_minus_b_expval(k), np.sum((a + a.T) * np.outer(v[:, 0], v[:, 0])), "field-expectation", atol=1e-7)
        c.close(np.sum(H * rho), w[0], "ground-energy", atol=1e-9 * (1 + abs(w[0])))
    c.close(q.e_boson, e, "photon-number-energy", atol=1e-8 * (1 + abs(e)))
    nocc = np.array(q.get_boson_occ())
    ref = [np.diag(q.get_boson_dm(k)) @ np.arange(nb[k]) for k in range(nm)]
    c.close(nocc, ref, "occupation", atol=1e-10)


def hamiltonian(c):
    from openms.lib import boson

    rng = c.rng
    nm = int(rng.integers(1, 5))
    nb = [int(x) for x in rng.integers(1, 9, nm)]
    om = rng.uniform(0.05, 2, nm)
    za = rng.normal(size=nm)
    c.desc(nb=nb, omega=om, za=za)
    H = boson.get_bosonic_Ham(nm, nb, om, za, np.zeros(nm))
    ref = np.zeros((sum(nb), sum(nb)))
    o = 0
    for k in range(nm):
        a = ladder(nb[k])
        ref[o:o + nb[k], o:o + nb[k]] = om[k] * a.T @ a + za[k] * (a + a.T)
        o += nb[k]
    c.close(H, ref, "mode-hamiltonian", atol=1e-12)
    # squeezing: diagonal of the transformed oscillator, <n| S^+ b^+ b S |n> = n cosh 2r + sinh^2 r
    r = rng.normal(size=nm) * 0.6
    H = boson.get_bosonic_Ham(nm, nb, om, np.zeros(nm), r)
    d = np.concatenate([om[k] * (np.arange(nb[k]) * np.cosh(2 * r[k]) + np.sinh(r[k]) ** 2) for k in range(nm)])
    c.close(np.diag(H), d, "squeezed-diagonal", atol=1e-11 * (1 + np.abs(d).max()))
    # packed symmetric storage
    n = int(rng.integers(1, 9))
    A = S.herm(rng, n)
    P = boson.pack_symmetric(A)
    c.ok(P.size == n * (n + 1) // 2, "packed-size")
    c.close(boson.unpack_symmetric(P, n), A, "pack-roundtrip", atol=1e-14)
    fac = float(rng.uniform(0.5, 3))
    B = A.copy()
    B[~np.eye(n, dtype=bool)] /= fac
    c.close(boson.unpack_symmetric(P, n, fac=fac), B, "unpack-factor", atol=1e-12)
    i, j = rng.integers(0, n, 2)
    c.close(P[boson.packed_index(int(i), int(j))], A[i, j], "packed-index", atol=1e-14)


def distribution(c):
    """photon number distribution of a converged QED-HF state in the original Fock space is Poissonian"""
    rng = c.rng
    name, basis, b, m, om, vec = QD.draw(rng, names=["HeH+", "LiH", "H2O", "HF", "HeLi+"], bases=["sto-3g"], gmax=0.3)
    # the coherent amplitude depends on the origin: use shifted origins to make it sizeable
    q, mf = _photon(m, om, vec, [1] * len(om), add_nuc_dipole=bool(rng.random() < 0.5))
    mf.max_cycle = 100
    mf.kernel()
    if not mf.converged:
        raise Skip()
    z = q.z_alpha[0] ** 2 / (2 * om[0])
    nf = int(min(60, 12 + 4 * z + 10 * math.sqrt(z)))
    c.desc(mol=name, b=b, omega=om, vec=vec, nf=nf, mean=float(z))
    if z > 25:
        raise Skip()
    rt, re, rb = mf.make_rdm1_org(mf.mo_coeff, mf.mo_occ, nfock=nf)
    p = np.array([math.exp(-z + k * math.log(z) - math.lgamma(k + 1)) if z > 0 else float(k == 0) for k in range(nf)])
    c.close(np.diag(rb), p / p.sum(), "poisson", atol=1e-8)
    c.close(mf.make_boson_nocc_org(nfock=nf), p @ np.arange(nf) / p.sum(), "mean-photon-number", atol=1e-7 * (1 + z))
    c.close(rb, rb.T, "photon-dm-symmetric", atol=1e-12)
    c.close(rb @ rb, rb, "photon-dm-pure", atol=1e-8)
    c.close(re, mf.make_rdm1() * p.sum(), "electron-dm", atol=1e-8)
    # coherences: the displaced vacuum is the ground state of the mode driven by the mean dipole, sign included
    t = float(np.einsum("pq,pq->", QD.Ints(m).g(vec, q.add_nuc_dipole)[0], mf.make_rdm1()))
    al = -t / math.sqrt(2 * om[0])
    amp = np.array([math.exp(-al * al / 2) * al ** k / math.exp(0.5 * math.lgamma(k + 1)) for k in range(nf)])
    c.close(rb, np.outer(amp, amp) / (amp @ amp), "photon-coherences", atol=1e-6)
    k = int(rng.integers(nf))
    c.close(np.asarray(rt)[k, :, 0, :], mf.make_rdm1() * amp[k] * amp[0], "electron-photon-blocks", atol=1e-6)


FAMILIES = [
    Family("ground", ground, 500, 6000, chunk=10,
           monitors=["mode-density-matrix", "ground-energy", "photon-number-energy", "occupation", "field-expectation"]),
    Family("hamiltonian", hamiltonian, 600, 10000, chunk=50, monitors=["mode-hamiltonian", "squeezed-diagonal", "pack-roundtrip"]),
    Family("distribution", distribution, 100, 1000, chunk=4, monitors=["poisson", "mean-photon-number", "photon-coherences", "electron-photon-blocks"]),
]
