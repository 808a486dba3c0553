"""P06 displacement-operator (Franck-Condon) factors and their derivatives."""
import math
import numpy as np
import scipy.linalg as sl
from harness.vp import Family, Skip
from harness import systems as S, qed as QD

ASSUMPTIONS = ["real symmetric photon density matrices", "displacements up to 3",
               "derivatives are claimed for photon states of definite parity (coherences between n and n+-2, +-4, ...);"
               " see known_findings.json for neighbouring number states"]

NMAX = 90


def dmat(n, A):
    """<m|exp(A (b - b^+))|n>, from a large truncated space"""
    a = np.diag(np.sqrt(np.arange(1, NMAX)), 1)
    return sl.expm(A * (a - a.T))[:n, :n]


def setup(rng, nb, r=None):
    from openms.mqed import scqedhf, vtqedhf

    name = str(rng.choice(["H2", "HeH+", "HeLi+"]))
    m = S.mol(name, "sto-3g")
    om, vec = S.rand_modes(rng, 1, gmin=0.05, gmax=0.2, wmin=0.2)
    mf = vtqedhf.RHF(m, omega=om.copy(), vec=vec.copy(), nboson_states=[nb], couplings_var=np.array([0.7]))
    mf.verbose = 0
    if r is not None:
        mf.qed.squeezed_var = np.array([r])
    return name, m, om, vec, mf


def rho_of(rng, n, parity):
    v = rng.normal(size=n)
    if parity is not None:
        v[(np.arange(n) % 2) != parity] = 0
    if rng.random() < 0.3 and n > 1:   # mixed state
        u = rng.normal(size=n)
        if parity is not None:
            u[(np.arange(n) % 2) != parity] = 0
        return 0.4 * np.outer(v, v) / (v @ v) + 0.6 * np.outer(u, u) / max(u @ u, 1e-300)
    return np.outer(v, v) / (v @ v)


def elements(c):
    rng = c.rng
    n = int(rng.integers(1, 9))
    name, m, om, vec, mf = setup(rng, n)
    q = mf.qed
    shape = tuple(int(x) for x in (rng.integers(1, 4, 2) if rng.random() < 0.7 else rng.integers(1, 3, 4)))
    A = rng.normal(size=shape) * float(rng.choice([0.05, 0.5, 1.2]))
    A = np.clip(A, -3, 3)
    parity = None if n == 1 or rng.random() < 0.5 else int(rng.integers(0, 2))
    rho = rho_of(rng, n, parity)
    c.desc(n=n, shape=shape, A=A, parity=parity)
    c.cls(f"n={n}", f"ndim={len(shape)}")
    G = np.zeros(A.shape)
    Gn = np.zeros(A.shape)
    dG = np.zeros(A.shape)
    mats = {}
    for ix in np.ndindex(*A.shape):
        M = dmat(n, A[ix])
        L = np.tril(M) + np.tril(M, -1).T     # symmetric convention of the documentation
        mats[ix] = L
        G[ix] = np.sum(L * rho)
        Gn[ix] = G[ix] * math.exp(0.5 * A[ix] ** 2)
        # exact derivative: d/dA exp(A X) = X exp(A X)
        a = np.diag(np.sqrt(np.arange(1, NMAX)), 1)
        dM = ((a - a.T) @ sl.expm(A[ix] * (a - a.T)))[:n, :n]
        dG[ix] = np.sum((np.tril(dM) + np.tril(dM, -1).T) * rho)
    c.close(q.displacement_exp_val(0, A, rho), G, "expectation", atol=1e-9)
    c.close(q.displacement_matrix(0, A, rho), G, "expectation-packed", atol=1e-9)
    sc = np.exp(0.5 * np.max(np.abs(A)) ** 2)
    c.close(q.displacement_exp_val(0, A, rho, scale_by_exp=False), Gn, "expectation-unscaled", atol=1e-8 * sc)
    c.close(q.displacement_matrix(0, A, rho, scale_by_exp=False), Gn, "expectation-unscaled", atol=1e-8 * sc)
    q.displacement_matrix(0, A, rho)
    D = q.disp_mat_2e if len(shape) > 2 else q.disp_mat_1e
    k = 0
    for i in range(n):
        for j in range(i + 1):
            ref = np.array([mats[ix][i, j] for ix in np.ndindex(*A.shape)]).reshape(A.shape) * (1 if i == j else 2)
            c.close(D[k], ref, "matrix-elements", atol=1e-9)
            k += 1
    c.close(q.displacement_exp_val(0, np.zeros(shape), rho), np.full(shape, np.trace(rho)), "identity-at-zero", atol=1e-12)
    if parity is not None or n == 1:
        c.close(q.displacement_deriv_kernel(0, A, rho), dG, "derivative", atol=1e-8)
        c.close(q.displacement_deriv_vt(0, A, rho), dG * A, "derivative-wrt-log-f", atol=1e-8)
        c.close(q.displacement_deriv_vsq(0, A, rho), dG * A, "derivative-wrt-squeezing", atol=1e-8)
    else:
        c.cls("mixed-parity")


def neighbours(c):
    """derivative with coherences between neighbouring number states"""
    rng = c.rng
    n = int(rng.integers(2, 7))
    name, m, om, vec, mf = setup(rng, n)
    A = np.clip(rng.normal(size=(2, 2)) * 0.7, -2, 2)
    rho = rho_of(rng, n, None)
    c.desc(n=n, A=A, coherence="neighbouring")
    h = 1e-5
    num = (mf.qed.displacement_exp_val(0, A + h, rho) - mf.qed.displacement_exp_val(0, A - h, rho)) / (2 * h)
    c.close(mf.qed.displacement_deriv_kernel(0, A, rho), num, "derivative-neighbouring-states", atol=1e-6)


def factor(c):
    """Franck-Condon factors of the electronic pairs: one-, two-body, shifted, and their gradients"""
    rng = c.rng
    r = float(rng.normal() * 0.3)
    name, m, om, vec, mf = setup(rng, 1, r)
    nao = m.nao_nr()
    eta = rng.normal(size=(1, nao)) * float(rng.choice([0.05, 0.3, 1.0]))
    mf.eta = eta
    c.desc(mol=name, omega=om, eta=eta, r=r)
    t = math.exp(r) / om[0]
    e = eta[0]
    d1 = e[:, None] - e[None]
    d2 = d1[:, :, None, None] + d1[None, None]
    sh = float(rng.normal() * 0.4)
    c.close(mf.FC_factor(eta, 0), np.exp(-0.5 * (t * d1) ** 2), "one-body", atol=1e-12)
    c.close(mf.FC_factor(eta, 0, onebody=False), np.exp(-0.5 * (t * d2) ** 2), "two-body", atol=1e-12)
    c.close(mf.FC_factor(eta, 0, shift=sh), np.exp(-0.5 * (t * (d1 + sh)) ** 2), "shifted", atol=1e-12)
    if nao > 1:
        p, q = 1, 0
        c.close(mf.FC_factor(eta, 0, shift=d1[p, q]), mf.FC_factor(eta, 0, onebody=False)[p, q], "shift-equals-two-body", atol=1e-12)
    for nm, d in (("one", d1), ("two", d2), ("shift", d1 + sh)):
        kw = {"onebody": nm != "two"}
        if nm == "shift":
            kw["shift"] = sh
        G = np.exp(-0.5 * (t * d) ** 2)
        c.close(mf.gaussian_derivative_vectorized(eta, 0, **kw), -G * t * t * d, "gradient-eta", atol=1e-11 * (1 + t * t))
        c.close(mf.gaussian_derivative_f_vector(eta, 0, **kw), -G * (t * d) ** 2 / mf.qed.couplings_var[0], "gradient-f",
                atol=1e-11 * (1 + t * t))
        if nm != "shift":
            c.close(mf.gaussian_derivative_sq_vector(eta, 0, **kw), -G * (t * d) ** 2, "gradient-squeezing", atol=1e-11 * (1 + t * t))


FAMILIES = [
    Family("elements", elements, 300, 4000, chunk=10,
           monitors=["expectation", "expectation-packed", "matrix-elements", "derivative", "derivative-wrt-log-f"]),
    Family("factor", factor, 200, 2000, chunk=20, monitors=["one-body", "two-body", "shifted", "gradient-eta", "gradient-f",
                                                          "gradient-squeezing"]),
    Family("neighbours", neighbours, 24, 100, chunk=8, monitors=["derivative-neighbouring-states"]),
]
