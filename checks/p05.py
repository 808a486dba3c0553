"""P05 VT-/VSQ-QED-HF: exact energy, exact derivatives in all variational parameters, limits, stationary solutions."""
import math
import numpy as np
from harness.vp import Family, Skip
from harness import systems as S, qed as QD, sc as SC

ASSUMPTIONS = ["one cavity mode with the photon vacuum in the transformed frame, coherent-state displacement from the density",
               "up to 6 orbitals for the determinant-by-determinant oracle",
               "the derivative in the transformation parameter is taken along displacement parameters that scale with it (how the code defines it)"]
BUDGET = {"quick": 400, "thorough": 2400}
NAMES = ["H2", "HeH+", "H3+", "H4", "HeLi+", "LiH"]


def build(rng, names=NAMES, gmax=0.4, basis=None):
    from openms.mqed import vtqedhf

    name = str(rng.choice(names))
    basis = basis or ("6-31g" if name in ("H2", "HeH+") and rng.random() < 0.4 else "sto-3g")
    m = S.mol(name, basis, b=float(S.MOLS[name][1] * rng.uniform(0.85, 1.3)),
              rot=S.rotation(rng), shift=rng.normal(size=3) * float(rng.choice([0, 1, 3])))
    how, m = S.variant(rng, m, 0.15)
    basis = how if how != "plain" else basis
    om, vec = S.rand_modes(rng, 1, gmin=0.02, gmax=gmax, wmin=0.15, wmax=1.2)

    def make(cd=False, f=None, **kw):
        if f is not None:
            kw["couplings_var"] = np.array([f])
        mf = vtqedhf.RHF(m, omega=om.copy(), vec=vec.copy(), CD_anyway=cd, CD_thresh=1e-10, **kw)
        mf.verbose = 0
        mf.chkfile = None
        return mf
    return name, basis, m, om, vec, make


class Ref:
    """E(C, eta, f, r) with the coherent-state residual"""

    def __init__(self, I, U, vec, om, no, dse=True):
        self.I, self.no, self.om, self.dse = I, no, om, dse
        self.g = I.g(vec)
        self.q = I.q(vec)
        self.T = SC.Transformed(I, U, self.g[0], om, no)

    def __call__(self, C, eta, f, r):
        D = 2 * C[:, : self.no] @ C[:, : self.no].T
        z = np.einsum("kpq,pq->k", self.g, D)
        var = self.I.dse(D, self.g, self.q, z)
        e = self.T.energy(C, eta, f=f, r=r) + (1 - f) ** 2 * var + self.om * np.sinh(r) ** 2
        return e if self.dse else e - var - 0.5 * np.sum(z ** 2)


def evaluate(mf, m, D, eta, f, r, grads=True):
    mf.get_cholesky()
    mf.qed.couplings_var = np.array([f])
    mf.qed.squeezed_var = np.array([r])
    mf.qed.optimize_varf = True
    mf.qed.optimize_vsq = True
    mf.qed.update_couplings()
    mf.init_var_params(D)
    mf.eta = eta.copy().reshape(mf.eta.shape)
    mf.qed.update_cs(D)
    mf.qed.update_boson_coeff(D)
    mf.get_h1e_DO(m, dm=D)
    h = mf.get_hcore(m, D, dress=True)
    v = mf.get_veff(m, D)
    e = mf.energy_tot(D, h, v)
    F = mf.get_fock(h, mf.get_ovlp(), v, D)
    if grads:
        mf.grad_var_params(mf.dm_do, mf.g_dipole, dm=D)
    return e, np.array(F), np.array(mf.eta_grad[0]), float(mf.vlf_grad[0]), float(mf.vsq_grad[0])


def setup(rng, mf, m, D, f, om, g):
    mf.get_cholesky()
    mf.init_var_params(D)
    U = np.array(mf.ao2dipole[0])
    Gd = np.diag(U.T @ g @ U) * np.sqrt(om / 2)
    amp = float(rng.choice([0.0, 0.05, 0.3]))
    return U, f * Gd + amp * rng.normal(size=Gd.size)


def point(c):
    rng = c.rng
    name, basis, m, om, vec, make = build(rng)
    I = QD.Ints(m)
    no = m.nelectron // 2
    D, C = QD.rand_dm(rng, I, no)
    f = float(rng.choice([rng.uniform(0.02, 0.98), 1.0, 0.5]))
    r = float(rng.choice([0.0, rng.uniform(-0.6, 0.6)]))
    dse = bool(rng.random() < 0.75)
    mf = make(add_dse=dse)
    U, eta = setup(rng, mf, m, D, f, om[0], I.g(vec)[0])
    c.desc(mol=name, basis=basis, omega=om, vec=vec, f=f, r=r, dse=dse)
    c.cls(name, basis, "squeezed" if r else "plain", "f=1" if f == 1 else "0<f<1", "self-energy" if dse else "no self-energy")
    R = Ref(I, U, vec, om[0], no, dse)
    e, F, ge, gf, gr = evaluate(mf, m, D, eta, f, r)
    ref = R(C, eta, f, r)
    c.close(e, ref, "energy", atol=1e-7 * (1 + abs(ref)))
    c.close(mf.qed.e_boson, om[0] * np.sinh(r) ** 2, "squeezing-energy", atol=1e-10)
    h = 1e-4
    num = np.array([(R(C, eta + h * u, f, r) - R(C, eta - h * u, f, r)) / (2 * h) for u in np.eye(I.n)])
    c.close(ge, num, "displacement-gradient", atol=3e-5 * (1 + np.abs(num).max()))
    num = (R(C, eta, f, r + h) - R(C, eta, f, r - h)) / (2 * h)
    c.close(gr, num, "squeezing-gradient", atol=3e-5 * (1 + abs(num)))
    num = (R(C, eta * (1 + h), f * (1 + h), r) - R(C, eta * (1 - h), f * (1 - h), r)) / (2 * h) / f
    c.close(gf, num, "transformation-gradient", atol=3e-5 * (1 + abs(num)))
    for _ in range(2):
        k = rng.normal(size=(I.n, I.n))
        k = k - k.T
        num = (R(SC.rotated(C, k, h), eta, f, r) - R(SC.rotated(C, k, -h), eta, f, r)) / (2 * h)
        Cd = C @ k
        dD = 2 * (Cd[:, :no] @ C[:, :no].T + C[:, :no] @ Cd[:, :no].T)
        c.close(np.einsum("pq,pq->", F, dD), num, "fock-is-gradient", atol=3e-5 * (1 + abs(num)))
    # the same object at the next point: the density array holds another density, the displacements are the old ones in another order
    W = D.copy()
    mf.get_h1e_DO(m, dm=W)
    D2, C2 = QD.rand_dm(rng, I, no)
    W[...] = D2
    eta2 = rng.permutation(eta)
    mf.eta = eta2.reshape(mf.eta.shape)
    mf.qed.update_cs(W)
    mf.qed.update_boson_coeff(W)
    mf.get_h1e_DO(m, dm=W)
    e = mf.energy_tot(W, mf.get_hcore(m, W, dress=True), mf.get_veff(m, W))
    c.close(e, R(C2, eta2, f, r), "next-point", atol=1e-7 * (1 + abs(e)))
    mf.grad_var_params(mf.dm_do, mf.g_dipole, dm=W)
    u = rng.normal(size=I.n)
    num = (R(C2, eta2 + h * u, f, r) - R(C2, eta2 - h * u, f, r)) / (2 * h)
    c.close(np.dot(mf.eta_grad[0], u), num, "next-point", atol=1e-4 * (1 + abs(num)), msg="displacement gradient")


def chol(c):
    rng = c.rng
    name, basis, m, om, vec, make = build(rng, names=["H2", "HeH+", "H3+", "H4"])
    I = QD.Ints(m)
    D, C = QD.rand_dm(rng, I, m.nelectron // 2)
    f = float(rng.uniform(0.05, 1.0))
    r = float(rng.choice([0.0, rng.uniform(-0.5, 0.5)]))
    dse = bool(rng.random() < 0.75)
    a, b = make(add_dse=dse), make(cd=True, add_dse=dse)
    U, eta = setup(rng, a, m, D, f, om[0], I.g(vec)[0])
    c.desc(mol=name, basis=basis, omega=om, vec=vec, f=f, r=r, dse=dse)
    c.cls(name, basis, "self-energy" if dse else "no self-energy")
    A = evaluate(a, m, D, eta, f, r)
    B = evaluate(b, m, D, eta, f, r)
    c.ok(b.ltensor is not None and a.ltensor is None, "routes-differ")
    for k, nm in enumerate(["energy", "fock", "displacement-gradient", "transformation-gradient", "squeezing-gradient"]):
        c.close(B[k], A[k], "cholesky-" + nm, atol=1e-5 * (1 + np.abs(A[k]).max()))


def limits(c):
    """f=1 is SC-QED-HF, f -> 0 is QED-HF, at every density"""
    from openms.mqed import scqedhf, qedhf

    rng = c.rng
    name, basis, m, om, vec, make = build(rng, names=NAMES + ["HF", "H2O"])
    I = QD.Ints(m)
    D, C = QD.rand_dm(rng, I, m.nelectron // 2)
    c.desc(mol=name, basis=basis, omega=om, vec=vec)
    c.cls(name, basis)
    sc = scqedhf.RHF(m, omega=om.copy(), vec=vec.copy())
    sc.verbose = 0
    sc.chkfile = None
    sc.get_cholesky()
    sc.init_var_params(D)
    G = np.array(sc.eta[0])
    sc.get_h1e_DO(m, dm=D)
    hs, vs = sc.get_hcore(m, D, dress=True), sc.get_veff(m, D)
    es, Fs = sc.energy_tot(D, hs, vs), sc.get_fock(hs, sc.get_ovlp(), vs, D)
    one = evaluate(make(), m, D, G, 1.0, 0.0, grads=False)
    c.close(one[0], es, "full-transformation-energy", atol=1e-8 * (1 + abs(es)))
    c.close(one[1], Fs, "full-transformation-fock", atol=1e-7 * (1 + np.abs(Fs).max()))
    q = qedhf.RHF(m, omega=om.copy(), vec=vec.copy())
    q.verbose = 0
    q.chkfile = None
    q.qed.update_cs(D)
    q.qed.update_boson_coeff(D)
    hq, vq = q.get_hcore(m, D), q.get_veff(m, D)
    eq = q.energy_tot(D, hq, vq)
    zero = evaluate(make(), m, D, 0.0 * G, 0.0, 0.0, grads=False)
    c.close(zero[0], eq, "no-transformation-energy", atol=1e-8 * (1 + abs(eq)))


def scf(c):
    rng = c.rng
    name, basis, m, om, vec, make = build(rng, names=["H2", "HeH+", "HeLi+", "H3+"], gmax=0.2, basis="sto-3g")
    I = QD.Ints(m)
    no = m.nelectron // 2
    kind = str(rng.choice(["opt", "opt", "fixed", "fixed+r", "opt+optr"]))
    f = float(rng.uniform(0.1, 1.0)) if kind.startswith("fixed") else None
    mf = make(f=f)
    if kind == "fixed+r":
        mf.qed.squeezed_var = np.array([float(rng.uniform(-0.3, 0.3))])
        mf.qed.optimize_vsq = False
    if kind == "opt+optr":
        mf.qed.optimize_vsq = True
    mf.conv_tol = 1e-10
    mf.max_cycle = 1500
    aids = QD.scf_aids(rng, mf, diis=False)
    c.desc(mol=name, omega=om, vec=vec, kind=kind, f=f, aids=aids)
    c.cls(name, kind)
    log = []
    mf.callback = lambda env: log.append(env["e_tot"])
    r0 = float(mf.qed.squeezed_var[0])
    e = QD.run_scf(mf)
    if e is None:
        raise Skip()
    c.events += len(log)
    if not mf.converged:
        raise Skip()
    R = Ref(I, np.array(mf.ao2dipole[0]), vec, om[0], no)
    eta, C = np.array(mf.eta[0]), mf.mo_coeff
    ff, rr = float(mf.qed.couplings_var[0]), float(mf.qed.squeezed_var[0])
    if f is not None:
        c.close(ff, f, "fixed-parameter-kept", atol=0)
    if kind != "opt+optr":
        c.close(rr, r0, "fixed-parameter-kept", atol=0)
    ref = R(C, eta, ff, rr)
    c.close(e, ref, "final-energy", atol=1e-6 * (1 + abs(ref)))
    h = 1e-4
    num = np.array([(R(C, eta + h * u, ff, rr) - R(C, eta - h * u, ff, rr)) / (2 * h) for u in np.eye(I.n)])
    c.close(num, np.zeros(I.n), "stationary-displacement", atol=5e-4)
    if f is None:
        c.close((R(C, eta, ff + h, rr) - R(C, eta, ff - h, rr)) / (2 * h), 0.0, "stationary-transformation", atol=2e-3)
    if kind == "opt+optr":
        c.close((R(C, eta, ff, rr + h) - R(C, eta, ff, rr - h)) / (2 * h), 0.0, "stationary-squeezing", atol=2e-3)
    for _ in range(2):
        k = rng.normal(size=(I.n, I.n))
        k = k - k.T
        d = (R(SC.rotated(C, k, h), eta, ff, rr) - R(SC.rotated(C, k, -h), eta, ff, rr)) / (2 * h)
        c.close(d, 0.0, "stationary-orbitals", atol=5e-4)


def density(c):
    """electron density of the state in the original frame: coherences carry the overlap of the displaced photon vacua"""
    rng = c.rng
    name, basis, m, om, vec, make = build(rng)
    I = QD.Ints(m)
    no = m.nelectron // 2
    D, C = QD.rand_dm(rng, I, no)
    mf = make()
    mf.get_cholesky()
    mf.init_var_params(D)
    U = np.array(mf.ao2dipole[0])
    r = float(rng.choice([0.0, rng.uniform(-0.5, 0.5)]))
    mf.qed.squeezed_var = np.array([r])
    mf.qed.couplings_var = np.array([float(rng.uniform(0.1, 1))])
    eta = np.array(mf.eta[0]) + float(rng.choice([0.0, 0.1, 0.5])) * rng.normal(size=I.n)
    mf.eta = eta.copy().reshape(mf.eta.shape)
    occ = np.array([2.0] * no + [0.0] * (I.n - no))
    z = np.exp(r) * eta / om[0]
    if np.abs(z).max() > 4:
        raise Skip()
    nf = int(20 + 6 * (z ** 2).max())
    c.desc(mol=name, basis=basis, omega=om, vec=vec, r=r, nfock=nf, z=z)
    c.cls(name, basis, "squeezed" if r else "plain")
    rt, re, rb = mf.make_rdm1_org(C, occ, nfock=nf)
    Dd = U.T @ I.S @ D @ I.S @ U
    ref = U @ (Dd * np.exp(-0.5 * (z[:, None] - z[None]) ** 2)) @ U.T
    c.close(re, ref, "original-frame-density", atol=1e-7 * (1 + np.abs(ref).max()))
    c.close(np.einsum("pq,pq->", re, I.S), m.nelectron, "original-frame-density", atol=1e-7)
    c.close(np.trace(rb), 1.0, "photon-distribution-normalised", atol=1e-7)
    # every block; the sign of the photon field is a convention
    amp = np.array([np.exp(-z * z / 2) * z ** k / math.exp(0.5 * math.lgamma(k + 1)) for k in range(nf)])
    k, l = int(rng.integers(nf)), int(rng.integers(nf))
    for k, l in ((k, l), (0, 1), (1, 1), (2, 1)):
        ref = U @ (Dd * np.outer(amp[k], amp[l])) @ U.T
        got = np.asarray(rt)[k, :, l, :]
        d = min(np.abs(got - ref).max(), np.abs(got - (-1) ** (k + l) * ref).max())
        c.close(d, 0.0, "photon-blocks", atol=1e-7 * (1 + np.abs(ref).max()))
    c.close(rb, rb.T, "photon-distribution-normalised", atol=1e-10)
    k = int(rng.integers(1, 4))
    few = mf.make_rdm1_org(C, occ, nfock=k)[0]
    c.close(few, np.asarray(rt)[:k, :, :k], "photon-blocks-independent-of-cutoff", atol=1e-12)


FAMILIES = [
    Family("density", density, 60, 1200, chunk=5, monitors=["original-frame-density", "photon-distribution-normalised", "photon-blocks", "photon-blocks-independent-of-cutoff"]),
    Family("point", point, 240, 2400, chunk=4,
           monitors=["energy", "displacement-gradient", "squeezing-gradient", "transformation-gradient", "fock-is-gradient", "next-point"]),
    Family("chol", chol, 60, 600, chunk=3, monitors=["cholesky-energy", "cholesky-fock", "cholesky-displacement-gradient",
                                                     "cholesky-transformation-gradient", "cholesky-squeezing-gradient"]),
    Family("limits", limits, 100, 1000, chunk=4, monitors=["full-transformation-energy", "no-transformation-energy"]),
    Family("scf", scf, 64, 600, chunk=2, monitors=["final-energy", "stationary-displacement", "stationary-orbitals",
                                                   "stationary-transformation"]),
]
