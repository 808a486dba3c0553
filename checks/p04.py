"""P04 SC-QED-HF: exact transformed energy, exact gradients, storage-path independence, stationary solutions."""
import math
import numpy as np
from harness.vp import Family, Skip
from harness import systems as S, qed as QD, sc as SC

ASSUMPTIONS = ["one cavity mode with the photon vacuum in the transformed frame (the supported setting of SC-QED-HF)",
               "up to 6 orbitals for the determinant-by-determinant oracle"]
BUDGET = {"quick": 400, "thorough": 2400}
NAMES = ["H2", "HeH+", "H3+", "H4", "HeLi+", "LiH"]


def build(rng, names=NAMES, gmax=0.4, CD=False, basis=None):
    from openms.mqed import scqedhf

    name = str(rng.choice(names))
    basis = basis or ("6-31g" if name in ("H2", "HeH+") and rng.random() < 0.4 else "sto-3g")
    m = S.mol(name, basis, b=float(S.MOLS[name][1] * rng.uniform(0.85, 1.3)),
              rot=S.rotation(rng), shift=rng.normal(size=3) * float(rng.choice([0, 1, 3])))
    how, m = S.variant(rng, m, 0.15)
    basis = how if how != "plain" else basis
    om, vec = S.rand_modes(rng, 1, gmin=0.02, gmax=gmax, wmin=0.15, wmax=1.2)

    def make(cd=False, **kw):
        mf = scqedhf.RHF(m, omega=om.copy(), vec=vec.copy(), CD_anyway=cd, CD_thresh=1e-10, **kw)
        mf.verbose = 0
        mf.chkfile = None
        return mf
    return name, basis, m, om, vec, make


def evaluate(mf, m, D, eta=None):
    """energy, Fock, gradient of the code at a given density and displacement"""
    mf.get_cholesky()
    mf.init_var_params(D)
    if eta is not None:
        mf.eta = eta.copy().reshape(mf.eta.shape)
    mf.get_h1e_DO(m, dm=D)
    h = mf.get_hcore(m, D, dress=True)
    v = mf.get_veff(m, D)
    e = mf.energy_tot(D, h, v)
    mf.grad_var_params(mf.dm_do, mf.g_dipole, dm=D)
    F = mf.get_fock(h, mf.get_ovlp(), v, D)
    return e, np.array(F), np.array(mf.eta_grad)


def point(c):
    rng = c.rng
    name, basis, m, om, vec, make = build(rng)
    I = QD.Ints(m)
    no = m.nelectron // 2
    D, C = QD.rand_dm(rng, I, no)
    mf = make()
    mf.get_cholesky()
    mf.init_var_params(D)
    U = np.array(mf.ao2dipole[0])
    g = I.g(vec)[0]
    eta0 = np.array(mf.eta[0])
    c.desc(mol=name, basis=basis, omega=om, vec=vec, xyz=m.atom_coords())
    c.cls(name, basis)
    c.close(U.T @ I.S @ U, np.eye(I.n), "dipole-basis-orthonormal", atol=1e-8)
    Gd = U.T @ g @ U * np.sqrt(om[0] / 2)
    c.close(Gd, np.diag(np.diag(Gd)), "dipole-basis-diagonal", atol=1e-7 * (1 + np.abs(Gd).max()))
    c.close(eta0, np.diag(Gd), "initial-displacement", atol=1e-7 * (1 + np.abs(Gd).max()))
    T = SC.Transformed(I, U, g, om[0], no)
    amp = float(rng.choice([0.0, 0.05, 0.3]))
    eta = eta0 + amp * rng.normal(size=eta0.size)
    e, F, grad = evaluate(mf, m, D, eta)
    ref = T.energy(C, eta)
    c.close(e, ref, "energy", atol=1e-7 * (1 + abs(ref)))
    c.close(F, F.T, "fock-symmetric", atol=1e-7 * (1 + np.abs(F).max()))
    h = 1e-4
    num = np.array([(T.energy(C, eta + h * u) - T.energy(C, eta - h * u)) / (2 * h) for u in np.eye(I.n)])
    c.close(grad[0], num, "displacement-gradient", atol=2e-5 * (1 + np.abs(num).max()))
    for _ in range(2):
        k = rng.normal(size=(I.n, I.n))
        k = k - k.T
        num = (T.energy(SC.rotated(C, k, h), eta) - T.energy(SC.rotated(C, k, -h), eta)) / (2 * h)
        Cd = C @ k
        dD = 2 * (Cd[:, :no] @ C[:, :no].T + C[:, :no] @ Cd[:, :no].T)
        c.close(np.einsum("pq,pq->", F, dD), num, "fock-is-gradient", atol=2e-5 * (1 + abs(num)))
    # the same object at the next point: the density array holds another density, the displacements are the old ones in another order
    W = D.copy()
    mf.get_h1e_DO(m, dm=W)
    D2, C2 = QD.rand_dm(rng, I, no)
    W[...] = D2
    eta2 = rng.permutation(eta)
    mf.eta = eta2.reshape(mf.eta.shape)
    mf.get_h1e_DO(m, dm=W)
    e = mf.energy_tot(W, mf.get_hcore(m, W, dress=True), mf.get_veff(m, W))
    c.close(e, T.energy(C2, eta2), "next-point", atol=1e-7 * (1 + abs(e)))
    mf.grad_var_params(mf.dm_do, mf.g_dipole, dm=W)
    u = rng.normal(size=I.n)
    num = (T.energy(C2, eta2 + h * u) - T.energy(C2, eta2 - h * u)) / (2 * h)
    c.close(np.dot(mf.eta_grad[0], u), num, "next-point", atol=1e-4 * (1 + abs(num)), msg="displacement gradient")


def chol(c):
    """the Cholesky route and the stored-integral route are the same model"""
    rng = c.rng
    name, basis, m, om, vec, make = build(rng, names=["H2", "HeH+", "H3+", "H4", "HeLi+"])
    I = QD.Ints(m)
    no = m.nelectron // 2
    D, C = QD.rand_dm(rng, I, no)
    c.desc(mol=name, basis=basis, omega=om, vec=vec)
    c.cls(name, basis)
    a, b = make(), make(cd=True)
    a.get_cholesky()
    a.init_var_params(D)
    eta = np.array(a.eta[0]) + 0.2 * rng.normal(size=I.n)
    b.get_cholesky()
    b.init_var_params(D)
    # the dipole orbitals are defined up to signs: displacement parameters belong to eigenvalues
    ea, Fa, ga = evaluate(a, m, D, eta)
    eb, Fb, gb = evaluate(b, m, D, eta)
    c.ok(b.ltensor is not None and a.ltensor is None, "routes-differ")
    c.close(eb, ea, "cholesky-energy", atol=1e-6)
    c.close(Fb, Fa, "cholesky-fock", atol=1e-5)
    c.close(gb, ga, "cholesky-gradient", atol=1e-5 * (1 + np.abs(ga).max()))


def scf(c):
    rng = c.rng
    name, basis, m, om, vec, make = build(rng, names=["H2", "HeH+", "HeLi+", "H3+"], gmax=0.2, basis="sto-3g")
    I = QD.Ints(m)
    no = m.nelectron // 2
    cd = bool(rng.random() < 0.25)
    mf = make(cd=cd)
    mf.conv_tol = 1e-10
    mf.max_cycle = 1500
    aids = QD.scf_aids(rng, mf, diis=False)
    c.desc(mol=name, omega=om, vec=vec, cd=cd, aids=aids)
    c.cls(name, f"cd={cd}")
    log = []
    mf.callback = lambda env: log.append((env["e_tot"], np.array(env["mo_coeff"]), np.array(env["mf"].eta[0])))
    e = QD.run_scf(mf)
    if e is None:
        raise Skip()
    if not mf.converged:
        raise Skip()
    T = SC.Transformed(I, np.array(mf.ao2dipole[0]), I.g(vec)[0], om[0], no)
    c.events += len(log)
    eta, C = np.array(mf.eta[0]), mf.mo_coeff
    ref = T.energy(C, eta)
    c.close(e, ref, "final-energy", atol=1e-6 * (1 + abs(ref)))
    h = 1e-4
    num = np.array([(T.energy(C, eta + h * u) - T.energy(C, eta - h * u)) / (2 * h) for u in np.eye(I.n)])
    c.close(num, np.zeros(I.n), "stationary-displacement", atol=3e-4)
    for _ in range(2):
        k = rng.normal(size=(I.n, I.n))
        k = k - k.T
        d = (T.energy(SC.rotated(C, k, h), eta) - T.energy(SC.rotated(C, k, -h), eta)) / (2 * h)
        c.close(d, 0.0, "stationary-orbitals", atol=3e-4)
    D = mf.make_rdm1()
    c.close(np.einsum("pq,pq->", D, I.S), m.nelectron, "electrons", atol=1e-8)


def density(c):
    """electron density of the state in the original frame: coherences carry the overlap of the displaced photon vacua"""
    rng = c.rng
    name, basis, m, om, vec, make = build(rng)
    I = QD.Ints(m)
    no = m.nelectron // 2
    D, C = QD.rand_dm(rng, I, no)
    mf = make()
    mf.get_cholesky()
    mf.init_var_params(D)
    U = np.array(mf.ao2dipole[0])
    r = 0.0
    eta = np.array(mf.eta[0]) + float(rng.choice([0.0, 0.1, 0.5])) * rng.normal(size=I.n)
    mf.eta = eta.copy().reshape(mf.eta.shape)
    occ = np.array([2.0] * no + [0.0] * (I.n - no))
    z = np.exp(r) * eta / om[0]
    if np.abs(z).max() > 4:
        raise Skip()
    nf = int(20 + 6 * (z ** 2).max())
    c.desc(mol=name, basis=basis, omega=om, vec=vec, r=r, nfock=nf, z=z)
    c.cls(name, basis, "squeezed" if r else "plain")
    rt, re, rb = mf.make_rdm1_org(C, occ, nfock=nf)
    Dd = U.T @ I.S @ D @ I.S @ U
    ref = U @ (Dd * np.exp(-0.5 * (z[:, None] - z[None]) ** 2)) @ U.T
    c.close(re, ref, "original-frame-density", atol=1e-7 * (1 + np.abs(ref).max()))
    c.close(np.einsum("pq,pq->", re, I.S), m.nelectron, "original-frame-density", atol=1e-7)
    c.close(np.trace(rb), 1.0, "photon-distribution-normalised", atol=1e-7)
    # every block; the sign of the photon field is a convention
    amp = np.array([np.exp(-z * z / 2) * z ** k / math.exp(0.5 * math.lgamma(k + 1)) for k in range(nf)])
    k, l = int(rng.integers(nf)), int(rng.integers(nf))
    for k, l in ((k, l), (0, 1), (1, 1), (2, 1)):
        ref = U @ (Dd * np.outer(amp[k], amp[l])) @ U.T
        got = np.asarray(rt)[k, :, l, :]
        d = min(np.abs(got - ref).max(), np.abs(got - (-1) ** (k + l) * ref).max())
        c.close(d, 0.0, "photon-blocks", atol=1e-7 * (1 + np.abs(ref).max()))
    c.close(rb, rb.T, "photon-distribution-normalised", atol=1e-10)
    k = int(rng.integers(1, 4))
    few = mf.make_rdm1_org(C, occ, nfock=k)[0]
    c.close(few, np.asarray(rt)[:k, :, :k], "photon-blocks-independent-of-cutoff", atol=1e-12)


FAMILIES = [
    Family("density", density, 60, 1200, chunk=5, monitors=["original-frame-density", "photon-distribution-normalised", "photon-blocks", "photon-blocks-independent-of-cutoff"]),
    Family("point", point, 240, 2400, chunk=4,
           monitors=["energy", "displacement-gradient", "fock-is-gradient", "initial-displacement", "dipole-basis-diagonal", "next-point"]),
    Family("chol", chol, 80, 800, chunk=3, monitors=["cholesky-energy", "cholesky-fock", "cholesky-gradient"]),
    Family("scf", scf, 64, 600, chunk=2, monitors=["final-energy", "stationary-displacement", "stationary-orbitals"]),
]
