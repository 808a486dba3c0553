"""P09 QED-FCI eigenstates, energies and density matrices."""
import numpy as np
from harness.vp import Family, Skip
from harness import systems as S, eb as E, qed as QD

ASSUMPTIONS = ["molecular Hamiltonians; cases whose lowest eigenvalues are nearly degenerate are not judged",
               "configuration spaces up to 2000"]
BUDGET = {"quick": 300, "thorough": 1800}


def draw(rng, strong=False):
    name = str(rng.choice(["H2", "HeH+", "H3+", "H3", "HeLi+", "H4"]))
    basis = "6-31g" if name == "H2" and rng.random() < 0.3 else "sto-3g"
    m = S.mol(name, basis, b=float(S.MOLS[name][1] * rng.uniform(0.9, 1.3)), rot=S.rotation(rng), shift=rng.normal(size=3))
    how, m = S.variant(rng, m, 0.2, ["ghost", "core", "symmetry", "cart"])
    basis = how if how != "plain" else basis
    nm = int(rng.integers(1, 3))
    om, vec = S.rand_modes(rng, nm, gmin=0.02, gmax=0.25, wmin=0.2, wmax=1.0)
    bs = [int(x) for x in rng.integers(1, 4, nm)]
    if m.nao_nr() > 4:
        nm, om, vec, bs = 1, om[:1], vec[:1], [min(bs[0], 2)]
    return name, basis, m, nm, om, vec, bs


def solve(c):
    from openms.mqed import qedfci as F
    from openms.lib.boson import get_integrals4fci

    rng = c.rng
    name, basis, m, nm, om, vec, bs = draw(rng)
    enuc, _, h, eri, g, _ = get_integrals4fci(m, om.copy(), vec.copy())
    norb = m.nao_nr()
    eri = eri.reshape((norb,) * 4)
    X = E.EB(norb, m.nelec[0], m.nelec[1], [b + 1 for b in bs])
    W = np.diag(om)
    oned = rng.random() < 0.5
    if not oned and nm > 1:
        W = W + 0.05 * (np.ones((nm, nm)) - np.eye(nm))
    H = X.one(h) + X.two(eri) + X.eb(g) + X.bb(W)
    w, v = np.linalg.eigh(H)
    w0 = np.linalg.eigvalsh(X.el.H_dense(h, eri).real)[0]
    c.desc(mol=name, basis=basis, omega=om, vec=vec, bs=bs, oned=bool(oned), dim=X.dim)
    c.cls(name, f"modes={nm}", "1d" if oned else "2d")
    if w[1] - w[0] < 1e-3:
        raise Skip()
    nelec = m.nelec if rng.random() < 0.5 or m.spin else m.nelectron
    hk, ek, gk = h.copy(), eri.copy(), g.copy()
    e0, e, ci = F.kernel(h, eri, norb, nelec, nm, bs, g, om.copy() if oned else W.copy(), ecore=enuc, tol=1e-11, verbose=0,
                         max_cycle=400, max_space=24)
    c.ok(np.array_equal(hk, h) and np.array_equal(ek, eri) and np.array_equal(gk, g), "input-untouched")
    c.close(e0, w0 + enuc, "electronic-energy", atol=1e-7)
    c.close(e, w[0] + enuc, "ground-state-energy", atol=1e-6)
    ci = np.asarray(ci).ravel()
    c.close(np.linalg.norm(ci), 1.0, "normalised", atol=1e-7)
    c.close(np.linalg.norm(H @ ci - (e - enuc) * ci), 0.0, "eigenvector-residual", atol=1e-3)
    c.close(abs(np.vdot(v[:, 0], ci)), 1.0, "eigenvector", atol=1e-5)
    c.ok(e >= w[0] + enuc - 1e-8, "variational")
    # a larger photon space never raises the ground-state energy
    big = [b + 1 for b in bs]
    if np.prod(X.el.shape) * np.prod(np.array(big) + 1) <= 1500:
        e2 = F.kernel(h, eri, norb, nelec, nm, big, g, om.copy() if oned else W.copy(), ecore=enuc, tol=1e-11, verbose=0,
                      max_cycle=400, max_space=24)[1]
        c.ok(e2 <= e + 1e-7, "photon-space-variational", "", small=float(e), big=float(e2))
    # observables of the state
    nelt = nelec
    check_rdm(c, F, X, ci, norb, m.nelec, nelt, nm, bs)
    d1, d2 = F.make_rdm12e(ci, norb, nelt)
    p1 = F.make_rdm1p(ci, norb, nelt, nm, bs)
    eb = np.vdot(ci, X.eb(g) @ ci)
    tot = np.einsum("pq,pq->", h, d1) + 0.5 * np.einsum("pqrs,pqrs->", eri, d2) + np.einsum("xy,xy->", W, p1) + eb
    c.close(tot, np.vdot(ci, H @ ci), "energy-from-densities", atol=1e-8)


def check_rdm(c, F, X, ci, norb, nelec, nelt, nm, bs):
    x = ci.ravel()
    E4 = np.kron(X.E, np.eye(X.bdim)) if False else None
    psi = x.reshape(X.el.dim, -1)
    d1 = np.einsum("ib,pqij,jb->pq", psi, X.E, psi)
    Ev = np.einsum("pqij,jb->pqib", X.E, psi)
    d2 = np.einsum("qpib,rsib->pqrs", Ev, Ev) - np.einsum("qr,ps->pqrs", np.eye(norb), d1)
    r1 = F.make_rdm1e(ci, norb, nelt)
    c.close(r1, d1, "one-body-density", atol=1e-9)
    a1, a2 = F.make_rdm12e(ci, norb, nelt)
    c.close(a1, d1, "one-body-density", atol=1e-9)
    c.close(a2, d2, "two-body-density", atol=1e-9)
    n = sum(nelec)
    c.close(np.trace(r1), n * np.vdot(x, x), "electron-number", atol=1e-9)
    c.close(np.einsum("pqrr->pq", a2), (n - 1) * d1, "density-contraction", atol=1e-9)
    p1 = np.array([[np.vdot(np.kron(X.Ie, X.b(i)) @ x, np.kron(X.Ie, X.b(j)) @ x) for j in range(nm)] for i in range(nm)])
    c.close(F.make_rdm1p(ci, norb, nelt, nm, bs), p1, "boson-density", atol=1e-9)


def densities(c):
    """any state, not only eigenstates"""
    from openms.mqed import qedfci as F
    from checks import p08

    rng = c.rng
    norb, nelec, nm, bs = p08.draw(rng, 700)
    X = E.EB(norb, nelec[0], nelec[1], [b + 1 for b in bs])
    v = rng.normal(size=X.shape)
    v /= np.linalg.norm(v)
    c.desc(norb=norb, nelec=nelec, bs=bs, v0=float(v.ravel()[0]))
    c.cls(f"modes={nm}", f"nelec={nelec}")
    check_rdm(c, F, X, v, norb, nelec, nelec, nm, bs)


def coherent(c):
    """shifting the photons by the mean field changes nothing once the photon space is complete"""
    from openms.mqed import qedfci as F
    from openms.lib.boson import get_integrals4fci

    rng = c.rng
    name = str(rng.choice(["H2", "HeH+"]))
    m = S.mol(name, "sto-3g", b=float(S.MOLS[name][1] * rng.uniform(0.9, 1.3)), rot=S.rotation(rng), shift=rng.normal(size=3))
    om, vec = S.rand_modes(rng, 1, gmin=0.02, gmax=0.3, wmin=0.3, wmax=1.0)
    enuc, _, h, eri, g, _ = get_integrals4fci(m, om.copy(), vec.copy())
    sh = rng.normal() * 0.3
    g = g + sh * np.eye(2)[None]
    c.desc(mol=name, omega=om, vec=vec, shift=float(sh))
    nb = 40
    X = E.EB(2, 1, 1, [nb + 1])
    w = np.linalg.eigvalsh(X.one(h) + X.two(eri.reshape(2, 2, 2, 2)) + X.eb(g) + X.bb(np.diag(om)))
    if w[1] - w[0] < 1e-3:
        raise Skip()
    e1 = F.kernel(h, eri, 2, (1, 1), 1, [nb], g, om.copy(), ecore=enuc, tol=1e-12, verbose=0, max_cycle=400, max_space=30,
                  coherent_state=True)[1]
    c.close(e1, w[0] + enuc, "coherent-frame-energy", atol=2e-6)


FAMILIES = [
    Family("solve", solve, 100, 1200, chunk=3,
           monitors=["ground-state-energy", "eigenvector", "one-body-density", "two-body-density", "boson-density", "energy-from-densities",
                     "photon-space-variational"]),
    Family("densities", densities, 160, 2500, chunk=6, monitors=["one-body-density", "two-body-density", "boson-density"]),
    Family("coherent", coherent, 32, 300, chunk=2, monitors=["coherent-frame-energy"]),
]
