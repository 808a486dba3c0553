"""P08 QED-FCI operator contractions are the second-quantised operators."""
import numpy as np
from harness.vp import Family, Skip
from harness import systems as S, eb as E

ASSUMPTIONS = ["real Hamiltonians; up to 4 orbitals, 3 modes, configuration spaces up to 2500"]
BUDGET = {"quick": 300, "thorough": 1800}


def draw(rng, maxdim=1200, nm=None):
    for _ in range(100):
        norb = int(rng.integers(1, 5))
        na, nb = int(rng.integers(0, norb + 1)), int(rng.integers(0, norb + 1))
        if na + nb == 0:
            continue
        k = int(rng.integers(1, 4)) if nm is None else nm
        bs = [int(x) for x in rng.integers(1, 4, k)]
        X = E.EB.__new__(E.EB)
        from math import comb
        if comb(norb, na) * comb(norb, nb) * int(np.prod(np.array(bs) + 1)) <= maxdim:
            return norb, (na, nb), k, bs
    return 2, (1, 1), 1, [2]


def contract(c):
    from openms.mqed import qedfci as F

    rng = c.rng
    norb, nelec, nm, bs = draw(rng, 500 if c.tier == "quick" else 1500)
    X = E.EB(norb, nelec[0], nelec[1], [b + 1 for b in bs])
    h = S.herm(rng, norb)
    L, eri = S.sym_eri(rng, norb, norb + 1)
    g = np.array([S.herm(rng, norb) for _ in range(nm)])
    W = np.diag(rng.uniform(0.1, 1.5, nm))
    full = rng.random() < 0.5
    if full:
        o = rng.normal(size=(nm, nm)) * 0.2
        W = W + o + o.T - 2 * np.diag(np.diag(o))
    v = rng.normal(size=X.shape)
    keep = v.copy()
    a = (norb, nelec, nm, np.array(bs) if rng.random() < 0.5 else list(bs))
    c.desc(norb=norb, nelec=nelec, boson_states=bs, full=bool(full))
    c.cls(f"modes={nm}", "polarised" if nelec[0] != nelec[1] else "balanced", "coupled-modes" if full else "diagonal-modes")
    sc = 1 + np.abs(v).sum()
    x = v.ravel()

    def same(got, M, name):
        c.close(np.asarray(got).ravel(), M @ x, name, atol=1e-9 * sc)
    c.ok(tuple(F.fboson_ci_shape(*a)) == X.shape, "shape", "", got=list(F.fboson_ci_shape(*a)), ref=list(X.shape))
    same(F.contract_1e(h, v, *a), X.one(h), "one-body")
    same(F.contract_2e(eri, v, *a), X.EE(eri), "two-body")
    same(F.contract_2e_spin0(eri, v, *a), X.EE(eri), "two-body")
    H2 = F.absorb_h1e(h, eri, norb, nelec, 0.5)
    same(F.contract_2e(H2, v, *a), X.one(h) + X.two(eri), "absorbed-one-body")
    # spin-resolved interaction [(aa|aa), (aa|bb), (bb|bb)]
    ab, bbi = S.sym_eri(rng, norb, 2)[1], S.sym_eri(rng, norb, 2)[1]
    Ia, Ib = np.eye(X.el.A.dim), np.eye(X.el.B.dim)
    Ea = np.array([np.kron(X.el.A.E(p, q), Ib) for p in range(norb) for q in range(norb)])
    Eb = np.array([np.kron(Ia, X.el.B.E(p, q)) for p in range(norb) for q in range(norb)])
    n2 = norb * norb

    def quad(P, V, Q):
        return np.einsum("xij,xjk->ik", P, np.tensordot(V.reshape(n2, n2), Q, 1))
    M = quad(Ea, eri, Ea) + quad(Ea, ab, Eb) + quad(Eb, ab.reshape(n2, n2).T, Ea) + quad(Eb, bbi, Eb)
    same(F.contract_2e([eri, ab, bbi], v, *a), np.kron(M, X.Ibos), "two-body-spin-resolved")
    same(F.contract_eb(g, v, *a), X.eb(g), "electron-boson")
    same(F.contract_bb(W, v, *a), X.bb(W), "boson")
    if not full:
        same(F.contract_bb(np.diag(W).copy(), v, *a), X.bb(W), "boson")
    z = rng.normal(size=nm)
    same(F.contract_bb(W, v, *a, zalpha=z), X.bb(W) + X.bshift(W @ z), "boson-shifted")
    H = X.one(h) + X.two(eri) + X.eb(g) + X.bb(W)
    same(F.contract_all(h, H2, g, W, v.copy(), *a), H, "hamiltonian")
    u = float(rng.normal())
    hub = np.zeros((norb,) * 4)
    D = np.zeros(X.el.shape)
    for i, oa in enumerate(X.el.A.occ):
        for j, ob in enumerate(X.el.B.occ):
            D[i, j] = u * len(set(oa) & set(ob))
    ref = (D.reshape(D.shape + (1,) * nm) * v).ravel()
    c.close(np.asarray(F.contract_2e_hubbard(u, v, *a)).ravel(), ref, "hubbard", atol=1e-9 * sc)
    for k in range(nm):
        same(F.cre_boson(v, *a, k), np.kron(X.Ie, X.b(k).T), "creation")
        same(F.des_boson(v, *a, k), np.kron(X.Ie, X.b(k)), "annihilation")
    c.ok(np.array_equal(v, keep), "input-untouched")
    # hermiticity on a second vector
    y = rng.normal(size=X.shape)
    l = np.vdot(y, F.contract_all(h, H2, g, W, v.copy(), *a))
    r = np.vdot(F.contract_all(h, H2, g, W, y.copy(), *a), v)
    c.close(l, r, "hermitian", atol=1e-9 * sc * (1 + np.abs(y).max()))


def integrals(c):
    """integrals handed to the solver: the Pauli-Fierz Hamiltonian in an orthonormal basis"""
    from openms.lib.boson import get_integrals4fci
    from harness import qed as QD

    rng = c.rng
    name = str(rng.choice(["H2", "HeH+", "H3+", "LiH", "HeLi+", "H4"]))
    basis = "6-31g" if name in ("H2", "HeH+") and rng.random() < 0.5 else "sto-3g"
    m = S.mol(name, basis, b=float(S.MOLS[name][1] * rng.uniform(0.85, 1.3)), rot=S.rotation(rng), shift=rng.normal(size=3))
    how, m = S.variant(rng, m, 0.25)
    basis = how if how != "plain" else basis
    nm = int(rng.integers(1, 4))
    om, vec = S.rand_modes(rng, nm)
    chol = 1e-10 if rng.random() < 0.3 else None
    c.desc(mol=name, basis=basis, omega=om, vec=vec, chol=chol)
    c.cls(name, f"modes={nm}", f"chol={chol}")
    I = QD.Ints(m)
    enuc, ovlp, h, eri, Hep, dm = get_integrals4fci(m, om.copy(), vec.copy(), chol_thresh=chol)
    # the basis is the symmetrically orthogonalised one, S^-1/2
    X = I.orth()
    g = np.einsum("kpq,pm,qn->kmn", I.g(vec), X, X)
    c.close(enuc, I.enuc, "core", atol=1e-9)
    c.close(ovlp, np.eye(I.n), "orthonormal", atol=1e-8)
    c.close(Hep, np.sqrt(om / 2)[:, None, None] * g, "bilinear", atol=1e-8)
    c.close(h, X @ I.h @ X + 0.5 * np.einsum("kpq,kqs->ps", g, g), "one-body-with-self-energy", atol=1e-8)
    er = np.einsum("pm,qn,ra,sb,pqrs->mnab", X, X, X, X, I.eri, optimize=True)
    c.close(eri.reshape(er.shape), er + np.einsum("kpq,krs->pqrs", g, g), "two-body-with-self-energy", atol=1e-6 if chol else 1e-8)
    from pyscf import scf
    d = scf.hf.get_init_guess(m)
    Sh = np.linalg.inv(X)
    c.close(dm, Sh @ d @ Sh, "density", atol=1e-7)


FAMILIES = [
    Family("contract", contract, 240, 3000, chunk=4,
           monitors=["one-body", "two-body", "absorbed-one-body", "electron-boson", "boson", "boson-shifted", "two-body-spin-resolved", "hamiltonian", "hubbard",
                     "creation", "annihilation", "hermitian"]),
    Family("integrals", integrals, 120, 1500, chunk=5, monitors=["bilinear", "one-body-with-self-energy", "two-body-with-self-energy"]),
]
