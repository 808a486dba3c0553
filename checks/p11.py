"""P11 Cholesky factors and integrals reproduce the interaction within the requested threshold."""
import tempfile
import os
import numpy as np
from harness.vp import Family, Skip
from harness import systems as S

ASSUMPTIONS = ["real spherical basis functions; thresholds between 1e-3 and 1e-10"]
S.plain_kernels()
BUDGET = {"quick": 300, "thorough": 1800}

BASES = ["sto-3g", "sto-3g", "6-31g", "cc-pvdz", "6-31g*"]


def _shells(rng):
    """general contraction: several functions share the primitives of a shell, in any order of angular momenta"""
    out = []
    for _ in range(int(rng.integers(1, 4))):
        l, npr, nc = int(rng.choice([0, 0, 1, 1, 2])), int(rng.integers(1, 4)), int(rng.integers(1, 4))
        nc = min(nc, npr)
        ex = np.sort(rng.uniform(0.15, 1.0) * 2.7 ** np.arange(npr))[::-1]
        co = rng.normal(size=(npr, nc))
        out.append([l] + [[float(a)] + [float(x) for x in b] for a, b in zip(ex, co)])
    return out


def _general(rng):
    while True:
        name = str(rng.choice(["H2", "HeH+", "H3+"]))
        m = S.mol(name, {"H": _shells(rng), "He": _shells(rng)}, b=float(S.MOLS[name][1] * rng.uniform(0.8, 1.5)), rot=S.rotation(rng))
        if 2 <= m.nao_nr() <= 24:
            return name, "general-contraction", m


def _mol(rng, big=True):
    if big and rng.random() < 0.25:
        return _general(rng)
    name = str(rng.choice(["H2", "HeH+", "LiH", "H3+", "H4", "HeLi+", "HF", "H2O"]))
    basis = str(rng.choice(BASES)) if big else "sto-3g"
    if name in ("HF", "H2O", "LiH", "HeLi+") and basis == "cc-pvdz" and rng.random() < 0.5:
        basis = "6-31g"
    m = S.mol(name, basis, b=float(S.MOLS[name][1] * rng.uniform(0.8, 1.5)), rot=S.rotation(rng), shift=rng.normal(size=3))
    how, m = S.variant(rng, m, 0.2)
    return name, basis if how == "plain" else how, m


def _target(m, g):
    n = m.nao_nr()
    V = m.intor("int2e").reshape((n,) * 4)
    if g is not None:
        V = V + np.einsum("npq,nrs->pqrs", g, g)
    return V


def _judge(c, L, V, thr, tag, full):
    n = V.shape[0]
    c.ok(L.ndim == 3 and L.shape[1:] == (n, n) and np.all(np.isfinite(L)), f"{tag}-shape")
    c.close(L, L.transpose(0, 2, 1), f"{tag}-symmetric-vectors", atol=1e-6 if not full else 1e-7)
    rec = np.einsum("gpq,grs->pqrs", L, L)
    c.close(rec, V, f"{tag}-reconstruction", atol=1.0001 * thr + 1e-9 * max(1.0, np.abs(V).max()))
    c.events += len(L)


def factor(c):
    from openms.qmc import tools as T

    rng = c.rng
    name, basis, m = _mol(rng)
    n = m.nao_nr()
    thr = float(10.0 ** -rng.uniform(3, 9))
    g = None
    nm = int(rng.integers(0, 4))
    if nm:
        g = rng.normal(size=(nm, n, n)) * rng.uniform(0.05, 0.8)
        g = g + g.transpose(0, 2, 1)
    c.desc(mol=name, basis=basis, nao=n, thr=thr, modes=nm)
    c.cls(name, basis, f"modes={nm}", f"1e-{int(-np.log10(thr))}")
    V = _target(m, g)
    gk = None if g is None else g.copy()
    Lf = S.quiet(T.chols_full, m, thresh=thr, g=g)
    _judge(c, Lf, V, thr, "full", True)
    if rng.random() < 0.5:
        e = m.intor("int2e").reshape((n,) * 4)
        ek = e.copy()
        L2 = S.quiet(T.chols_full, m, eri=e, thresh=thr, g=g)
        _judge(c, L2, V, thr, "given", True)
        c.ok(np.array_equal(e, ek), "integrals-untouched")
    Lb = S.quiet(T.chols_blocked, m, thresh=thr, max_chol_fac=max(15, n), g=g)
    _judge(c, Lb, V, thr, "blocked", False)
    c.ok(len(Lb) <= n * (n + 1) // 2, "no-redundant-vectors", "", got=len(Lb), nao=n)
    if g is not None:
        c.ok(np.array_equal(g, gk), "coupling-untouched")


def capped(c):
    """the vector limit is respected and what is returned is still a valid partial factorisation"""
    from openms.qmc import tools as T

    rng = c.rng
    name, basis, m = _mol(rng)
    n = m.nao_nr()
    fac = int(rng.integers(1, 3))
    g = None
    if rng.random() < 0.5:
        g = rng.normal(size=(2, n, n)) * 0.3
        g = g + g.transpose(0, 2, 1)
    c.desc(mol=name, basis=basis, nao=n, fac=fac)
    c.cls(name, basis, f"fac={fac}")
    V = _target(m, g)
    L = S.quiet(T.chols_blocked, m, thresh=1e-9, max_chol_fac=fac, g=g)
    c.ok(len(L) <= fac * n, "limit-respected")
    full = S.quiet(T.chols_blocked, m, thresh=1e-9, max_chol_fac=max(15, n), g=g)
    c.close(L, full[:len(L)], "prefix", atol=1e-9)
    R = (V - np.einsum("gpq,grs->pqrs", L, L)).reshape(n * n, n * n)
    c.ok(np.linalg.eigvalsh(R).min() > -1e-7, "residual-positive")


def oao(c):
    from openms.qmc import tools as T
    from pyscf import scf

    rng = c.rng
    name, basis, m = _mol(rng)
    n = m.nao_nr()
    thr = float(10.0 ** -rng.uniform(4, 9))
    block = bool(rng.random() < 0.5)
    kind = str(rng.choice(["default", "random", "mo"]))
    Sm = m.intor("int1e_ovlp")
    if np.linalg.cond(Sm) > 1e6:
        raise Skip()
    if kind == "default":
        X = None
    elif kind == "random":
        w, v = np.linalg.eigh(Sm)
        X = (v / np.sqrt(w)) @ np.linalg.qr(rng.normal(size=(n, n)))[0]
    else:
        mf = scf.RHF(m)
        mf.verbose, mf.max_cycle = 0, 3
        mf.kernel()
        X = mf.mo_coeff
    g = None
    if rng.random() < 0.5:
        g = rng.normal(size=(2, n, n)) * 0.2
        g = g + g.transpose(0, 2, 1)
    c.desc(mol=name, basis=basis, thr=thr, block=block, orbitals=kind, g=g is not None)
    c.cls(name, basis, kind, f"block={block}")
    Xk = None if X is None else X.copy()
    h, L, nuc = S.quiet(T.get_h1e_chols, m, Xmat=X, thresh=thr, g=g, block_decompose_eri=block)
    if X is None:
        w, v = np.linalg.eigh(Sm)
        X = (v / np.sqrt(w)) @ v.T
    else:
        c.ok(np.array_equal(X, Xk), "orbitals-untouched")
    c.close(h, X.T @ scf.hf.get_hcore(m) @ X, "core-hamiltonian", atol=1e-8)
    c.close(nuc, m.energy_nuc(), "nuclear-energy", atol=1e-10)
    V = np.einsum("pqrs,pi,qj,rk,sl->ijkl", _target(m, g), X, X, X, X, optimize=True)
    amp = np.linalg.norm(X, 2) ** 4
    nn = n * n
    c.close(np.einsum("gpq,grs->pqrs", L, L), V, "orthogonal-basis-interaction", atol=amp * thr * (1 if not block else nn) + 1e-7)


def afqmc(c):
    """the Hamiltonian an electron-boson calculation is built on"""
    from openms.qmc.afqmc import AFQMC
    from openms.lib.boson import Photon
    from pyscf import scf

    rng = c.rng
    name = str(rng.choice(["H2", "HeH+", "H3+", "LiH", "H4"]))
    m = S.mol(name, "sto-3g", b=float(S.MOLS[name][1] * rng.uniform(0.8, 1.5)), rot=S.rotation(rng), shift=rng.normal(size=3) * 0.3)
    nm = int(rng.integers(0, 4))
    om, vec = S.rand_modes(rng, max(nm, 1))
    bs = [int(x) for x in rng.integers(2, 4, max(nm, 1))]
    thr = float(10.0 ** -rng.uniform(5, 9))
    block = bool(rng.random() < 0.4)
    oao_ = bool(rng.random() < 0.6)
    scheme = int(rng.integers(1, 3))
    dec = bool(nm and rng.random() < 0.5)
    off = bool(rng.random() < 0.3)
    c.desc(mol=name, omega=om, vec=vec, bs=bs, modes=nm, thr=thr, block=block, OAO=oao_, decouple=dec, scheme=scheme, off=off)
    c.cls(name, f"modes={nm}", f"block={block}", f"OAO={oao_}", f"decouple={dec}/{scheme}")
    system = m
    if nm:
        system = Photon(m, omega=om.copy(), vec=vec.copy(), nboson_states=bs, verbose=0)
        system.get_gmatao()
    mf = scf.RHF(m)
    mf.verbose = 0
    mf.kernel()
    q = S.quiet(AFQMC, system, mf=mf, dt=0.01, total_time=0.05, num_walkers=2, OAO=oao_, chol_thresh=thr, block_decompose_eri=block,
                verbose=0, propagator_options={"decouple_bilinear": dec, "decouple_scheme": scheme, "turnoff_bosons": off})
    S.quiet(q.build)
    n = m.nao_nr()
    Sm = m.intor("int1e_ovlp")
    w, v = np.linalg.eigh(Sm)
    X = (v / np.sqrt(w)) @ v.T if oao_ else mf.mo_coeff
    h = X.T @ scf.hf.get_hcore(m) @ X
    V = _target(m, None)
    V = np.einsum("pqrs,pi,qj,rk,sl->ijkl", V, X, X, X, X, optimize=True)
    if nm:
        # the code's own coupling matrices are judged by P01; here their use in the many-body Hamiltonian is
        g = np.einsum("pi,npq,qj->nij", X, np.asarray(system.gmat), X)
        h = h + 0.5 * np.einsum("npq,nqs->ps", g, g)
        V = V + np.einsum("npq,nrs->pqrs", g, g)
        c.close(q.geb, g * np.sqrt(om / 2)[:, None, None], "bilinear-coupling", atol=1e-9)
    c.close(q.nuc_energy, m.energy_nuc(), "nuclear-energy", atol=1e-10)
    for x in np.asarray(q.h1e):
        c.close(x, h, "one-body-hamiltonian", atol=1e-8)
    L = np.asarray(q.ltensor)[: q.nbarefields]
    c.ok(np.abs(np.imag(L)).max() < 1e-12, "real-factors")
    L = np.real(L)
    amp = np.linalg.norm(X, 2) ** 4 * (n * n if block else 1)
    c.close(np.einsum("gpq,grs->pqrs", L, L), V, "two-body-hamiltonian", atol=amp * thr + 1e-8)
    if nm and dec:
        e, b = q.chol_bilinear
        e, b = np.asarray(e), np.asarray(b)
        s = len(b) // nm
        for k in range(nm):
            ek, bk = e[k * s:(k + 1) * s], b[k * s:(k + 1) * s]
            c.close(np.einsum("x,xpq->pq", bk, ek), g[k] * np.sqrt(om[k] / 2), "decoupled-bilinear", atol=1e-9)
            c.close(np.einsum("xpq,xrs->pqrs", ek, ek), np.zeros((n,) * 4), "decoupled-no-electron-remainder", atol=1e-9)
            c.close(np.sum(bk * bk), 0.0, "decoupled-no-boson-remainder", atol=1e-9)


def series(c):
    """calculations of one process on molecules that hardly differ, or on one molecule altered in place: each gets its own factors"""
    from openms.qmc import tools as T
    from pyscf import scf

    rng = c.rng
    log = []
    for how, m in S.neighbours(rng, n=int(rng.integers(3, 6)), open_shell=True):
        n = m.nao_nr()
        thr = float(rng.choice([1e-5, 1e-5, 1e-8]))
        block = bool(rng.random() < 0.4)
        g = None
        if rng.random() < 0.4:
            g = rng.normal(size=(1, n, n)) * 0.3
            g = g + g.transpose(0, 2, 1)
        w, v = np.linalg.eigh(m.intor("int1e_ovlp"))
        X = (v / np.sqrt(w)) @ (v.T if rng.random() < 0.6 else np.linalg.qr(rng.normal(size=(n, n)))[0])
        log.append((how, thr, block, g is not None))
        h, L, nuc = S.quiet(T.get_h1e_chols, m, Xmat=X, thresh=thr, g=g, block_decompose_eri=block)
        V = np.einsum("pqrs,pi,qj,rk,sl->ijkl", _target(m, g), X, X, X, X, optimize=True)
        c.ok(L.shape[1:] == (n, n), "own-interaction", "factors of another shape")
        c.close(np.einsum("gpq,grs->pqrs", L, L), V, "own-interaction", atol=np.linalg.norm(X, 2) ** 4 * thr * (n * n if block else 1) + 1e-7, msg=how)
        c.close(h, X.T @ scf.hf.get_hcore(m) @ X, "own-core-hamiltonian", atol=1e-8, msg=how)
        c.close(nuc, m.energy_nuc(), "own-nuclear-energy", atol=1e-10, msg=how)
        c.events += 1
    c.desc(series=log)
    c.cls(*[x[0] for x in log])


def fcidump(c):
    from openms.qmc import tools as T
    from pyscf.tools import fcidump as D
    from pyscf import ao2mo

    rng = c.rng
    n = int(rng.integers(1, 7))
    sc = float(rng.choice([1e-3, 1.0, 30.0]))
    h = S.herm(rng, n, sc)
    eri = rng.normal(size=(n,) * 4) * sc
    for p in ((1, 0, 2, 3), (0, 1, 3, 2), (2, 3, 0, 1)):
        eri = 0.5 * (eri + eri.transpose(p))
    # sparse integrals: absent entries are zeros
    if rng.random() < 0.5:
        mask = rng.random((n,) * 4) < 0.4
        for p in ((1, 0, 2, 3), (0, 1, 3, 2), (2, 3, 0, 1)):
            mask = mask | mask.transpose(p)
        eri = eri * ~mask
        hm = rng.random((n, n)) < 0.4
        h = h * ~(hm | hm.T)
    nuc = float(rng.choice([0.0, 1.0, -1.0]) * rng.normal() * 5)
    sym = int(rng.choice([1, 4, 8]))
    e = eri if sym == 1 else ao2mo.restore(sym, eri, n)
    d = tempfile.mkdtemp(prefix="p11")
    f = os.path.join(d, "FCIDUMP")
    c.desc(n=n, scale=sc, sym=sym, nuc=nuc)
    c.cls(f"n={n}", f"sym={sym}")
    try:
        if sym == 1:
            e = ao2mo.restore(8, eri, n)
        D.from_integrals(f, h, e, n, n, nuc=nuc)
        h2, e2, nuc2 = T.read_fcidump(f, n)
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)
    c.close(h2, h, "fcidump-one-body", atol=1e-12 * max(1, sc), rtol=1e-12)
    c.close(e2, eri, "fcidump-two-body", atol=1e-12 * max(1, sc), rtol=1e-12)
    c.close(nuc2, nuc, "fcidump-constant", atol=1e-12, rtol=1e-12)


def matrices(c):
    from openms.lib import mathlib as ML

    rng = c.rng
    n = int(rng.integers(1, 13))
    rank = int(rng.integers(1, n + 1))
    A = rng.normal(size=(n, rank))
    M = A @ A.T
    kind = str(rng.choice(["low-rank", "definite", "overlap"]))
    if kind == "definite":
        M = M + np.diag(rng.uniform(0.1, 1, n))
    elif kind == "overlap":
        name, basis, m = _mol(rng)
        M = m.intor("int1e_ovlp")
        n = len(M)
    thr = float(10.0 ** -rng.uniform(3, 8))
    c.desc(n=n, rank=rank, kind=kind, thr=thr)
    c.cls(kind, f"1e-{int(-np.log10(thr))}")
    Mk = M.copy()
    Lv, piv, nv = ML.full_cholesky_decomposition(M, thr)
    c.ok(np.array_equal(M, Mk), "matrix-untouched")
    c.ok(0 < nv <= n and sorted(piv) == list(range(1, n + 1)), "pivots-permutation")
    P = np.zeros((n, n))
    P[np.asarray(piv) - 1, np.arange(n)] = 1
    Lk = np.asarray(Lv)[:, :nv]
    c.close(np.triu(Lk[:nv], 1), 0 * Lk[:nv], "lower-triangular", atol=0)
    R = P.T @ M @ P - Lk @ Lk.T
    c.ok(np.abs(R).max() <= 1.001 * thr + 1e-9 * np.abs(M).max(), "decomposition-residual", "", got=float(np.abs(R).max()))
    L, Pr = ML.full_cholesky_orth(M, thr)
    c.ok(L.shape == (nv, nv) and Pr.shape == (n, nv), "orth-shapes")
    c.close(Pr.T @ M @ Pr, L @ L.T, "orth-decomposition", atol=1e-9 * max(1, np.abs(M).max()))
    if np.linalg.cond(L) < 1e4:
        X = Pr @ np.linalg.inv(L).T
        c.close(X.T @ M @ X, np.eye(nv), "orthonormal-basis", atol=1e-6)
    U = np.linalg.qr(S.cplx(rng, n, n))[0] if rng.random() < 0.5 else np.linalg.qr(rng.normal(size=(n, n)))[0]
    B = S.cplx(rng, n, n)
    Bk, Uk = B.copy(), U.copy()
    c.close(ML.unitary_transform(U, B), U.conj().T @ B @ U, "unitary-transform", atol=1e-10)
    c.ok(np.array_equal(B, Bk) and np.array_equal(U, Uk), "matrix-untouched")


FAMILIES = [
    Family("factor", factor, 100, 800, chunk=6, monitors=["full-reconstruction", "given-reconstruction", "blocked-reconstruction",
                                                         "full-symmetric-vectors", "blocked-symmetric-vectors", "no-redundant-vectors",
                                                         "integrals-untouched", "coupling-untouched"]),
    Family("capped", capped, 24, 300, chunk=6, monitors=["limit-respected", "prefix", "residual-positive"]),
    Family("orthogonal-basis", oao, 40, 500, chunk=5, monitors=["core-hamiltonian", "nuclear-energy", "orthogonal-basis-interaction"]),
    Family("afqmc", afqmc, 120, 300, chunk=4, monitors=["one-body-hamiltonian", "two-body-hamiltonian", "bilinear-coupling", "decoupled-bilinear",
                                                       "decoupled-no-electron-remainder", "decoupled-no-boson-remainder"]),
    Family("series", series, 40, 500, chunk=5, monitors=["own-interaction", "own-core-hamiltonian", "own-nuclear-energy"]),
    Family("fcidump", fcidump, 60, 1000, chunk=20, monitors=["fcidump-one-body", "fcidump-two-body", "fcidump-constant"]),
    Family("matrices", matrices, 120, 3000, chunk=30, monitors=["decomposition-residual", "orth-decomposition", "orthonormal-basis",
                                                                "unitary-transform", "pivots-permutation"]),
]
