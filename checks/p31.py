"""P31 orthonormal bases from overlap matrices, commutator errors and their extrapolation."""
import contextlib
import io
import types
import numpy as np
import scipy.linalg as sl
from harness import vp
from harness.vp import Family, Skip
from harness import systems as S

ASSUMPTIONS = ["eigenvalues of overlap matrices are kept a factor of ten away from the linear-dependency threshold"]
BUDGET = {"quick": 300, "thorough": 1500}


def overlap(c, n=None, deficient=None):
    """Gram matrix of n unit vectors, some of them (nearly) dependent on others"""
    rng = c.rng
    n = n or int(rng.integers(1, 13))
    k = 0 if n < 2 else (int(rng.integers(0, n)) if deficient is None else deficient)
    if deficient is None and rng.random() < 0.5:
        k = 0
    A = rng.normal(size=(n + 3, n))
    if k:
        src = rng.normal(size=(n - k, k))
        A[:, n - k:] = A[:, :n - k] @ src
        A = A[:, rng.permutation(n)]
    A /= np.linalg.norm(A, axis=0)
    if rng.random() < 0.3:
        A *= np.exp(rng.normal(size=n) * 0.7)
    return A.T @ A, n - k


def basis(c):
    """pivoted factorisation: P^T S P = L L^T, dropped functions depend on kept ones, input stays"""
    from openms.lib import mathlib
    Sm, rank = overlap(c)
    thr = 10.0 ** -c.rng.integers(5, 10)
    if np.linalg.svd(Sm, compute_uv=False)[rank - 1] < 1e3 * thr:
        raise Skip()
    c.desc(n=len(Sm), rank=rank, thr=thr, S=float(Sm.sum()))
    c.cls("full" if rank == len(Sm) else "deficient")
    keep = Sm.copy()
    L, P = mathlib.full_cholesky_orth(Sm, threshold=thr)
    c.ok(np.array_equal(Sm, keep), "overlap-untouched", "the overlap matrix was changed")
    n, m = P.shape
    c.ok((n, m) == (len(Sm), rank) and L.shape == (rank, rank), "linearly-independent-functions", f"{m} of {len(Sm)} kept, rank is {rank}")
    sel = P.argmax(0)
    c.ok(np.array_equal(P, np.eye(n)[:, sel]) and len(set(sel)) == m, "linearly-independent-functions", "P selects each function once")
    c.ok(np.array_equal(L, np.tril(L)) and (np.diag(L) > 0).all(), "factor-reproduces-overlap", "L is lower triangular")
    c.close(P.T @ Sm @ P, L @ L.T, "factor-reproduces-overlap", atol=1e-12 * np.abs(Sm).max(), rtol=0)
    X = P @ np.linalg.inv(L).T
    c.close(X.T @ Sm @ X, np.eye(m), "orthonormal", atol=1e-11 * max(1, np.linalg.cond(L) ** 2), rtol=0)
    R = Sm - Sm @ X @ X.T @ Sm
    c.ok(np.abs(np.diag(R)).max() <= 1.01 * thr + 1e-11, "linearly-independent-functions", f"dropped function has a remainder of {np.abs(np.diag(R)).max():.3g}")
    d = np.diag(L)
    c.ok((np.diff(d) <= 1e-9 * d[0]).all(), "largest-remainder-first", f"{d}")
    V, piv, k = mathlib.full_cholesky_decomposition(Sm, thr)
    c.ok(np.array_equal(Sm, keep), "overlap-untouched", "the overlap matrix was changed")
    c.ok(k == rank and sorted(piv) == list(range(1, n + 1)), "linearly-independent-functions", f"{k} vectors, pivots {piv}")
    c.ok(np.array_equal(V, np.tril(V)), "factor-reproduces-overlap", "lower triangular")
    V = V[:, :k]
    p = np.asarray(piv) - 1
    c.close((V @ V.T)[:k, :k], Sm[np.ix_(p, p)][:k, :k], "factor-reproduces-overlap", atol=1e-12 * np.abs(Sm).max(), rtol=0)


def orbitals(c):
    """orbitals of a Fock matrix in the reduced basis"""
    from openms.lib import mathlib
    from openms.mqed import scqedhf
    Sm, rank = overlap(c)
    w = np.linalg.svd(Sm, compute_uv=False)
    if w[rank - 1] < 1e-3:
        raise Skip()
    n = len(Sm)
    F = S.sym(c.rng, n) if hasattr(S, "sym") else (lambda a: a + a.T)(c.rng.normal(size=(n, n)))
    c.desc(n=n, rank=rank, S=float(Sm.sum()))
    L, P = mathlib.full_cholesky_orth(Sm, threshold=1e-8)
    e, C = scqedhf.cholesky_diag_fock_rao(types.SimpleNamespace(L=L, P=P), F)
    c.ok(C.shape == (n, rank), "orthonormal", f"{C.shape}")
    tol = 1e-10 * np.linalg.cond(L) ** 2
    c.close(C.T @ Sm @ C, np.eye(rank), "orthonormal", atol=tol, rtol=0)
    c.close(C.T @ F @ C, np.diag(e), "orbitals-diagonalise", atol=tol * np.abs(F).max(), rtol=0)
    sel = P.argmax(0)
    ref = sl.eigh(F[np.ix_(sel, sel)], Sm[np.ix_(sel, sel)], eigvals_only=True)
    c.close(e, ref, "orbitals-diagonalise", atol=tol * np.abs(F).max(), rtol=0)
    c.ok((np.diff(e) >= 0).all(), "orbitals-diagonalise", "energies ascend")
    c.close(scqedhf.ao2rao(F, P), F[np.ix_(sel, sel)], "orbitals-diagonalise", atol=0, rtol=1e-14)
    c.close(scqedhf.get_reduced_overlp(L), Sm[np.ix_(sel, sel)], "factor-reproduces-overlap", atol=1e-12 * np.abs(Sm).max(), rtol=0)
    # full problem
    S2, r2 = overlap(c, n=n, deficient=0)
    if np.linalg.cond(S2) > 1e6:
        return
    e, C = scqedhf.eigh(F, S2)
    t = 1e-9 * np.linalg.cond(S2)
    c.close(C.T @ S2 @ C, np.eye(n), "orthonormal", atol=t, rtol=0)
    c.close(F @ C, S2 @ C * e, "orbitals-diagonalise", atol=t * np.abs(F).max(), rtol=0)
    top = C[np.abs(C).argmax(0), np.arange(n)]
    c.ok((top > 0).all(), "orbital-signs", "largest coefficient of each orbital is positive")


def rotations(c):
    """changes of basis, real and complex"""
    from openms.lib import mathlib
    from openms.mqed import scqedhf
    rng = c.rng
    n, m = int(rng.integers(1, 9)), int(rng.integers(1, 9))
    U = rng.normal(size=(n, m))
    A = rng.normal(size=(n, n))
    cplx = rng.random() < 0.5
    c.desc(n=n, m=m, complex=bool(cplx), A=float(A[0, 0]))
    c.close(scqedhf.unitary_transform(U, A), U.T @ A @ U, "change-of-basis", atol=1e-12 * n, rtol=1e-12)
    if cplx:
        U = U + 1j * rng.normal(size=(n, m))
        A = A + 1j * rng.normal(size=(n, n))
    U0, A0 = U.copy(), A.copy()
    c.close(mathlib.unitary_transform(U, A), U.conj().T @ A @ U, "change-of-basis", atol=1e-12 * n, rtol=1e-12)
    c.ok(np.array_equal(U, U0) and np.array_equal(A, A0), "overlap-untouched", "operands changed")


def guess(c):
    """initial densities of the strong-coupling method come from orthonormal orbitals"""
    from openms.mqed import scqedhf
    from openms.lib.boson import Photon
    rng = c.rng
    m = S.molecule(rng) if hasattr(S, "molecule") else None
    if m is None:
        from pyscf import gto
        k = int(rng.integers(0, 4))
        atom = ["H 0 0 0; H 0 0 %g" % rng.uniform(0.6, 1.5), "Li 0 0 0; H 0.1 0 %g" % rng.uniform(1.3, 1.9),
                "He 0 0 0; H 0 0.4 %g" % rng.uniform(0.6, 1.5), "H 0 0 0; H 0 1 0; H 1 0 0.1; H 1.1 1 %g" % rng.uniform(0.2, 1.1)][k]
        m = gto.M(atom=atom, basis=["sto-3g", "6-31g"][int(rng.integers(2))], charge=1 if k == 2 else 0, verbose=0)
    q = Photon(m, omega=[rng.uniform(0.2, 1)], vec=[rng.normal(size=3)], gfac=[rng.uniform(0, 0.2)], shift=False)
    mf = scqedhf.RHF(m, qed=q)
    mf.verbose = 0
    Sm = m.intor("int1e_ovlp")
    c.desc(atom=m.tostring(), basis=str(m.basis))
    D = np.asarray(mf.init_guess_by_1e())
    t = 1e-9 * np.linalg.cond(Sm)
    c.close(np.trace(D @ Sm), m.nelectron, "guess-holds-electrons", atol=t, rtol=0)
    c.close(D @ Sm @ D, 2 * D, "guess-holds-electrons", atol=t * 10, rtol=0)
    h = m.intor("int1e_kin") + m.intor("int1e_nuc")
    e = sl.eigh(h, Sm, eigvals_only=True)
    c.close(np.trace(D @ h), 2 * e[:m.nelectron // 2].sum(), "guess-holds-electrons", atol=t * 100, rtol=0)


class Stub:
    def __init__(self, Sm, qed, verbose):
        self.S, self.qed, self.verbose, self.stdout = Sm, qed, verbose, io.StringIO()
        self._eigh = "original"

    def get_ovlp(self, *a):
        return self.S


def dependence(c):
    """the generalised eigenvalue solver is exchanged when the basis is nearly dependent, and only then"""
    from openms.lib import scipy_helper
    rng = c.rng
    n = int(rng.integers(2, 10))
    k = int(rng.integers(0, max(1, n // 2) + 1))
    Q = np.linalg.qr(rng.normal(size=(n, n)))[0]
    w = rng.uniform(0.3, 2, n)
    small = 10.0 ** rng.uniform(-15, -10.5)
    w[:k] = small
    Sm = (Q * w) @ Q.T
    Sm = (Sm + Sm.T) / 2
    d = np.sqrt(np.diag(Sm))
    if k:
        Sm = Sm / np.outer(d, d)
    cond = np.linalg.cond(Sm)
    c.desc(n=n, k=k, small=float(small), cond=float(cond))
    verbose = int(rng.choice([0, 4, 5, 6]))
    mf = Stub(Sm, None, verbose)
    force = bool(k == 0 and rng.random() < 0.3)
    out = scipy_helper.remove_linear_dep(mf, force_pivoted_cholesky=force)
    c.ok(out is mf, "solver-exchanged", "returns the object")
    if k == 0 and not force:
        c.ok(mf._eigh == "original", "solver-exchanged", f"solver replaced at condition number {cond:.3g}")
        return
    if k and cond < 3e10:
        raise Skip()
    c.ok(callable(mf._eigh), "solver-exchanged", f"solver kept at condition number {cond:.3g}")
    F = rng.normal(size=(n, n))
    F = F + F.T
    e, C = mf._eigh(F, Sm)
    c.ok(C.shape == (n, n - k), "solver-exchanged", f"{C.shape[1]} orbitals from {n} functions with {k} dependent")
    c.close(C.T @ Sm @ C, np.eye(C.shape[1]), "orthonormal", atol=1e-6, rtol=0)
    c.close(C.T @ F @ C, np.diag(e), "orbitals-diagonalise", atol=1e-6 * np.abs(F).max() * max(1, np.abs(C).max() ** 2), rtol=0)
    c.events += 1


def density(rng, n, C, spin=None):
    occ = np.zeros(n)
    occ[:int(rng.integers(0, n + 1))] = spin or 2
    return (C * occ) @ C.T


def errors(c):
    """commutator error vectors"""
    from openms.mqed import diis
    rng = c.rng
    n = int(rng.integers(1, 7))
    kind = str(rng.choice(["r", "u", "k"]))
    nk = {"r": 1, "u": 2, "k": int(rng.integers(1, 4))}[kind]
    same = rng.random() < 0.4
    orth = rng.random() < 0.5
    cplx = kind == "k" or rng.random() < 0.5
    c.desc(n=n, kind=kind, orth=bool(orth), commute=bool(same), cplx=bool(cplx), draw=float(rng.random()))
    Ss, Ds, Fs, Xs = [], [], [], []
    for q in range(nk):
        if q and kind == "u":
            Sm = Ss[0]
        else:
            Sm, _ = overlap(c, n=n, deficient=0)
            if np.linalg.cond(Sm) > 1e6:
                raise Skip()
        F = rng.normal(size=(n, n))
        F = F + F.T
        if cplx:
            G = rng.normal(size=(n, n))
            F = F + 1j * (G - G.T)
            if rng.random() < 0.5:  # complex metric too, as at a k-point
                ph = np.exp(1j * rng.uniform(0, 6, n))
                Sm = ph[:, None] * Sm * ph.conj() if not (kind == "u" and q) else Sm
        e, C = sl.eigh(F, Sm)
        if not same:
            X = rng.normal(size=(n, n)) + (1j * rng.normal(size=(n, n)) if cplx else 0)
            C = sl.eigh(X + X.conj().T, Sm)[1]
        occ = np.zeros(n)
        occ[:int(rng.integers(0, n + 1))] = 2 if kind != "u" else 1
        Ss.append(Sm.astype(np.result_type(F, Sm))), Fs.append(F), Ds.append((C * occ) @ C.conj().T), Xs.append(sl.eigh(Sm)[1] / np.sqrt(sl.eigh(Sm)[0]))
    pack = lambda a: a[0] if kind == "r" else np.array(a)
    s = Ss[0] if kind in "ru" else np.array(Ss)
    Corth = pack(Xs) if orth else None
    g = rng.normal(size=int(rng.integers(1, 5))) if rng.random() < 0.5 else None
    err = diis.get_err_vec(s, pack(Ds), pack(Fs), Corth, g)
    want = []
    for Sm, D, F, X in zip(Ss, Ds, Fs, Xs):
        M = Sm @ D @ F
        r = M.conj().T - M
        want.append((X.conj().T @ r @ X if orth else r).ravel())
    want = np.concatenate(want + ([g] if g is not None else []))
    c.ok(err.shape == want.shape, "commutator-error", f"{err.shape} instead of {want.shape}")
    c.close(err, want, "commutator-error", atol=1e-10 * max(1, np.abs(want).max()), rtol=0)
    if same and g is None:
        c.close(err, 0 * err, "commutator-error", atol=1e-8 * max(np.linalg.cond(x) for x in Ss) * max(np.abs(f).max() for f in Fs), rtol=0)


def extrapolate(c):
    """the extrapolated parameters minimise the error among all affine combinations"""
    from openms.mqed import diis
    rng = c.rng
    n = int(rng.integers(2, 7))
    nv = int(rng.integers(0, 5))
    steps = int(rng.integers(1, 12))
    space = int(rng.choice([3, 6, 8]))
    c.desc(n=n, nv=nv, steps=steps, space=space, draw=float(rng.random()))
    a = diis.CDIIS()
    a.verbose = 0
    a.space = space
    Sm = np.eye(n)
    hist = []
    for k in range(steps):
        F = rng.normal(size=(n, n))
        F = F + F.T
        D = rng.normal(size=(n, n))
        D = D + D.T
        kw = {}
        x = F.ravel()
        e = ((Sm @ D @ F).T - Sm @ D @ F).ravel()
        if nv:
            kw = dict(var=rng.normal(size=nv), var_grad=rng.normal(size=nv))
            x, e = np.hstack([x, kw["var"]]), np.hstack([e, kw["var_grad"]])
        F0 = F.copy()
        new = a.update(Sm, D, F, **kw)
        c.ok(np.array_equal(F, F0), "overlap-untouched", "Fock matrix changed")
        hist.append((x, e))
        hist = hist[-space:]
        m = len(hist)
        E = np.array([h[1] for h in hist])
        if np.linalg.matrix_rank(E, tol=1e-3) < m:
            raise Skip()
        B = np.zeros((m + 1, m + 1))
        B[1:, 1:] = E @ E.T
        B[0, 1:] = B[1:, 0] = 1
        co = np.linalg.solve(B, np.eye(m + 1)[0])[1:]
        want = co @ np.array([h[0] for h in hist])
        c.close(np.asarray(new).ravel(), want, "extrapolation", atol=1e-6 * max(1, np.abs(want).max()), rtol=0, msg=f"step {k}")
        c.ok(a.get_num_vec() >= 0, "extrapolation")


FAMILIES = [
    Family("basis", basis, 3600, 30000, monitors=["factor-reproduces-overlap", "orthonormal", "linearly-independent-functions", "largest-remainder-first", "overlap-untouched"]),
    Family("orbitals", orbitals, 2400, 25000, monitors=["orthonormal", "orbitals-diagonalise", "factor-reproduces-overlap", "orbital-signs"]),
    Family("rotations", rotations, 1200, 5000, monitors=["change-of-basis", "overlap-untouched"]),
    Family("guess", guess, 240, 400, monitors=["guess-holds-electrons"]),
    Family("dependence", dependence, 2400, 20000, monitors=["solver-exchanged", "orthonormal", "orbitals-diagonalise"]),
    Family("errors", errors, 2400, 25000, monitors=["commutator-error"]),
    Family("extrapolate", extrapolate, 1800, 15000, monitors=["extrapolation"]),
]
