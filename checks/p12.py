"""P12 reduced-cost forms of the interaction equal the exact one."""
import numpy as np
from harness.vp import Family, Skip
from harness import systems as S

ASSUMPTIONS = ["real symmetric Cholesky factors for the mixed low-rank/banded exchange (what the integral builders produce)",
               "decoupling schemes 1 and 2; scheme 3 is marked as wrong in the source and not judged"]
BUDGET = {"quick": 200, "thorough": 1200}


def _sym(L):
    return 0.5 * (L + L.transpose(0, 2, 1))


def mixed(c):
    from openms.qmc import tools as T, estimators as est

    rng = c.rng
    n = int(rng.integers(1, 25))
    ng = int(rng.integers(1, 7))
    bw = int(rng.integers(0, n))
    L = np.zeros((ng, n, n))
    kinds = []
    for k in range(ng):
        kind = str(rng.choice(["low", "banded", "zero", "full"], p=[0.4, 0.4, 0.1, 0.1]))
        kinds.append(kind)
        if kind == "low":
            r = int(rng.integers(1, max(2, n // 4 + 1)))
            A = rng.normal(size=(n, r))
            if rng.random() < 0.5:
                # components of very different size: every one of them counts
                A = np.linalg.qr(A)[0]
                r = A.shape[1]
                L[k] = _sym((A @ np.diag(rng.choice([-1, 1], r) * 10.0 ** rng.uniform(-7.5, 0.5, r)) @ A.T)[None])[0]
            else:
                L[k] = A @ np.diag(rng.normal(size=r)) @ A.T
        elif kind == "banded":
            A = rng.normal(size=(n, n))
            A[np.abs(np.subtract.outer(np.arange(n), np.arange(n))) > bw] = 0
            L[k] = A + A.T
        elif kind == "full":
            A = rng.normal(size=(n, n))
            L[k] = A + A.T
    frac = float(rng.choice([0.1, 0.25, 0.5, 1.0]))
    nw = int(rng.integers(1, 4))
    G = S.cplx(rng, nw, n, n)
    c.desc(n=n, ng=ng, kinds=kinds, frac=frac, nw=nw)
    c.cls(*kinds, f"frac={frac}")
    thr = 1e-12
    blk = T.get_blksize(L, thr)
    nz = [np.abs(np.subtract.outer(np.arange(n), np.arange(n)))[np.abs(x) >= thr] for x in L]
    want = max([int(x.max()) for x in nz if x.size] + [0])
    c.ok(int(blk) == want, "bandwidth", "", got=int(blk), want=want)
    Lk, Gk = L.copy(), G.copy()
    plan, meta = S.quiet(T.build_Ltensor_plan, L, blk, max_rank_fraction=frac)
    for k, p in enumerate(plan):
        r = np.linalg.matrix_rank(L[k], tol=1e-10)
        if p["type"] == "lowrank":
            c.close(p["X"] @ p["Uright"].T, L[k], "low-rank-factors", atol=1e-8)
            c.ok(p["rank"] <= max(1, int(n * frac)) and p["X"].shape[1] == p["rank"], "low-rank-limit")
        c.ok(p["rank"] == r, "plan-rank", "", got=p["rank"], want=int(r))
    e = est.exx_mixed_rank_sparsity(L, G, plan, meta)
    ref = 0.5 * np.einsum("gpq,wqr,grs,wsp->w", L, G, L, G, optimize=True)
    sc = max(1.0, np.abs(L).max() ** 2 * np.abs(G).max() ** 2 * n ** 2)
    c.close(e, ref, "mixed-exchange", atol=1e-9 * sc)
    c.ok(np.array_equal(L, Lk) and np.array_equal(G, Gk), "inputs-untouched")


def thc(c):
    from openms.qmc import tools as T

    rng = c.rng
    n, ng = int(rng.integers(1, 9)), int(rng.integers(1, 12))
    L = _sym(rng.normal(size=(ng, n, n)))
    seed = int(rng.integers(1 << 30))
    Lk = L.copy()
    c.desc(n=n, nchol=ng, seed=seed)
    for method in ("rademacher", "gaussian"):
        ns = int(rng.integers(1, 40))
        st = np.random.get_state()[1].copy()
        X, U = T.stochastic_thc(L, ns, method=method, seed=seed)
        X2, U2 = T.stochastic_thc(L, ns, method=method, seed=seed)
        c.ok(np.array_equal(X, X2) and np.array_equal(U, U2), "seeded-reproducible")
        c.ok(np.array_equal(st, np.random.get_state()[1]), "global-generator-untouched")
        c.ok(X.shape == (ns, n, n) and U.shape == (ng, ns), "stochastic-shapes")
        c.close(X, np.einsum("gpq,gu->upq", L, U), "stochastic-projection", atol=1e-10)
        if method == "rademacher":
            c.close(np.abs(U), np.full(U.shape, 1 / np.sqrt(ns)), "rademacher-magnitude", atol=1e-12)
            # the diagonal resolution of the identity is exact for signs
            c.close(np.einsum("gu,gu->g", U, U), np.ones(ng), "resolution-diagonal", atol=1e-10)
        # E[theta theta^T] = 1: average over many samples
        big = 20000
        _, V = T.stochastic_thc(L, big, method=method, seed=seed + 1)
        c.close(V @ V.T, np.eye(ng), "resolution-of-identity", atol=7 * np.sqrt(2.0 / big))
        c.close(V.sum(1) / np.sqrt(big), np.zeros(ng), "zero-mean", atol=7 / np.sqrt(big))
        c.cls(method)
    r = int(rng.integers(1, n + 1))
    X, U = T.stochastic_thc(L, r, method="svd", seed=seed)
    for k in range(ng):
        s = np.linalg.svd(L[k], compute_uv=False)
        err = np.linalg.norm(X[k] @ U[k].T - L[k], 2)
        c.close(err, s[r] if r < n else 0.0, "svd-best-approximation", atol=1e-8)
    c.cls("svd", f"exact={r == n}")
    c.raises(ValueError, lambda: T.stochastic_thc(L, 2, method="nonsense"), "unknown-method-rejected")
    c.ok(np.array_equal(L, Lk), "inputs-untouched")


def bilinear(c):
    from openms.qmc import tools as T

    rng = c.rng
    nm, n = int(rng.integers(1, 5)), int(rng.integers(1, 6))
    F = _sym(rng.normal(size=(nm, n, n)))
    A = rng.uniform(0.2, 2, nm) * rng.choice([-1, 1], nm)
    B = rng.uniform(0.2, 2, nm)
    off = rng.random(nm) < 0.2
    F[off] = 0
    scheme = int(rng.integers(1, 3))
    Fk, Ak, Bk = F.copy(), A.copy(), B.copy()
    c.desc(nm=nm, n=n, scheme=scheme, off=off)
    c.cls(f"scheme={scheme}", f"modes={nm}")
    e, b = T.bilinear_decomposition(A, B, F, scheme)
    e, b = np.asarray(e), np.asarray(b)
    ns = {1: 3, 2: 2}[scheme]
    c.ok(e.shape == (ns * nm, n, n) and b.shape == (ns * nm,), "field-count")
    # 1/2 sum_k (e_k + b_k X)^2 = A F B X as an operator identity for every mode
    for k in range(nm):
        ek, bk = e[ns * k:ns * k + ns], b[ns * k:ns * k + ns]
        c.close(np.einsum("x,xpq->pq", bk, ek), A[k] * B[k] * F[k], "cross-term", atol=1e-10)
        c.close(0.5 * np.einsum("xpq,xrs->pqrs", ek, ek), np.zeros((n,) * 4), "no-electron-remainder", atol=1e-10)
        c.close(np.sum(bk ** 2), 0.0, "no-boson-remainder", atol=1e-10)
        # the same as operators on a small boson space
        m = int(rng.integers(2, 5))
        X = np.diag(np.sqrt(np.arange(1, m)), 1)
        X = X + X.T
        op = 0.5 * sum(np.linalg.matrix_power(np.kron(x, np.eye(m)) + y * np.kron(np.eye(n), X), 2) for x, y in zip(ek, bk))
        c.close(op, A[k] * B[k] * np.kron(F[k], X), "operator-identity", atol=1e-9)
    c.ok(np.array_equal(F, Fk) and np.array_equal(A, Ak) and np.array_equal(B, Bk), "inputs-untouched")


def kernels(c):
    """all energy kernels against the explicit four-index contraction"""
    from openms.qmc import estimators as est

    rng = c.rng
    n = int(rng.integers(2, 7))
    na, nb = int(rng.integers(1, n + 1)), int(rng.integers(1, n + 1))
    ng, nw = int(rng.integers(1, 9)), int(rng.integers(1, 5))
    r = lambda *s: rng.normal(size=s)
    Ra, Rb = r(ng, n, na), r(ng, n, nb)
    Ga, Gb = S.cplx(rng, nw, n, na), S.cplx(rng, nw, n, nb)
    cplx_l = bool(rng.random() < 0.3)
    if cplx_l:
        Ra, Rb = Ra + 1j * r(ng, n, na), Rb + 1j * r(ng, n, nb)
    c.desc(n=n, na=na, nb=nb, ng=ng, nw=nw, complex=cplx_l)
    c.cls(f"complex={cplx_l}", f"nw={nw}")
    la, lb = np.einsum("gqi,wqi->wg", Ra, Ga), np.einsum("gqi,wqi->wg", Rb, Gb)
    sc = 1 + np.abs(la).max() ** 2 * ng + np.abs(lb).max() ** 2 * ng
    tol = 1e-10 * sc
    c.close(est.ecoul_rltensor_uhf(Ra, Ga, Rb, Gb), 0.5 * ((la + lb) ** 2).sum(1), "coulomb-two-spins", atol=tol)
    c.close(est.ecoul_rltensor_uhf(Ra, Ga), 0.5 * (la ** 2).sum(1), "coulomb-one-spin", atol=tol)
    if hasattr(est, "ecoul_rltensor_Ghalf_numba") and c.index < 12 and not cplx_l:
        Rc, Rd = Ra.astype(complex), Rb.astype(complex)
        c.close(est.ecoul_rltensor_Ghalf_numba(Rc, Ga, Rd, Gb), 0.5 * ((la + lb) ** 2).sum(1), "coulomb-numba", atol=tol)
    f = np.einsum("gqi,wqj->wgij", Ra, Ga)
    x = 0.5 * np.einsum("wgij,wgji->w", f, f)
    sx = 1 + np.abs(f).max() ** 2 * ng * na * na
    if not cplx_l:
        c.close(est.exx_rltensor_Ghalf(Ra, Ga), x, "exchange", atol=1e-10 * sx)
        c.close(est.exx_rltensor_Ghalf_kernel(Ra, Ga), x, "exchange-kernel", atol=1e-10 * sx)
    # spin-resolved estimator from full Green's functions
    L = _sym(r(ng, n, n))
    eri = np.einsum("gpq,grs->pqrs", L, L)
    G = S.cplx(rng, nw, 2, n, n)
    h = _sym(r(2, n, n))
    e1 = np.einsum("wspq,spq->w", G, h)
    T = G.sum(1)
    ej = 0.5 * np.einsum("prqs,wpr,wqs->w", eri, T, T, optimize=True)
    ek = 0.5 * np.einsum("prqs,wxps,wxqr->w", eri, G, G, optimize=True)
    s2 = 1 + np.abs(eri).max() * np.abs(T).max() ** 2 * n ** 2
    c.close(est.local_eng_elec(h, eri, G), e1 + ej - ek, "spin-resolved-estimator", atol=1e-9 * s2)


FAMILIES = [
    Family("mixed", mixed, 150, 3000, chunk=25, monitors=["bandwidth", "low-rank-factors", "mixed-exchange", "plan-rank", "inputs-untouched"]),
    Family("stochastic", thc, 24, 300, chunk=6, monitors=["seeded-reproducible", "stochastic-projection", "resolution-of-identity", "zero-mean",
                                                          "svd-best-approximation", "rademacher-magnitude"]),
    Family("bilinear", bilinear, 200, 4000, chunk=50, monitors=["cross-term", "operator-identity", "no-electron-remainder"]),
    Family("kernels", kernels, 60, 1000, chunk=60, monitors=["coulomb-two-spins", "coulomb-one-spin", "coulomb-numba", "exchange",
                                                             "exchange-kernel", "spin-resolved-estimator"]),
]
