"""P35 subspace (Davidson) eigensolver: Ritz bounds at every cycle, honest convergence, lowest eigenpairs."""
import contextlib
import io
import numpy as np
import scipy.linalg as sl
from harness import vp
from harness.vp import Family, Skip
from harness import systems as S

ASSUMPTIONS = ["'lowest eigenpairs' is judged for starting vectors whose Ritz values lie below the first level not asked for",
               "the residual norm of what is flagged converged is compared with twice the square root of the energy tolerance"]
BUDGET = {"quick": 300, "thorough": 1500}


def mod():
    from openms.solvers import linalg
    return linalg


def matrix(rng, n, kind=None):
    """Hermitian matrices: dense, diagonally dominant, sparse blocks, complex"""
    cplx = rng.random() < 0.35
    A = rng.normal(size=(n, n)) + (1j * rng.normal(size=(n, n)) if cplx else 0)
    A = (A + A.conj().T) / 2
    kind = kind or ["dense", "dominant", "spread"][rng.integers(0, 3)]
    if kind == "dominant":
        A = 0.15 * A + np.diag(np.sort(rng.normal(size=n) * 3))
    elif kind == "spread":
        A = A / n + np.diag(np.cumsum(rng.random(n) * 2))
    return A, kind, cplx


def vecs(rng, n, k, cplx):
    return [rng.normal(size=n) + (1j * rng.normal(size=n) if cplx else 0) for _ in range(k)]


def solve(lin, f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return f(*a, verbose=0, **k)


def lowest(c):
    lin, rng = mod(), c.rng
    n = int(rng.integers(2, 60))
    A, kind, cplx = matrix(rng, n)
    w, V = np.linalg.eigh(A)
    nroots = int(rng.integers(1, min(5, n) + 1))
    if nroots < n and w[nroots] - w[nroots - 1] < 0.02:
        raise Skip()
    nx = int(rng.integers(1, nroots + 3))
    x0 = vecs(rng, n, nx, cplx)
    if rng.random() < 0.7:
        nx = max(nx, nroots)
        eps = 10.0 ** -rng.uniform(0.3, 2)
        mix = rng.normal(size=(nx, nroots))
        x0 = [V[:, :nroots] @ mix[k] + eps * v / np.sqrt(n) for k, v in enumerate(vecs(rng, n, nx, cplx))]
    dep = nx > 1 and rng.random() < 0.25
    if dep:
        x0[-1] = x0[0] * 2 - (x0[1] if nx > 2 else 0)
    kw = dict(nroots=nroots, tol=10.0 ** -rng.integers(10, 14), max_cycle=400, max_space=int(rng.integers(6, 25)),
              follow_state=bool(rng.random() < 0.3), lessio=bool(rng.random() < 0.4))
    if rng.random() < 0.4:
        kw["max_memory"] = 0
    diag = np.diag(A).real.copy()
    form = ["diagonal", "function", "none"][rng.integers(0, 3)]
    pre = {"diagonal": diag, "function": lambda dx, e, x: dx / np.where(abs(diag - e) < 1e-2, 1e-2, diag - e), "none": lambda dx, e, x: dx.copy()}[form]
    api = ["davidson", "davidson1"][rng.integers(0, 2)]
    if api == "davidson1" and rng.random() < 0.3:
        kw["tol_residual"] = 1e-5
    if api == "davidson1" and rng.random() < 0.3 and hasattr(lin, "_fill_heff"):
        kw["fill_heff"] = lin._fill_heff
    c.desc(n=n, kind=kind, complex=cplx, nx=nx, dependent=dep, precond=form, api=api, tr=float(np.trace(A).real), **{k: str(v) for k, v in kw.items()})
    c.cls(kind, form, api, f"{nroots} roots", "complex" if cplx else "real", "on disk" if kw.get("max_memory") == 0 else "in memory")
    keep = [x.copy() for x in x0]
    Q, R, _ = sl.qr(np.array(x0).T, mode="economic", pivoting=True)
    Q = Q[:, abs(np.diag(R)) > 1e-6 * abs(R[0, 0])]
    ritz = np.linalg.eigvalsh(Q.conj().T @ A @ Q)
    # bounds never rise: from here only the lowest eigenpairs can be reached
    certain = len(ritz) >= nroots and (nroots == n or ritz[nroots - 1] < w[nroots] - 1e-9) and not kw["follow_state"]
    c.cls("start below the next level" if certain else "generic start")
    calls = dict(n=0, bad=0)
    trace = []

    def watch(env):
        e = env.get("e")
        if isinstance(e, np.ndarray):
            trace.append(e.copy())

    def op(x):
        calls["n"] += 1
        y = np.asarray(x)
        calls["bad"] += int(y.shape != (n,))
        return A @ y
    start = x0 if nx > 1 else (x0[0] if rng.random() < 0.5 else x0)
    if rng.random() < 0.2 and api == "davidson1":
        lazy = start
        start = lambda: lazy
    if api == "davidson":
        e, x = solve(lin, lin.davidson, op, start, pre, callback=watch, **kw)
        if nroots == 1:
            c.ok(np.ndim(e) == 0 and np.shape(x) == (n,), "result-shape", f"one root is a number and a vector, got {np.shape(e)} {np.shape(x)}")
            e, x = np.array([e]), [x]
        conv = None
    else:
        conv, e, x = solve(lin, lin.davidson1, lambda xs: [op(v) for v in xs], start, pre, callback=watch, **kw)
    e, x = np.asarray(e), np.asarray(x)
    c.events += calls["n"] + len(trace)
    if kw["follow_state"] and (len(e) != len(x) or (conv is not None and not all(np.asarray(conv)))):
        return  # restored to an earlier state, flagged as such
    c.ok(x.shape == (len(e), n) and len(e) <= nroots, "result-shape", f"{e.shape} {x.shape} for {nroots} roots")
    c.ok(all(np.array_equal(a, b) for a, b in zip(x0, keep)) and np.array_equal(diag, np.diag(A).real), "inputs-untouched", "starting vectors or diagonal changed")
    c.ok(calls["bad"] == 0, "result-shape", "operator was applied to something of another shape")
    sc = max(1.0, np.abs(w).max())
    for t in trace + [e]:
        c.ok((t >= w[:len(t)] - 1e-9 * sc).all(), "upper-bounds", f"Ritz values {t} below {w[:len(t)]}")
    for a, b in zip(trace, trace[1:]):
        m = min(len(a), len(b))
        if not kw["follow_state"]:
            c.ok((b[:m] <= a[:m] + 1e-9 * sc).all(), "bounds-improve", f"{a} -> {b}")
    r = np.linalg.norm(x @ A.T - e[:, None] * x, axis=1)
    bound = 2 * kw.get("tol_residual", np.sqrt(kw["tol"]))
    if (kw["follow_state"] or form == "none") and r.max() > bound:
        if conv is not None:
            c.ok(not all(np.asarray(conv)), "flagged-converged-is-eigenpair", f"residuals {r} flags {conv}")
        return
    c.close(x.conj() @ x.T, np.eye(len(e)), "orthonormal", atol=1e-7, rtol=0)
    c.close(np.einsum("ki,ij,kj->k", x.conj(), A, x), e, "value-of-vector", atol=1e-8 * sc, rtol=0)
    if conv is not None:
        c.ok(len(conv) == len(e), "result-shape", f"{conv} for {len(e)} values")
        c.ok((r[np.asarray(conv)] <= bound + 1e-9 * sc).all(), "flagged-converged-is-eigenpair", f"residuals {r} flags {conv}")
    c.ok(len(e) == nroots and (r <= bound + 1e-9 * sc).all() and (conv is None or all(np.asarray(conv))), "eigenpairs-found",
         f"{len(e)} of {nroots}, residuals {r}, flags {conv}")
    if certain:
        c.close(e, w[:nroots], "lowest-eigenpairs", atol=max(1e-9, bound ** 2 / 0.02) * sc, rtol=0)


def krylov(c):
    """without preconditioning and restart, k cycles give the exact Ritz values of the block Krylov space"""
    lin, rng = mod(), c.rng
    n = int(rng.integers(8, 40))
    A, kind, cplx = matrix(rng, n)
    k = int(rng.integers(1, 6))
    x0 = vecs(rng, n, 1, cplx)
    outside = bool(rng.random() < 0.4)
    kw = dict(max_space=30, max_cycle=k, tol=1e-14)
    if outside:
        kw.update(max_memory=0, lessio=bool(rng.random() < 0.5))
    c.desc(n=n, k=k, kind=kind, outside=outside, tr=float(np.trace(A).real))
    c.cls(kind, f"{k} cycles", "complex" if cplx else "real")
    conv, e, x = solve(lin, lin.davidson1, lambda xs: [A @ np.asarray(v) for v in xs], x0, lambda dx, e, x: dx.copy(), **kw)
    K = [x0[0]]
    for _ in range(k - 1):
        Q = sl.qr(np.array(K).T, mode="economic")[0]
        K = list(Q.T) + [A @ Q[:, -1]]
    Q = sl.qr(np.array(K).T, mode="economic")[0]
    w, v = np.linalg.eigh(Q.conj().T @ A @ Q)
    c.events += k
    sc = max(1, np.abs(A).max())
    c.close(e[0], w[0], "krylov-ritz-value", atol=1e-7 * sc, rtol=0)
    r = np.linalg.norm(A @ x[0] - e[0] * x[0])
    c.ok(bool(np.asarray(conv)[0]) == bool(r < 1e-7) or r < 1e-5, "unconverged-is-flagged", f"residual {r:.2e} flag {conv}")


def subspace(c):
    """one cycle is the Rayleigh-Ritz problem of the starting vectors; solutions found before are kept"""
    lin, rng = mod(), c.rng
    n = int(rng.integers(2, 30))
    A, kind, cplx = matrix(rng, n)
    k = int(rng.integers(1, min(n, 7) + 1))
    nroots = int(rng.integers(1, k + 1))
    mode = ["ritz", "eigenvectors", "zero", "whole"][c.index % 4]
    c.desc(n=n, k=k, nroots=nroots, mode=mode, tr=float(np.trace(A).real))
    c.cls(mode, kind)
    aop = lambda xs: [A @ np.asarray(v) for v in xs]
    w, V = np.linalg.eigh(A)
    diag = np.diag(A).real
    sc = max(1, np.abs(w).max())
    if mode == "ritz":
        x0 = vecs(rng, n, k, cplx)
        conv, e, x = solve(lin, lin.davidson1, aop, x0, diag, nroots=nroots, max_cycle=1, max_space=12)
        Q = sl.qr(np.array(x0).T, mode="economic")[0]
        c.close(e, np.linalg.eigvalsh(Q.conj().T @ A @ Q)[:nroots], "ritz-of-start", atol=1e-9 * sc, rtol=0)
        c.close(np.asarray(x) @ Q.conj() @ Q.T, x, "ritz-of-start", atol=1e-7, rtol=0)
    elif mode == "eigenvectors":
        sel = rng.permutation(n)[:nroots]
        conv, e, x = solve(lin, lin.davidson1, aop, [V[:, i] * (1 + rng.random()) for i in sel], lambda dx, e, x: dx, nroots=nroots, max_cycle=30)
        c.close(e, np.sort(w[sel]), "ritz-of-start", atol=1e-8 * sc, rtol=0)
        c.ok(all(np.asarray(conv)), "flagged-converged-is-eigenpair", "exact eigenvectors are not recognised")
    elif mode == "zero":
        c.raises(Exception, lambda: solve(lin, lin.davidson1, aop, [np.zeros(n)], diag, nroots=1), "empty-start-refused")
    else:
        x0 = vecs(rng, n, n, cplx)
        nr = int(rng.integers(1, n + 1))
        conv, e, x = solve(lin, lin.davidson1, aop, x0, diag, nroots=nr, max_space=n + 8)
        c.close(e, w[:nr], "ritz-of-start", atol=1e-8 * sc, rtol=0)
    c.events += 1
    if mode != "zero":
        c.close(np.asarray(x).conj() @ np.asarray(x).T, np.eye(len(e)), "orthonormal", atol=1e-7, rtol=0)


def selection(c):
    """a filter picks the states; weighted inner products give the generalised problem; diagonal preconditioner"""
    lin, rng = mod(), c.rng
    n = int(rng.integers(5, 40))
    A, kind, cplx = matrix(rng, n, "spread")
    mode = ["pick", "metric", "precond"][c.index % 3]
    nroots = int(rng.integers(1, 4))
    c.desc(n=n, mode=mode, nroots=nroots, tr=float(np.trace(A).real))
    c.cls(mode)
    diag = np.diag(A).real.copy()
    sc = max(1, np.abs(A).max())
    if mode == "pick":
        w = np.linalg.eigvalsh(A)
        i = int(rng.integers(0, n - nroots))
        cut = (w[i] + w[i - 1]) / 2 if i else w[0] - 1
        if (i and w[i] - w[i - 1] < 0.1) or w[i + nroots] - w[i + nroots - 1] < 0.1:
            raise Skip()
        seen = []

        def pick(ww, vv, nr, env):
            idx = np.where(ww > cut)[0]
            if not len(idx):
                idx = np.array([len(ww) - 1])
            seen.append(len(ww))
            return ww[idx], vv[:, idx], idx
        conv, e, x = solve(lin, lin.davidson1, lambda xs: [A @ np.asarray(v) for v in xs], vecs(rng, n, n, cplx), diag, nroots=nroots, pick=pick, max_cycle=200, max_space=n + 10)
        c.ok(len(seen) > 0, "filter-decides", "the filter was never asked")
        c.close(e, w[i:i + nroots], "filter-decides", atol=1e-7 * sc, rtol=0)
        c.events += len(seen)
    elif mode == "metric":
        B = rng.normal(size=(n, n)) + (1j * rng.normal(size=(n, n)) if cplx else 0)
        W = B @ B.conj().T / n + np.eye(n)
        w = sl.eigvalsh(A, W)
        if nroots < n and w[nroots] - w[nroots - 1] < 0.02:
            raise Skip()
        H = np.linalg.solve(W, A)
        conv, e, x = solve(lin, lin.davidson1, lambda xs: [H @ np.asarray(v) for v in xs], vecs(rng, n, nroots, cplx), lambda dx, e, x: dx.copy(),
                           nroots=nroots, dot=lambda a, b: a @ W @ b, max_cycle=500, max_space=20)
        c.close(e, w[:nroots], "weighted-inner-product", atol=1e-6 * sc, rtol=0)
        x = np.asarray(x)
        c.close(x.conj() @ W @ x.T, np.eye(nroots), "weighted-inner-product", atol=1e-6, rtol=0)
        c.events += 1
    else:
        shift = float(rng.random() * 0.01)
        p = lin.make_diag_precond(diag, level_shift=shift)
        e = float(diag[rng.integers(0, n)] - (0 if rng.random() < 0.5 else rng.normal()))
        if rng.random() < 0.5:
            e += shift
        keep, dx = diag.copy(), rng.normal(size=n)
        d0 = dx.copy()
        got = p(dx, e, None)
        den = keep - (e - shift)
        big = abs(den) > 1e-7
        c.close(np.asarray(got)[big], (d0 / den)[big], "diagonal-preconditioner", atol=0, rtol=1e-9)
        c.ok(np.isfinite(got).all(), "diagonal-preconditioner", "not finite on resonance")
        c.ok(np.array_equal(diag, keep), "inputs-untouched", "the diagonal was changed")
        c.events += 1


FAMILIES = [
    Family("lowest", lowest, 160, 4000, monitors=["result-shape", "inputs-untouched", "upper-bounds", "bounds-improve", "orthonormal", "value-of-vector", "flagged-converged-is-eigenpair", "eigenpairs-found", "lowest-eigenpairs"], chunk=10),
    Family("krylov", krylov, 80, 2000, monitors=["krylov-ritz-value", "unconverged-is-flagged"], chunk=10),
    Family("subspace", subspace, 80, 2000, monitors=["ritz-of-start", "orthonormal", "flagged-converged-is-eigenpair", "empty-start-refused"], chunk=10),
    Family("selection", selection, 60, 1500, monitors=["filter-decides", "weighted-inner-product", "diagonal-preconditioner", "inputs-untouched"], chunk=10),
]
