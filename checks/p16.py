"""P16 a propagation step applies exactly the operators of the Hamiltonian."""
import math
import numpy as np
import scipy.linalg as sl
from harness.vp import Family, Skip
from harness import systems as S, oracles as O, qmcsys as Q

ASSUMPTIONS = ["real symmetric one- and two-body factors; at most 5 orbitals where many-electron operators are compared"]
S.plain_kernels()
BUDGET = {"quick": 300, "thorough": 1800}
_jit = {}


def taylor(A, x, order):
    out, t = x.copy(), x
    for k in range(order):
        t = A @ t / (k + 1)
        out = out + t
    return out


def kernels(c):
    """the elementary kernels, compiled and plain"""
    import openms.qmc.propagators as P

    if "P" not in _jit:
        _jit["P"] = S.fresh("openms.qmc.propagators")
    J = _jit["P"]
    rng = c.rng
    n, m, nw = int(rng.integers(1, 7)), int(rng.integers(1, 5)), int(rng.integers(1, 6))
    m = min(m, n)
    order = int(rng.integers(0, 9))
    view = bool(rng.random() < 0.5)

    def walkers():
        full = S.cplx(rng, nw, n, m + 2)
        return (full, full[:, :, 1:m + 1]) if view else (full, np.ascontiguousarray(full[:, :, :m]))
    c.desc(n=n, m=m, nw=nw, order=order, view=view)
    c.cls(f"view={view}", f"order={order}")
    B = S.cplx(rng, n, n)
    A = S.cplx(rng, nw, n, n) * 0.5
    names = [("plain", P.propagate_onebody, P.propagate_exp_op)]
    if hasattr(J, "propagate_onebody_numba") and c.index % 3 == 0:
        names.append(("compiled", J.propagate_onebody_numba, J.propagate_exp_op_numba))
    names.append(("selected", P.propagate_onebody_kernel, P.propagate_HS_kernel))
    for tag, one, ex in names:
        full, w = walkers()
        w0 = w.copy()
        Bk = B.copy()
        r = one(B, w)
        c.close(r, np.einsum("pq,wqi->wpi", B, w0), f"{tag}-one-body", atol=1e-11 * n * 10)
        full, w = walkers()
        w0, f0 = w.copy(), full.copy()
        r = ex(w, A, order)
        ref = np.array([taylor(A[i], w0[i], order) for i in range(nw)])
        c.close(w, ref, f"{tag}-exponential-in-place", atol=1e-9 * (1 + np.abs(ref).max()))
        c.close(r, ref, f"{tag}-exponential", atol=1e-9 * (1 + np.abs(ref).max()))
        if view:
            c.ok(np.array_equal(full[:, :, 0], f0[:, :, 0]) and np.array_equal(full[:, :, m + 1], f0[:, :, m + 1]), "neighbours-untouched")
        c.ok(np.array_equal(B, Bk), "operator-untouched")
    ng = int(rng.integers(1, 8))
    L = np.array([S.herm(rng, n) for _ in range(ng)])
    x = S.cplx(rng, nw, ng)
    f = complex(rng.normal(), rng.normal())
    ref = f * np.einsum("wg,gpq->wpq", x, L)
    c.close(P.build_HS(x, L, f), ref, "field-operator", atol=1e-11 * ng * 10)
    if hasattr(J, "tensor_dot_numba") and c.index % 3 == 0:
        c.close(J.tensor_dot_numba(x, L.astype(complex), f), ref, "field-operator-compiled", atol=1e-11 * ng * 10)
    G, psi = S.cplx(rng, nw, n, m), S.cplx(rng, n, m)
    ref = np.einsum("wqi,pi->wpq", G, psi)
    c.close(P.compute_GF_base(G, psi), ref, "green-expansion", atol=1e-11)
    if c.index % 3 == 0:
        c.close(J.compute_GF_base(G, psi), ref, "green-expansion-compiled", atol=1e-11)


def setup(rng, cap=5, real=None):
    from openms.qmc.propagators import Phaseless

    nao, na, nb, ncomp = Q.shape_draw(rng)
    nao = min(nao, cap)
    na, nb = min(na, nao), min(nb, nao)
    if ncomp == 1:
        na = nb = min(na, max(nao - 1, 1))
    t = Q.rand_trial(rng, nao, na, nb, ncomp, real=real)
    ng = int(rng.integers(1, 5))
    L, eri = S.sym_eri(rng, nao, ng, scale=float(rng.choice([0.1, 0.3, 0.6])))
    h = S.herm(rng, nao)
    hs = np.array([h] * ncomp)
    if ncomp == 2 and rng.random() < 0.4:
        hs = np.array([h, S.herm(rng, nao)])
    dt = float(10.0 ** rng.uniform(-3, -1))
    nw = int(rng.integers(1, 5))
    w = Q.rand_walkers(rng, t, nw)
    p = Phaseless(dt=dt, energy_scheme="hybrid")
    p.verbose = 0
    t.half_rotate_integrals(hs, L)
    return nao, na, nb, ncomp, t, L, eri, hs, dt, nw, w, p


def dense(e, f):
    """matrix of a linear map on the CI space"""
    M = np.zeros((e.dim, e.dim), dtype=complex)
    for j in range(e.dim):
        x = np.zeros(e.dim)
        x[j] = 1
        M[:, j] = np.asarray(f(x.reshape(e.shape))).ravel()
    return M


def hamiltonian(c):
    """one-body propagator plus squared shifted fields are the Hamiltonian"""
    rng = c.rng
    nao, na, nb, ncomp, t, L, eri, hs, dt, nw, w, p = setup(rng, cap=4)
    if na + nb == 2 * nao:
        raise Skip()
    c.desc(nao=nao, na=na, nb=nb, ncomp=ncomp, ng=len(L), dt=dt)
    c.cls(f"ncomp={ncomp}", f"pol={na - nb}", f"spin-dependent={ncomp == 2 and not np.array_equal(hs[0], hs[1])}")
    hk, Lk = hs.copy(), L.copy()
    p.build(hs, L, t)
    c.ok(np.array_equal(hs, hk) and np.array_equal(L, Lk), "integrals-untouched")
    e = O.Electrons(nao, na, nb)
    z4 = np.zeros_like(eri)
    T = np.asarray(p.shifted_h1e)
    Ta, Tb = T[0], T[-1]
    H = dense(e, lambda x: e.H_ci(hs[0], eri, x, hb=hs[-1]))
    one = dense(e, lambda x: e.H_ci(Ta, z4, x, hb=Tb))
    rho = t.psia @ t.psia.conj().T + (t.psib @ t.psib.conj().T if ncomp > 1 else t.psia @ t.psia.conj().T)
    l = np.einsum("gpq,pq->g", L, rho)
    c.close(np.asarray(p.mf_shift), 1j * l, "mean-field-shift", atol=1e-9)
    tot = one.copy()
    for k in range(len(L)):
        Lk = dense(e, lambda x: e.one_ci(L[k], x)) - l[k] * np.eye(e.dim)
        tot = tot + 0.5 * Lk @ Lk - 0.5 * l[k] ** 2 * np.eye(e.dim)
    c.close(tot, H, "hamiltonian-identity", atol=1e-8 * (1 + np.abs(H).max()))
    for s in range(T.shape[0]):
        c.close(np.asarray(p.exp_h1e)[s], sl.expm(-dt / 2 * T[s]), "one-body-exponential", atol=1e-10)
    # the walkers: determinants transformed by the exponential
    pa, pb = w.phiwa.copy(), (w.phiwb.copy() if ncomp > 1 else None)
    p.propagate_walkers_onebody(w)
    c.close(w.phiwa, np.einsum("pq,wqi->wpi", sl.expm(-dt / 2 * Ta), pa), "one-body-step", atol=1e-9)
    if ncomp > 1:
        c.close(w.phiwb, np.einsum("pq,wqi->wpi", sl.expm(-dt / 2 * Tb), pb), "one-body-step", atol=1e-9)
    # fields
    x = S.cplx(rng, nw, len(L))
    pa, pb = w.phiwa.copy(), (w.phiwb.copy() if ncomp > 1 else None)
    p.propagate_HS(w, L, x)
    err = 0.0
    for i in range(nw):
        A = 1j * np.sqrt(dt) * np.einsum("g,gpq->pq", x[i], L)
        nrm = np.linalg.norm(A, 2)
        bound = nrm ** 7 / math.factorial(7) * np.exp(nrm) * np.linalg.norm(pa[i]) * 1.01 + 1e-9
        c.ok(np.linalg.norm(w.phiwa[i] - sl.expm(A) @ pa[i]) <= bound, "field-step", "", bound=bound)
        if ncomp > 1:
            bound = nrm ** 7 / math.factorial(7) * np.exp(nrm) * np.linalg.norm(pb[i]) * 1.01 + 1e-9
            c.ok(np.linalg.norm(w.phiwb[i] - sl.expm(A) @ pb[i]) <= bound, "field-step", "", bound=bound)
    c.events += nw
    # the same propagator set up for another Hamiltonian and time step
    h2 = hs + np.array([(lambda a: a + a.T)(rng.normal(size=(nao, nao)) * 0.3)] * len(hs))
    L2, dt2 = L * rng.uniform(0.3, 1.5, (len(L), 1, 1)), float(dt * rng.uniform(0.2, 3))
    p.dt = dt2
    p.build(h2, L2, t)
    l2 = np.einsum("gpq,pq->g", L2, rho)
    c.close(np.asarray(p.mf_shift), 1j * l2, "built-again", atol=1e-9, msg="mean-field shift")
    T0 = h2 - 0.5 * np.einsum("gpr,grq->pq", L2, L2) + np.einsum("g,gpq->pq", l2, L2)
    for s in range(len(h2)):
        c.close(np.asarray(p.exp_h1e)[s], sl.expm(-dt2 / 2 * T0[s]), "built-again", atol=1e-9 * (1 + np.abs(T0).max()))


def bosons(c):
    """free and mean-field-coupled boson evolution, effective one-body operator"""
    rng = c.rng
    name = str(rng.choice(["H2", "HeH+", "H3+", "H3"]))
    nm = int(rng.integers(1, 4))
    off = bool(rng.random() < 0.2)
    nw = int(rng.integers(1, 4))
    dt = float(10.0 ** rng.uniform(-3, -1))
    q, m, mf, om, vec, bs = Q.afqmc(rng, name, nm, uhf=bool(rng.random() < 0.5), nw=nw, gmax=0.6, dt=dt, opts={"turnoff_bosons": off})
    c.desc(mol=name, modes=nm, bs=bs, dt=dt, off=off, nw=nw)
    c.cls(name, f"modes={nm}", f"off={off}")
    t, w, p = q.trial, Q.scramble(rng, q), q.propagator
    if not Q.cond_ok(t, w):
        raise Skip()
    Hb, X = Q.boson_blocks(bs, om)
    b0 = w.boson_phiw.copy()
    tau = float(rng.uniform(0.1, 1) * dt)
    p.propagate_bosons(t, w, tau)
    c.close(w.boson_phiw, b0 @ sl.expm(-tau * Hb).T, "free-bosons", atol=1e-10)
    # density and displacement of the walker ensemble, step after step with the same propagator: the bosons of an ensemble
    # may be in any state, also in number states without displacement
    mf_boson = w.boson_phiw.shape[1]
    for rep, kind in enumerate(["any"] + [str(x) for x in rng.choice(["any", "number", "weights"], 3)]):
        w.weights = rng.uniform(0.2, 2, nw)
        if kind == "number":
            b = np.zeros((nw, mf_boson), dtype=complex)
            b[np.arange(nw), rng.integers(0, mf_boson, nw)] = np.exp(2j * np.pi * rng.random(nw))
            w.boson_phiw = b
        elif kind == "any" and rep:
            w.boson_phiw = S.cplx(rng, nw, mf_boson)
        w.boson_phiw = w.boson_phiw / np.linalg.norm(w.boson_phiw, axis=1)[:, None]
        c.cls(f"history:{kind}")
        t.ovlp_with_walkers_gf(w)
        p.update_GF(t, w)
        G = []
        for i in range(nw):
            g = (w.phiwa[i] @ np.linalg.inv(t.psia.conj().T @ w.phiwa[i]) @ t.psia.conj().T).T
            g = g + ((w.phiwb[i] @ np.linalg.inv(t.psib.conj().T @ w.phiwb[i]) @ t.psib.conj().T).T if t.ncomponents > 1 else g)
            G.append(g)
        rho = np.einsum("w,wpq->pq", w.weights, np.array(G)) / w.weights.sum()
        c.close(w.rho, rho, "ensemble-density", atol=1e-8 * (1 + np.abs(rho).max()))
        z = np.einsum("kpq,pq->k", q.geb, rho)
        b0 = w.boson_phiw.copy()
        if not off:
            p.propagate_bosons_bilinear(t, w, dt)
            c.close(w.boson_phiw, b0 @ sl.expm(-dt * sum(a * x for a, x in zip(z, X))).T, "coupled-bosons", atol=1e-8)
        Qa = np.array([np.sum(w.weights * np.einsum("wi,ij,wj->w", b0.conj(), x, b0)) / w.weights.sum() for x in X])
        pa = w.phiwa.copy()
        p.propagate_walkers_onebody(w)
        T = np.asarray(p.shifted_h1e)[0] + (0 if off else np.einsum("k,kpq->pq", Qa, q.geb))
        c.close(w.phiwa, np.einsum("pq,wqi->wpi", sl.expm(-dt / 2 * T), pa), "one-body-with-coupling", atol=1e-9 * (1 + np.abs(pa).max()))
    

FAMILIES = [
    Family("kernels", kernels, 90, 1500, chunk=90,
           monitors=["plain-one-body", "plain-exponential", "compiled-one-body", "compiled-exponential-in-place", "selected-exponential-in-place",
                     "field-operator", "green-expansion", "neighbours-untouched"]),
    Family("hamiltonian", hamiltonian, 160, 2000, chunk=20,
           monitors=["hamiltonian-identity", "mean-field-shift", "one-body-exponential", "one-body-step", "field-step", "integrals-untouched", "built-again"]),
    Family("bosons", bosons, 80, 800, chunk=10, monitors=["free-bosons", "coupled-bosons", "ensemble-density", "one-body-with-coupling"]),
]
