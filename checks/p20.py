"""P20 re-orthogonalisation changes the representation of the walkers, not their physical state."""
import numpy as np
from harness.vp import Family, Skip
from harness import systems as S, qmcsys as Q

ASSUMPTIONS = ["whole-run comparisons use bare electrons or switched-off bosons, where the normalisation of the bosonic part plays no role"]
S.plain_kernels()
BUDGET = {"quick": 300, "thorough": 1800}


def factors(c):
    from openms.qmc import qmc

    rng = c.rng
    nw, n = int(rng.integers(1, 6)), int(rng.integers(1, 9))
    m = int(rng.integers(1, n + 1))
    A = rng.normal(size=(nw, n, m)) if rng.random() < 0.3 else S.cplx(rng, nw, n, m)
    A = A * 10.0 ** rng.uniform(-3, 3)
    c.desc(nw=nw, n=n, m=m, cplx=np.iscomplexobj(A))
    c.cls(f"n={n}", f"m={m}", "complex" if np.iscomplexobj(A) else "real")
    if max(np.linalg.cond(a) for a in A) > 1e6:
        raise Skip()
    A0 = A.copy()
    one = [qmc.qr_ortho(a) for a in A]
    Qb, lb = qmc.qr_ortho_batch(A)
    for i in range(nw):
        for tag, (q, ld) in (("single", one[i]), ("batch", (Qb[i], lb[i]))):
            c.close(q.conj().T @ q, np.eye(m), f"{tag}-orthonormal", atol=1e-10)
            c.close(q @ (q.conj().T @ A0[i]), A0[i], f"{tag}-same-span", atol=1e-9 * np.abs(A0[i]).max())
            vol = 0.5 * np.linalg.slogdet(A0[i].conj().T @ A0[i])[1]
            c.close(ld, vol, f"{tag}-log-volume", atol=1e-8 * (1 + abs(vol)))
    c.ok(np.array_equal(A, A0), "input-untouched")
    c.events += nw


def proj(x):
    q, _ = np.linalg.qr(x)
    return q @ q.conj().T


def spins(t, w, i):
    return w.phiwa[i], (w.phiwb[i] if t.ncomponents > 1 else w.phiwa[i])


def ov(t, w, i):
    a, b = spins(t, w, i)
    return np.linalg.det(t.psia.conj().T @ a) * np.linalg.det((t.psib if t.ncomponents > 1 else t.psia).conj().T @ b)


def state(c):
    rng = c.rng
    name = str(rng.choice(["H2", "HeH+", "H3+", "H3", "H4"]))
    nm = int(rng.choice([0, 1, 2, 3]))
    uhf = bool(rng.random() < 0.5)
    nw = int(rng.integers(1, 6))
    q, m, mf, om, vec, bs = Q.afqmc(rng, name, nm, uhf=uhf, nw=nw, gmax=0.4)
    c.desc(mol=name, modes=nm, bs=bs, uhf=uhf, nw=nw)
    c.cls(name, f"modes={nm}", f"uhf={uhf or m.spin}")
    t, w, p = q.trial, Q.scramble(rng, q), q.propagator
    if not Q.cond_ok(t, w, 100) or (nm and np.abs(w.boson_phiw @ t.boson_psi.conj()).min() < 0.02):
        raise Skip()
    w.weights = rng.uniform(0.1, 2, nw)
    w.ehybrid = S.cplx(rng, nw)
    keep = w.weights.copy(), w.ehybrid.copy()
    w.ovlp = np.array([ov(t, w, i) for i in range(nw)])
    o0 = w.ovlp.copy()
    P0 = [[proj(x) for x in spins(t, w, i)] for i in range(nw)]
    V0 = np.array([sum(0.5 * np.linalg.slogdet(x.conj().T @ x)[1] for x in (spins(t, w, i) if t.ncomponents > 1 else spins(t, w, i)[:1])) for i in range(nw)])
    b0 = None if w.boson_phiw is None else w.boson_phiw.copy()
    q.propagator.build(q.h1e, q.ltensor, t, q.geb)
    if nm == 0:
        p.local_energy(q.h1e, q.ltensor, w, t, enuc=q.nuc_energy)
        e0 = np.array(w.eloc)
    l0 = np.array(w.log_detR)
    q.orthogonalization()
    for i in range(nw):
        for s, x in enumerate(spins(t, w, i)):
            c.close(x.conj().T @ x, np.eye(x.shape[1]), "orthonormal-orbitals", atol=1e-10)
            c.close(proj(x), P0[i][s], "same-determinant", atol=1e-8)
        c.close(np.abs(w.detR[i]), np.exp(V0[i]), "recorded-volume", rtol=1e-8, atol=0)
        c.close(np.real(w.log_detR[i] - l0[i]), V0[i], "accumulated-log-volume", atol=1e-8)
        f = np.exp(V0[i] * (1 if t.ncomponents > 1 else 2))
        c.close(abs(ov(t, w, i)) * f, abs(o0[i]), "overlap-modulus", rtol=1e-7, atol=0)
        if t.ncomponents > 1:
            c.close(abs(w.ovlp[i]), abs(ov(t, w, i)), "recorded-overlap-modulus", rtol=1e-7, atol=0)
        if b0 is not None:
            nb = np.linalg.norm(b0[i])
            c.close(np.linalg.norm(w.boson_phiw[i]), 1.0, "boson-normalised", atol=1e-10)
            c.close(np.outer(w.boson_phiw[i], w.boson_phiw[i].conj()), np.outer(b0[i], b0[i].conj()) / nb ** 2, "same-boson-state", atol=1e-9)
    c.ok(np.array_equal(w.weights, keep[0]) and np.array_equal(w.ehybrid, keep[1]), "weights-untouched")
    if nm == 0:
        p.local_energy(q.h1e, q.ltensor, w, t, enuc=q.nuc_energy)
        c.close(np.array(w.eloc), e0, "local-energy-kept", atol=1e-7 * (1 + np.abs(e0).max()))
    c.events += nw


def frequency(c):
    """the energies of a seeded run do not depend on how often the walkers are re-orthogonalised"""
    rng = c.rng
    name = str(rng.choice(["H2", "HeH+", "H3+", "H3", "H4"]))
    nm = int(rng.choice([0, 0, 1]))
    opts = {"turnoff_bosons": True} if nm else {}
    uhf = bool(rng.random() < 0.5)
    nw, seed, nst = int(rng.integers(3, 10)), int(rng.integers(1, 10 ** 6)), int(rng.integers(8, 25))
    dt = float(rng.choice([0.005, 0.02]))
    kw = dict(nw=nw, dt=dt, total_time=nst * dt, random_seed=seed, property_calc_freq=int(rng.integers(1, 4)), pop_control_freq=int(rng.integers(2, 7)),
              taylor_order=10, uhf=uhf, opts=opts)
    state_ = rng.bit_generator.state
    fr = [int(rng.integers(1, 4)), 10 ** 6]
    c.desc(mol=name, modes=nm, renorm=fr, **{k: v for k, v in kw.items() if k != "opts"})
    c.cls(name, f"modes={nm}", f"uhf={uhf}")
    out = []
    for f in fr:
        rng.bit_generator.state = state_
        q, *_ = Q.afqmc(rng, name, nm, renorm_freq=f, **kw)
        tl, e = S.quiet(q.kernel)
        out.append((np.array(e), np.array(q.walkers.weights), q.eshift))
    c.ok(len(out[0][0]) > 0, "energies-produced")
    c.close(out[0][0], out[1][0], "energies-independent-of-frequency", atol=1e-7)
    c.close(out[0][1], out[1][1], "weights-independent-of-frequency", atol=1e-6)
    c.close(out[0][2], out[1][2], "shift-independent-of-frequency", atol=1e-7)
    c.events += 2 * nst


FAMILIES = [
    Family("factors", factors, 200, 4000, chunk=50, monitors=["single-orthonormal", "single-same-span", "single-log-volume", "batch-orthonormal",
                                                              "batch-same-span", "batch-log-volume", "input-untouched"]),
    Family("state", state, 120, 1500, chunk=10, monitors=["orthonormal-orbitals", "same-determinant", "recorded-volume", "accumulated-log-volume",
                                                          "overlap-modulus", "recorded-overlap-modulus", "boson-normalised", "same-boson-state",
                                                          "weights-untouched", "local-energy-kept"]),
    Family("frequency", frequency, 24, 400, chunk=3, monitors=["energies-independent-of-frequency", "weights-independent-of-frequency"]),
]
