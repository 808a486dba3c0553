"""P15 electron-boson local energies are the exact mixed estimator of the coupled Hamiltonian."""
import numpy as np
from harness.vp import Family, Skip
from harness import systems as S, oracles as O, qmcsys as Q

ASSUMPTIONS = ["the code represents several modes by one Fock block per mode; the coupled Hamiltonian is judged in that representation"]
S.plain_kernels()
BUDGET = {"quick": 300, "thorough": 1800}


def pieces(t, w, i, h, eri, g, om, nst):
    """exact <T|X|W>/<T|W> of the one-body, two-body, boson and coupling operators"""
    n = h.shape[0]
    e = O.Electrons(n, t.nalpha, t.nbeta)
    ct, cw = Q.trial_ci(t).reshape(e.shape), Q.walker_ci(t, w, i).reshape(e.shape)
    den = np.vdot(ct, cw)
    z = np.zeros_like(eri)
    e1 = np.vdot(ct, e.H_ci(h, z, cw)) / den
    e2 = np.vdot(ct, e.H_ci(0 * h, eri, cw)) / den
    Hb, X = Q.boson_blocks(nst, om)
    bt, bw = t.boson_psi, w.boson_phiw[i]
    bd = np.vdot(bt, bw)
    eb = np.vdot(bt, Hb @ bw) / bd
    eg = sum(np.vdot(ct, e.H_ci(g[k], z, cw)) / den * np.vdot(bt, X[k] @ bw) / bd for k in range(len(g)))
    return e1, e2, eb, eg, bd


def local(c):
    rng = c.rng
    name = str(rng.choice(["H2", "HeH+", "H3+", "H3", "H4"]))
    nm = int(rng.integers(1, 4))
    dec = bool(rng.random() < 0.4)
    off = bool(rng.random() < 0.25)
    scheme = int(rng.integers(1, 3))
    uhf = bool(rng.random() < 0.5)
    nw = int(rng.integers(1, 5))
    q, m, mf, om, vec, bs = Q.afqmc(rng, name, nm, uhf=uhf, nw=nw, gmax=0.6, chol_thresh=1e-10,
                                    opts={"decouple_bilinear": dec, "decouple_scheme": scheme, "turnoff_bosons": off})
    c.desc(mol=name, modes=nm, bs=bs, omega=om, vec=vec, uhf=uhf, decouple=dec, scheme=scheme, off=off, nw=nw)
    c.cls(name, f"modes={nm}", f"uhf={uhf or m.spin}", f"decouple={dec}", f"off={off}")
    t, w = q.trial, Q.scramble(rng, q)
    sb = w.boson_phiw @ t.boson_psi.conj()
    if not Q.cond_ok(t, w) or np.abs(sb).min() < 0.05:
        raise Skip()
    w.weights = rng.uniform(0, 2, nw)
    wt = w.weights.copy()
    pk, bk = w.phiw.copy(), w.boson_phiw.copy()
    enuc = float(m.energy_nuc())
    etot, norm, e1, e2, eb, eg = q.propagator.local_energy(q.h1e, q.ltensor, w, t, enuc=enuc)
    c.ok(np.array_equal(w.phiw, pk) and np.array_equal(w.boson_phiw, bk) and np.array_equal(w.weights, wt), "walkers-untouched")
    L = np.real(q.ltensor[: q.nbarefields])
    eri = np.einsum("gpq,grs->pqrs", L, L)
    h = np.real(q.h1e[0])
    ref = np.array([pieces(t, w, i, h, eri, np.real(q.geb), om, bs)[:4] for i in range(nw)])
    tot = ref[:, 0] + ref[:, 1] + enuc + (0 if off else ref[:, 2] + ref[:, 3])
    tol = 2e-8 * (1 + np.abs(ref).max())
    c.close(np.asarray(w.eloc), tot, "walker-local-energy", atol=tol)
    c.close(norm, wt.sum(), "total-weight", atol=1e-12)
    tw = tol * max(1, wt.sum())
    c.close(etot, wt @ tot.real, "weighted-total", atol=tw)
    c.close(e1, wt @ ref[:, 0].real, "weighted-one-body", atol=tw)
    c.close(e2, wt @ ref[:, 1].real, "weighted-two-body", atol=tw)
    if not off:
        c.close(eb, wt @ ref[:, 2].real, "weighted-boson", atol=tw)
        c.close(eg, wt @ ref[:, 3].real, "weighted-coupling", atol=tw)


def blocks(c):
    """the boson and coupling estimators on arbitrary Green's functions"""
    from openms.qmc import estimators as est
    from openms.qmc.propagators import boson_adag_plus_a

    rng = c.rng
    nm = int(rng.integers(1, 5))
    nst = [int(x) for x in rng.integers(1, 7, nm)]
    om = rng.uniform(0.05, 2, nm)
    n, nw = int(rng.integers(1, 5)), int(rng.integers(1, 5))
    nb = sum(nst)
    geb = np.array([S.herm(rng, n) for _ in range(nm)])
    Gb = S.cplx(rng, nw, nb, nb)
    Ga, Gd = S.cplx(rng, nw, n, n), S.cplx(rng, nw, n, n)
    c.desc(nst=nst, om=om, n=n, nw=nw)
    c.cls(f"modes={nm}", f"equal={len(set(nst)) == 1}")
    Hb, X = Q.boson_blocks(nst, om)
    c.close(est.local_eng_boson(om, nst, Gb), np.einsum("ij,wji->w", Hb, Gb), "boson-energy", atol=1e-9 * nb)
    za = np.einsum("kpq,wpq->wk", geb, Ga)
    zb = np.einsum("kpq,wpq->wk", geb, Gd)
    q = np.einsum("kij,wji->wk", np.array(X), Gb)
    c.close(est.local_eng_eboson(om, nst, geb, [Ga, Gd], Gb), np.sum((za + zb) * q, axis=1), "coupling-energy", atol=1e-8 * nb)
    c.close(est.local_eng_eboson(om, nst, geb, [Ga, None], Gb), np.sum(za * q, axis=1), "coupling-energy-one-spin", atol=1e-8 * nb)
    z = S.cplx(rng, nm)
    c.close(boson_adag_plus_a(nm, nst, z), sum(a * x for a, x in zip(z, X)), "displacement-operator", atol=1e-12)
    if nm > 1:
        c.raises(ValueError, lambda: boson_adag_plus_a(nm, nst[:-1], z), "mode-number-checked")
        c.raises(ValueError, lambda: boson_adag_plus_a(nm, nst, z[:-1]), "mode-number-checked")
    same = int(rng.integers(1, 5))
    c.close(boson_adag_plus_a(nm, same, z), boson_adag_plus_a(nm, [same] * nm, z), "uniform-truncation", atol=1e-12)


def mean(c):
    """the averages used to trace out one subsystem"""
    rng = c.rng
    nm = int(rng.integers(1, 4))
    nst = [int(x) for x in rng.integers(2, 6, nm)]
    nao, na, nb, ncomp = Q.shape_draw(rng, small=True)
    t = Q.rand_trial(rng, nao, na, nb, ncomp, boson=nst)
    nw = int(rng.integers(1, 5))
    w = Q.rand_walkers(rng, t, nw)
    w.weights = rng.uniform(0.1, 2, nw)
    b = w.boson_phiw / np.linalg.norm(w.boson_phiw, axis=1)[:, None]
    c.desc(nst=nst, nw=nw)
    c.cls(f"modes={nm}")
    DM, per = w.get_boson_dm(t, b)
    _, X = Q.boson_blocks(nst, np.ones(nm))
    i = 0
    for k, mdim in enumerate(nst):
        r = np.einsum("wi,wj->wij", b[:, i:i + mdim], b[:, i:i + mdim].conj())
        c.close(per[k], r, "mode-density", atol=1e-12)
        c.close(DM[:, i:i + mdim, i:i + mdim], r, "block-density", atol=1e-12)
        i += mdim
    Qa = w.get_boson_bdag_plus_b(t, b)
    ref = [np.sum(w.weights * np.einsum("wi,ij,wj->w", b.conj(), X[k], b)) / w.weights.sum() for k in range(nm)]
    c.close(Qa, ref, "mean-displacement", atol=1e-10)
    c.raises(ValueError, lambda: w.get_boson_dm(t, b[:, :-1]), "size-checked")


FAMILIES = [
    Family("local", local, 160, 800, chunk=6, monitors=["walker-local-energy", "weighted-total", "weighted-one-body", "weighted-two-body",
                                                       "weighted-boson", "weighted-coupling", "walkers-untouched"]),
    Family("blocks", blocks, 400, 3000, chunk=30, monitors=["boson-energy", "coupling-energy", "coupling-energy-one-spin",
                                                            "displacement-operator", "mode-number-checked"]),
    Family("mean", mean, 160, 1000, chunk=20, monitors=["mode-density", "block-density", "mean-displacement", "size-checked"]),
]
