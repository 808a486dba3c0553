"""P13 trial/walker overlaps and mixed Green's functions are the exact matrix elements."""
import numpy as np
from harness.vp import Family, Skip
from harness import systems as S, oracles as O, qmcsys as Q

ASSUMPTIONS = ["finite-dimensional orbital spaces of at most 6 orbitals, where the determinant can be expanded exactly"]


def _cond_ok(t, w):
    for i in range(w.nwalkers):
        if np.linalg.cond(w.phiwa[i].T @ t.psia.conj()) > 1e4:
            return False
        if t.ncomponents > 1 and np.linalg.cond(w.phiwb[i].T @ t.psib.conj()) > 1e4:
            return False
    return True


def elec(c):
    from openms.qmc import trial as tr, estimators as est, propagators as pr

    rng = c.rng
    nao, na, nb, ncomp = Q.shape_draw(rng)
    orth = bool(rng.random() < 0.7)
    t = Q.rand_trial(rng, nao, na, nb, ncomp, orth=orth)
    nw = int(rng.choice([1, 2, 3, 5, 8]))
    w = Q.rand_walkers(rng, t, nw)
    c.desc(nao=nao, na=na, nb=nb, ncomp=ncomp, nw=nw, real=bool(np.isrealobj(t.psia)), orth=orth)
    c.cls(f"ncomp={ncomp}", f"real={np.isrealobj(t.psia)}", f"na-nb={na-nb}", f"orth={orth}")
    if not _cond_ok(t, w):
        raise Skip()
    keep = (np.array(w.phiwa), None if w.phiwb is None else np.array(w.phiwb), t.psia.copy(), t.psib.copy())
    T = Q.trial_ci(t)
    W = [Q.walker_ci(t, w, i) for i in range(nw)]
    ref = np.array([np.vdot(T, x) for x in W])
    scale = np.abs(ref)
    ov = np.array(t.ovlp_with_walkers(w))
    c.ok(np.all(np.abs(ov - ref) <= 1e-9 * (1 + scale)), "overlap", "overlap != <T|phi>", got=ov, ref=ref)
    ov2 = np.array(t.ovlp_with_walkers_gf(w))
    c.ok(np.all(np.abs(ov2 - ref) <= 1e-9 * (1 + scale)), "overlap-with-gf", "overlap != <T|phi>", got=ov2, ref=ref)
    A, B = O.Fock(nao, na), O.Fock(nao, nb)
    sp = [("Ghalfa", t.psia, w.Ghalfa, A, 0, na)]
    if ncomp > 1:
        sp.append(("Ghalfb", t.psib, w.Ghalfb, B, 1, nb))
    for name, psi, gh, F, s, n in sp:
        c.ok(gh.shape == (nw, nao, n), "ghalf-shape", f"{name} {gh.shape}")
        for i in range(nw):
            G = psi.conj() @ gh[i].T           # G_pq = sum_i T*_pi Theta_qi
            refG = np.empty((nao, nao), dtype=complex)
            for p in range(nao):
                for q in range(nao):
                    X = F.E(p, q) @ W[i] if s == 0 else W[i] @ F.E(p, q).T
                    refG[p, q] = np.vdot(T, X) / ref[i]
            sc = 1 + np.abs(refG).max()
            c.close(G, refG, f"green-function", atol=1e-8 * sc, msg=name)
            c.close(np.trace(G), n, "green-trace", atol=1e-8 * sc)
            c.close(G @ G, G, "green-idempotent", atol=1e-7 * sc * sc)
            # every implementation of the same quantity
            phi = (w.phiwa if s == 0 else w.phiwb)[i]
            G2, gh2 = est.GF(psi, phi)
            c.close(G2, refG, "GF-function", atol=1e-8 * sc)
            c.close(gh2, gh[i].T, "GF-half", atol=1e-8 * sc)
        phis = np.array(w.phiwa if s == 0 else w.phiwb)
        S0 = np.array([p.T @ psi.conj() for p in phis])
        for nm, f in (("numpy", tr.trial_walker_ovlp_base), ("numba", getattr(tr, "trial_walker_ovlp_base_numba", None))):
            if f is None:
                continue
            c.close(np.array(f(phis, psi.astype(complex))), S0, f"overlap-kernel-{nm}", atol=1e-10)
        for nm, f in (("numpy", tr.trial_walker_ovlp_gf_base), ("numba", getattr(tr, "trial_walker_ovlp_gf_base_numba", None))):
            if f is None:
                continue
            o, g = f(phis, psi.astype(complex))
            c.close(np.array(o), S0, f"overlap-gf-kernel-{nm}", atol=1e-10)
            c.close(np.array(g), np.array(gh), f"gf-kernel-{nm}", atol=1e-7 * (1 + np.abs(gh).max()))
        gb = pr.compute_GF_base(np.ascontiguousarray(gh), np.ascontiguousarray(psi.conj()))
        c.close(gb, np.array([psi.conj() @ g.T for g in gh]), "full-gf-kernel", atol=1e-8 * (1 + np.abs(gh).max()))
    # full Green's functions are delivered while the trial is not half rotated
    c.close(w.Ga, np.array([t.psia.conj() @ g.T for g in w.Ghalfa]), "full-gf", atol=1e-8 * (1 + np.abs(w.Ga).max()))
    if ncomp > 1:
        c.close(w.Gb, np.array([t.psib.conj() @ g.T for g in w.Ghalfb]), "full-gf", atol=1e-8 * (1 + np.abs(w.Gb).max()))
        Gs, Gh = est.GF_so(t.psi, np.hstack([w.phiwa[0], w.phiwb[0]]), na, nb)
        c.close(Gs[0], w.Ga[0], "GF_so", atol=1e-8 * (1 + np.abs(w.Ga).max()))
        c.close(Gs[1], w.Gb[0], "GF_so", atol=1e-8 * (1 + np.abs(w.Gb).max()))
    ga = np.array(w.Ghalfa)
    tr.calc_walker_gf(w, t, (np.array([p.T @ t.psia.conj() for p in w.phiwa]),
                             None if ncomp == 1 else np.array([p.T @ t.psib.conj() for p in w.phiwb])))
    c.close(w.Ghalfa, ga, "gf-from-given-overlap", atol=1e-8 * (1 + np.abs(ga).max()))
    c.ok(np.array_equal(keep[0], w.phiwa) and (keep[1] is None or np.array_equal(keep[1], w.phiwb))
         and np.array_equal(keep[2], t.psia) and np.array_equal(keep[3], t.psib), "inputs-untouched")


def gauge(c):
    """column transformations of a walker: overlap picks up det, Green's functions do not change;
    walkers do not talk to each other"""
    rng = c.rng
    nao, na, nb, ncomp = Q.shape_draw(rng)
    t = Q.rand_trial(rng, nao, na, nb, ncomp)
    nw = int(rng.choice([2, 3, 6, 9]))
    w = Q.rand_walkers(rng, t, nw)
    c.desc(nao=nao, na=na, nb=nb, ncomp=ncomp, nw=nw)
    if not _cond_ok(t, w):
        raise Skip()
    ov = np.array(t.ovlp_with_walkers_gf(w))
    ga = np.array(w.Ghalfa)
    perm = rng.permutation(nw)
    dets = np.ones(nw, dtype=complex)

    def rot(n):
        while True:
            R = S.cplx(rng, n, n) / np.sqrt(n)
            if np.linalg.cond(R) < 50:
                return R * 10.0 ** rng.uniform(-2, 2)

    pa = np.array(w.phiwa)
    pb = None if ncomp == 1 else np.array(w.phiwb)
    for i in range(nw):
        R = rot(na)
        pa[i] = pa[i] @ R
        d = np.linalg.det(R)
        if ncomp > 1:
            R = rot(nb)
            pb[i] = pb[i] @ R
            d = d * np.linalg.det(R)
        else:
            d = d * d
        dets[i] = d
    w.phiwa = pa[perm]
    if ncomp > 1:
        w.phiwb = pb[perm]
    ov2 = np.array(t.ovlp_with_walkers_gf(w))
    r = (ov * dets)[perm]
    c.ok(np.all(np.abs(ov2 - r) <= 1e-8 * np.abs(r) + 1e-300), "overlap-covariance", got=ov2, ref=r)
    Ga1 = np.array([t.psia.conj() @ g.T for g in ga])[perm]
    Ga2 = np.array([t.psia.conj() @ g.T for g in w.Ghalfa])
    c.close(Ga2, Ga1, "green-invariance", atol=1e-7 * (1 + np.abs(Ga1).max()))
    ov3 = np.array(t.ovlp_with_walkers(w))
    c.ok(np.all(np.abs(ov3 - r) <= 1e-8 * np.abs(r) + 1e-300), "overlap-covariance", got=ov3, ref=r)
    c.ok(np.array_equal(w.phiwa, pa[perm]), "walkers-untouched")


def boson(c):
    rng = c.rng
    nmode = int(rng.choice([1, 2, 3]))
    nst = [int(x) for x in rng.integers(2, 7, nmode)]
    nao, na, nb, ncomp = Q.shape_draw(rng, small=True)
    t = Q.rand_trial(rng, nao, na, nb, ncomp, boson=nst)
    nw = int(rng.choice([1, 2, 5]))
    w = Q.rand_walkers(rng, t, nw)
    c.desc(nst=nst, nao=nao, na=na, nb=nb, ncomp=ncomp, nw=nw, real=bool(np.isrealobj(t.boson_psi)))
    if not _cond_ok(t, w):
        raise Skip()
    sb = np.array([np.vdot(t.boson_psi, w.boson_phiw[i]) for i in range(nw)])
    if np.abs(sb).min() < 1e-3:
        raise Skip()
    c.close(np.array(t.boson_ovlp_with_walkers(w)), sb, "boson-overlap", atol=1e-11)
    fe = np.array(t.ovlp_with_walkers(w))
    fe2 = np.array(t.ovlp_with_walkers_gf(w))
    c.close(fe2, fe, "electron-overlap-unaffected-by-bosons", atol=1e-10, rtol=1e-9)
    for i in range(nw):
        ref = np.outer(w.boson_phiw[i], t.boson_psi.conj()) / sb[i]
        c.close(w.boson_Gf[i], ref, "boson-green-function", atol=1e-9 * (1 + np.abs(ref).max()))
        c.close(np.trace(w.boson_Gf[i]), 1.0, "boson-green-trace", atol=1e-9 * (1 + np.abs(ref).max()))


FAMILIES = [
    Family("elec", elec, 240, 4000, chunk=15,
           monitors=["overlap", "overlap-with-gf", "green-function", "green-trace", "green-idempotent", "GF-function",
                     "overlap-kernel-numpy", "overlap-gf-kernel-numpy", "full-gf", "GF_so", "inputs-untouched"]),
    Family("gauge", gauge, 160, 3000, chunk=20, monitors=["overlap-covariance", "green-invariance"]),
    Family("boson", boson, 120, 2000, chunk=15, monitors=["boson-overlap", "boson-green-function"]),
]
