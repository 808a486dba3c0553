"""P22 trial wave functions represent the mean-field determinant and the boson state they are built from."""
import itertools
import math
import numpy as np
from harness.vp import Family, Skip
from harness import systems as S, qmcsys as Q

ASSUMPTIONS = ["multi-configuration trials are given their configurations explicitly (active space directly above the frozen core)"]
S.plain_kernels()
BUDGET = {"quick": 300, "thorough": 1200}


def hf(c):
    """determinant of the mean field in the orthogonal atomic or the molecular orbital basis"""
    from pyscf import scf
    from openms.qmc import trial as tr
    from openms.lib.boson import Photon
    from openms.mqed import qedhf

    rng = c.rng
    name = str(rng.choice(["H2", "HeH+", "LiH", "H3", "OH", "H2O", "H4", "HF", "BH", "H3+"]))
    spin = 2 if name in ("H2", "H4") and rng.random() < 0.3 else None
    m = S.mol(name, str(rng.choice(["sto-3g", "6-31g"])), b=float(S.MOLS[name][1] * rng.uniform(0.8, 1.3)), spin=spin,
              rot=S.rotation(rng), shift=rng.normal(size=3))
    how, m = S.variant(rng, m, 0.2)
    nm = int(rng.integers(0, 3))
    sysm, qed = m, False
    if nm:
        om, vec = S.rand_modes(rng, nm)
        bs = [int(x) for x in rng.integers(1, 6, nm)]
        sysm = Photon(m, omega=om.copy(), vec=vec.copy(), nboson_states=list(bs), verbose=0)
        qed = m.spin == 0 and rng.random() < 0.4
    mf = S.quiet(qedhf.RHF, m, qed=sysm) if qed else (scf.RHF(m) if m.spin == 0 else scf.ROHF(m))
    mf.verbose = 0
    mf.max_cycle = int(rng.choice([2, 50]))
    S.quiet(mf.kernel)
    oao = bool(rng.random() < 0.5)
    nc = 2 if m.spin else int(rng.integers(1, 3))
    c.desc(name=name, spin=m.spin, nm=nm, qed=bool(qed), oao=oao, ncomp=nc)
    c.cls(f"spin={m.spin}", f"oao={oao}", f"ncomp={nc}", f"modes={nm}", f"qed={qed}")
    keep = np.array(mf.mo_coeff), np.array(mf.mo_occ)
    t = tr.make_trial(sysm, mf=mf, ncomponents=nc, OAO=oao)
    c.ok(np.array_equal(keep[0], mf.mo_coeff) and np.array_equal(keep[1], mf.mo_occ), "mean-field-untouched", "mean field changed")
    sov = m.intor("int1e_ovlp")
    C, occ = keep
    if oao:
        w, v = np.linalg.eigh(sov)
        back = (v * w ** -0.5) @ v.T          # orthogonal -> atomic orbitals
    else:
        back = C
    na, nb = m.nelec
    c.ok((t.nalpha, t.nbeta) == (na, nb), "electron-numbers", f"{t.nalpha},{t.nbeta} != {na},{nb}")
    order = np.argsort(-occ, kind="stable")
    h = mf.get_hcore() if not qed else None
    dms = []
    for psi, n, tag in ((t.psia, na, "alpha"), (t.psib, nb, "beta")):
        psi = np.asarray(psi)
        c.ok(psi.shape == (C.shape[1] if not oao else C.shape[0], n), "orbital-shape", f"{tag} {psi.shape}")
        c.close(psi.conj().T @ psi, np.eye(n), "orthonormal", atol=1e-8, msg=tag)
        co = C[:, order[:n]]
        dm = back @ psi @ psi.conj().T @ back.conj().T
        c.close(dm, co @ co.T, "mean-field-determinant", atol=1e-7, msg=tag)
        dms.append(dm)
    if h is not None:
        from pyscf import scf as _s
        e = _s.uhf.UHF(m)
        e.verbose = 0
        ref = e.energy_tot(dm=np.array([(C * (occ > 0)) @ C.T, (C * (occ > 1)) @ C.T]))
        c.close(e.energy_tot(dm=np.array(dms).real), ref, "mean-field-energy", atol=1e-7)
    c.ok(t.psi.shape[-1] == (na + nb if nc > 1 else na), "stacked-orbitals", f"{t.psi.shape}")
    c.close(t.psi[:, :na], t.psia, "stacked-orbitals", atol=0)
    if nc > 1:
        c.close(t.psi[:, na:], t.psib, "stacked-orbitals", atol=0)
    G = np.asarray(t.Gf)
    c.close(G[0], t.psia @ t.psia.conj().T, "own-density", atol=1e-8)
    c.close(G[1], t.psib @ t.psib.conj().T if nc > 1 else np.zeros_like(G[0]), "own-density", atol=1e-8)
    if nm:
        ref = np.concatenate([np.exp(-np.arange(k, dtype=float)) for k in bs])
        c.close(t.boson_psi, ref / np.linalg.norm(ref), "boson-start", atol=1e-12)
    else:
        c.ok(t.boson_psi is None, "boson-start", "boson part without bosons")


def rotate(c):
    """half-rotated integrals"""
    from openms.qmc import trial as tr

    rng = c.rng
    n, na = int(rng.integers(1, 8)), None
    na = int(rng.integers(1, n + 1))
    nb = int(rng.integers(1, n + 1))
    nd, ng, nc = int(rng.integers(1, 4)), int(rng.integers(1, 5)), int(rng.integers(1, 3))
    cx = bool(rng.random() < 0.5)
    r = (lambda *s: S.cplx(rng, *s)) if cx else (lambda *s: rng.normal(size=s))
    pa, pb, h, L = r(nd, n, na), r(nd, n, nb), r(2, n, n), r(ng, n, n)
    c.desc(n=n, na=na, nb=nb, nd=nd, ng=ng, nc=nc, cplx=cx)
    c.cls(f"ncomp={nc}", f"dets={nd}", f"complex={cx}")
    keep = [x.copy() for x in (pa, pb, h, L)]
    rh, rl = tr.half_rotate_integrals(nc, pa, pb if nc > 1 else None, h, L)
    for s, psi in enumerate((pa, pb)[:nc]):
        for J in range(nd):
            c.close(rh[s][J], (psi[J].conj().T @ h[s]).T, "rotated-one-body", atol=1e-10)
            for g in range(ng):
                c.close(rl[s][J][g], (psi[J].conj().T @ L[g]).T, "rotated-vectors", atol=1e-10)
    if nc == 1:
        c.ok(rh[1] is None and rl[1] is None, "one-component", "beta part of a one-component trial")
    c.ok(all(np.array_equal(a, b) for a, b in zip(keep, (pa, pb, h, L))), "integrals-untouched", "inputs changed")
    k = int(rng.integers(4))
    args = [pa, pb, h, L]
    args[k] = args[k][0]
    c.raises(ValueError, lambda: tr.half_rotate_integrals(2, *args), "shapes-checked")
    # the trial's own copy
    m2 = Q.shape_draw(rng)
    t = Q.rand_trial(rng, *m2)
    hh = np.array([S.herm(rng, m2[0]), S.herm(rng, m2[0])])
    LL = r(ng, m2[0], m2[0])
    c.ok(not t.half_rotated, "rotation-recorded", "flag")
    t.half_rotate_integrals(hh[:max(1, t.ncomponents)], LL)
    c.ok(t.half_rotated, "rotation-recorded", "flag")
    c.close(t.rh1a, (t.psia.conj().T @ hh[0]).T, "trial-rotated", atol=1e-10)
    c.close(t.rltensora, np.einsum("pi,npq->nqi", t.psia.conj(), LL), "trial-rotated", atol=1e-10)
    if t.ncomponents > 1:
        c.close(t.rh1b, (t.psib.conj().T @ hh[1]).T, "trial-rotated", atol=1e-10)
        c.close(t.rltensorb, np.einsum("pi,npq->nqi", t.psib.conj(), LL), "trial-rotated", atol=1e-10)


def coherent(c):
    """boson trials from coherent amplitudes: per-mode blocks and the full Fock space"""
    from openms.qmc import trial as tr, trial_boson as tb

    rng = c.rng
    nm = int(rng.integers(1, 4))
    big = rng.random() < 0.3
    nst = [int(x) for x in rng.integers(1, 40 if big else 7, nm)]
    cx = bool(rng.random() < 0.5)
    z = rng.uniform(0.02, 2.0, nm) * (np.exp(2j * np.pi * rng.random(nm)) if cx else rng.choice([-1, 1], nm))
    c.desc(nst=nst, z=z, cplx=cx)
    c.cls(f"modes={nm}", f"complex={cx}", f"states={'many' if max(nst) > 21 else 'few'}")
    m, mf = Q.hmol(2, 2, 0)
    t = tr.make_trial(m, mf=mf)
    t.initialize_boson_trial_with_z(z.copy(), list(nst))
    b = np.asarray(t.boson_psi)
    ref = np.concatenate([np.array([np.exp(-abs(z[k]) ** 2 / 2) * z[k] ** n / math.sqrt(float(math.factorial(n))) for n in range(nst[k])])
                          for k in range(nm)])
    c.close(b, ref / np.linalg.norm(ref), "block-amplitudes", atol=1e-12)
    c.close(np.linalg.norm(b), 1.0, "block-normalised", atol=1e-12)
    i = 0
    for k in range(nm):
        blk = b[i:i + nst[k]]
        i += nst[k]
        for n in range(len(blk) - 1):
            c.close(blk[n + 1] * math.sqrt(n + 1), blk[n] * z[k], "annihilation-eigenstate", atol=1e-12 * (1 + abs(z[k])))
    # direct-product Fock space
    nf = int(rng.integers(1, 6))
    f = tb.TrivialFock(nm, nf)
    S.quiet(f.build, alpha=z)
    one = [np.array([np.exp(-abs(a) ** 2 / 2) * a ** n / math.sqrt(math.factorial(n)) for n in range(nf)]) for a in z]
    full = one[0]
    for x in one[1:]:
        full = np.kron(full, x)
    c.close(f.boson_psi, full, "product-amplitudes", atol=1e-12)
    for n in range(0, 30, 7):
        c.close(tb.coherent_state_coeff(n, z[0]), np.exp(-abs(z[0]) ** 2 / 2) * z[0] ** n / math.sqrt(float(math.factorial(n))),
                "product-amplitudes", atol=1e-12)
    S.quiet(f.build)
    dec = np.exp(-np.arange(nf, dtype=float))
    full = dec
    for x in range(nm - 1):
        full = np.kron(full, dec)
    c.close(f.boson_psi, full, "default-amplitudes", atol=1e-12)
    w, p = S.cplx(rng, 3, 5), S.cplx(rng, 5)
    c.close(tb.calc_trial_walker_ovlp(w, p), [np.vdot(p, x) for x in w], "boson-overlap", atol=1e-12)


def first(c):
    """first-quantised boson trials"""
    from openms.qmc import trial_boson as tb

    rng = c.rng
    n = int(rng.integers(1, 7))
    mass, om = rng.uniform(0.3, 3, 2)
    sh = rng.normal(size=n) if rng.random() < 0.7 else float(rng.normal())
    x = rng.normal(size=n) / np.sqrt(mass * om)
    c.desc(n=n, mass=mass, om=om, shift=sh, x=x)
    c.cls(f"sites={n}", f"shift={np.ndim(sh)}")
    h = 1e-4
    for cls, val, shift, a, k2, kin in ((tb.TrialQ, "qvalue", "qshift", mass * om, 0.5 * mass * om ** 2, 0.5 / mass),
                                        (tb.TrialP, "pvalue", "pshift", 1 / (mass * om), 0.5 / mass, 0.5 * mass * om ** 2)):
        t = cls(mass=mass, freq=om, **{shift: sh})
        f = lambda y: getattr(t, val)(y)
        f0 = f(x)
        c.close(f0, np.exp(-0.5 * a * np.sum((x - sh) ** 2)), "gaussian", atol=1e-12)
        g, l = np.asarray(t.gradient(x)), np.asarray(t.laplacian(x))
        for i in range(n):
            e = np.zeros(n)
            e[i] = h
            fp, fm = f(x + e), f(x - e)
            sc = 1 + a * a * (1 + np.max(np.abs(x - sh)) ** 4)
            c.close(g[i], (fp - fm) / (2 * h) / f0, "gradient", atol=1e-6 * sc)
            c.close(l[i], (fp - 2 * f0 + fm) / h ** 2 / f0, "laplacian", atol=1e-5 * sc)
        eloc = -kin * l.sum() + k2 * np.sum(x * x) - 0.5 * om * n
        c.close(t.local_energy(x), eloc, "oscillator-local-energy", atol=1e-10 * (1 + abs(eloc)))
        t0 = cls(mass=mass, freq=om)
        c.close(t0.local_energy(x), 0.0, "ground-state-energy", atol=1e-10 * (1 + np.sum(x * x)))
        if cls is tb.TrialQ and np.ndim(sh):
            t0.update_Q_shift(sh)
            c.close(t0.gradient(x), g, "shift-updated", atol=1e-12)


def msd(c):
    """multi-configuration trial: configurations, frozen core, selection, signs"""
    from openms.qmc import trial as tr
    from pyscf import scf

    rng = c.rng
    n = int(rng.integers(3, 7))
    spin = int(rng.choice([0, 0, 1, 2]))
    ne = int(rng.integers(2, n + 1))
    ne += (ne - spin) % 2
    na, nb = (ne + spin) // 2, (ne - spin) // 2
    if nb < 1 or na > n:
        raise Skip()
    m, mf = Q.hmol(n, ne, spin)
    fr = int(rng.integers(0, nb))
    ncas = int(rng.integers(na - fr, n - fr + 1))
    ca, cb = na - fr, nb - fr
    conf = [(a, b) for a in itertools.combinations(range(ncas), ca) for b in itertools.combinations(range(ncas), cb)]
    rng.shuffle(conf)
    nd = int(rng.integers(1, min(len(conf), 12) + 1))
    conf = [(tuple(int(i) for i in a), tuple(int(i) for i in b)) for a, b in conf[:nd]]
    coef = S.cplx(rng, nd) if rng.random() < 0.5 else rng.normal(size=nd)
    sel = int(rng.integers(1, nd + 1)) if rng.random() < 0.5 else -1
    use = nd if sel < 0 else sel
    c.desc(n=n, na=na, nb=nb, frozen=fr, ncas=ncas, conf=conf, sel=sel)
    c.cls(f"frozen={fr}", f"spin={spin}", f"dets={min(nd, 4)}", f"selected={sel > 0}")
    t = tr.multiCI(m, mf=mf, cas_wfn=(list(coef), [np.array(a) for a, _ in conf], [np.array(b) for _, b in conf]), numdets=sel)
    t.build()
    c.ok(t.numdets == use, "configuration-number", f"{t.numdets} != {use}")
    core = list(range(fr))
    for k in range(use):
        oa = core + [i + fr for i in conf[k][0]]
        ob = core + [i + fr for i in conf[k][1]]
        c.ok(sorted(t.occa[k]) == sorted(oa) and sorted(t.occb[k]) == sorted(ob), "configurations", f"{k}: {t.occa[k]} {t.occb[k]}")
        c.ok(list(t.occ_so[k]) == sorted(oa + [i + n for i in ob]), "spin-orbital-configurations", f"{k}: {t.occ_so[k]}")
        c.close(t.coeffs[k], coef[k], "coefficients", atol=1e-14)
    c.ok(len(t.occa) == use and len(t.coeffs) == use, "configuration-number", "lists")
    I = np.eye(n)
    c.close(t.psia, I[:, core + [i + fr for i in conf[0][0]]], "reference-orbitals", atol=0)
    c.close(t.psib, I[:, core + [i + fr for i in conf[0][1]]], "reference-orbitals", atol=0)
    c.close(t.psi, np.hstack([t.psia, t.psib]), "reference-orbitals", atol=0)
    # sign of the excitation operator that maps one configuration on the other
    k = int(rng.integers(1, n + 1))
    ref = np.sort(rng.permutation(2 * n)[:k])
    tgt = np.sort(rng.permutation(2 * n)[:k])
    out = [int(i) for i in ref if i not in tgt]       # removed from the reference
    new = [int(i) for i in tgt if i not in ref]       # added
    got = tr.permutation_sign(new, out, ref, tgt)
    lst = list(ref)
    for a, b in zip(out, new):
        lst[lst.index(a)] = b
    par = sum(lst[i] > lst[j] for i in range(k) for j in range(i + 1, k)) % 2
    c.ok(int(got) == (-1 if par else 1), "permutation-sign", f"{ref}->{tgt}: {got}")


FAMILIES = [
    Family("determinant", hf, 60, 800, chunk=6, monitors=["mean-field-untouched", "electron-numbers", "orthonormal", "mean-field-determinant",
                                                          "mean-field-energy", "stacked-orbitals", "own-density", "boson-start", "orbital-shape"]),
    Family("half-rotation", rotate, 100, 2000, chunk=25, monitors=["rotated-one-body", "rotated-vectors", "one-component", "integrals-untouched",
                                                                   "shapes-checked", "rotation-recorded", "trial-rotated"]),
    Family("coherent", coherent, 120, 2000, chunk=30, monitors=["block-amplitudes", "block-normalised", "annihilation-eigenstate",
                                                                "product-amplitudes", "default-amplitudes", "boson-overlap"]),
    Family("first-quantised", first, 150, 3000, chunk=50, monitors=["gaussian", "gradient", "laplacian", "oscillator-local-energy",
                                                                    "ground-state-energy", "shift-updated"]),
    Family("configurations", msd, 150, 3000, chunk=40, monitors=["configuration-number", "configurations", "spin-orbital-configurations",
                                                                 "coefficients", "reference-orbitals", "permutation-sign"]),
]
