"""P21 AFQMC runs: reproducible, isolated, correct estimator, exact in the limits where the answer is known."""
import numpy as np
from harness.vp import Family, Skip
from harness import systems as S, oracles as O, qmcsys as Q

ASSUMPTIONS = ["serial runs; the comparison with exact diagonalisation is statistical (two-electron systems, 10 millihartree)"]
S.plain_kernels()
BUDGET = {"quick": 400, "thorough": 1800}


def draw(rng, nmmax=2):
    name = str(rng.choice(["H2", "HeH+", "H3+", "H3", "H4"]))
    nm = int(rng.integers(0, nmmax + 1))
    nst = int(rng.integers(6, 20))
    dt = float(rng.choice([0.005, 0.01, 0.02]))
    opts = {}
    if nm:
        opts = {"decouple_bilinear": bool(rng.random() < 0.3), "turnoff_bosons": bool(rng.random() < 0.2)}
    kw = dict(nw=int(rng.integers(2, 9)), dt=dt, total_time=nst * dt, random_seed=int(rng.integers(0, 10 ** 6)), uhf=bool(rng.random() < 0.5),
              property_calc_freq=int(rng.integers(1, 5)), pop_control_freq=int(rng.integers(1, 7)), renorm_freq=int(rng.integers(1, 7)),
              pop_control_method=str(rng.choice(["branching", "reconfiguration", "comb"])), energy_scheme=str(rng.choice(["hybrid", "hybrid", "local"])),
              opts=opts, gmax=0.15)
    return name, nm, nst, kw


def repro(c):
    rng = c.rng
    name, nm, nst, kw = draw(rng)
    c.desc(mol=name, modes=nm, **kw)
    c.cls(name, f"modes={nm}", kw["pop_control_method"], kw["energy_scheme"], f"dec={kw['opts'].get('decouple_bilinear')}")
    st = rng.bit_generator.state
    seed0 = int(rng.integers(1, 10 ** 6))
    runs = []
    for k in range(2):
        rng.bit_generator.state = st
        np.random.seed(seed0 + 17 * k)
        np.random.normal(size=5 * k)
        q, m, mf, *_ = Q.afqmc(rng, name, nm, **kw)
        mo, ener = np.array(mf.mo_coeff), float(mf.e_tot)
        h0, l0 = np.array(q.h1e), np.array(q.ltensor)
        tr = np.array(q.trial.psia), (np.array(q.trial.boson_psi) if q.trial.boson_psi is not None else None)
        if k == 1:
            rng2 = np.random.default_rng(seed0)
            other, *_ = Q.afqmc(rng2, "H2", int(nm > 0), nw=3, dt=0.01, total_time=0.03)
            S.quiet(other.kernel)
        tl, e = S.quiet(q.kernel)
        c.ok(np.array_equal(mf.mo_coeff, mo) and mf.e_tot == ener, "mean-field-untouched")
        c.ok(np.array_equal(q.h1e, h0) and np.array_equal(q.ltensor, l0), "integrals-untouched")
        c.ok(np.array_equal(q.trial.psia, tr[0]) and (tr[1] is None or np.array_equal(q.trial.boson_psi, tr[1])), "trial-untouched")
        runs.append((np.array(tl), np.array(e), np.array(q.walkers.weights), np.array(q.walkers.phiwa)))
    a, b = runs
    c.ok(np.array_equal(a[1], b[1]), "same-seed-same-energies", "", a=a[1][:4], b=b[1][:4])
    c.ok(np.array_equal(a[2], b[2]) and np.array_equal(a[3], b[3]), "same-seed-same-walkers")
    f = kw["property_calc_freq"]
    want = [kw["dt"] * k for k in range(nst) if (k + 1) % f == 0]
    if abs(nst - round(kw["total_time"] / kw["dt"])) == 0 and q.nsteps == nst:
        c.close(a[0], np.array(want), "measurement-times", atol=1e-12)
    if len(a[1]) and kw["nw"] > 2:
        rng.bit_generator.state = st
        kw2 = dict(kw, random_seed=kw["random_seed"] + 1)
        q, *_ = Q.afqmc(rng, name, nm, **kw2)
        e2 = np.array(S.quiet(q.kernel)[1])
        c.ok(not np.array_equal(e2, a[1]) or name == "H2" and False, "seed-matters", "a different seed gives the same walk")
    c.events += nst


def exact_eloc(t, w, i, h, eri, e):
    ct, cw = Q.trial_ci(t).reshape(e.shape), Q.walker_ci(t, w, i).reshape(e.shape)
    return np.vdot(ct, e.H_ci(h[0], eri, cw, hb=h[-1])) / np.vdot(ct, cw)


def estimator(c):
    """every reported energy is the weighted mean of the exact mixed estimator over the walkers present"""
    rng = c.rng
    name, nm, nst, kw = draw(rng)
    nst = min(nst, 8)
    kw.update(total_time=nst * kw["dt"], nw=min(kw["nw"], 5))
    q, m, mf, om, vec, bs = Q.afqmc(rng, name, nm, **kw)
    c.desc(mol=name, modes=nm, bs=bs, **kw)
    off = bool(kw["opts"].get("turnoff_bosons"))
    c.cls(name, f"modes={nm}", kw["pop_control_method"], kw["energy_scheme"], f"dec={kw['opts'].get('decouple_bilinear')}", f"off={off}")
    t, w = q.trial, q.walkers
    if not hasattr(w, "weight_control"):
        raise Skip()
    nbare = q.nbarefields if nm and q.nbarefields else len(q.ltensor)
    L = np.real(q.ltensor[:nbare])
    eri = np.einsum("gpq,grs->pqrs", L, L)
    h = np.real(q.h1e)
    e = O.Electrons(h.shape[-1], t.nalpha, t.nbeta)
    wc, ref = w.weight_control, []
    enuc = float(m.energy_nuc())

    def control(step, *a, **k):
        r = wc(step, *a, **k)
        if (step + 1) % kw["property_calc_freq"] == 0:
            loc = []
            for i in range(w.nwalkers):
                x = exact_eloc(t, w, i, h, eri, e)
                if nm and not off:
                    Hb, X = Q.boson_blocks(bs, om)
                    bt, bw = t.boson_psi, w.boson_phiw[i]
                    bd = np.vdot(bt, bw)
                    ct, cw = Q.trial_ci(t).reshape(e.shape), Q.walker_ci(t, w, i).reshape(e.shape)
                    x = x + np.vdot(bt, Hb @ bw) / bd
                    for kk in range(nm):
                        x = x + np.vdot(ct, e.one_ci(np.real(q.geb[kk]), cw)) / np.vdot(ct, cw) * np.vdot(bt, X[kk] @ bw) / bd
                loc.append(x + enuc)
            ref.append(float(np.dot(w.weights, np.real(loc)) / np.sum(w.weights)))
        return r

    w.weight_control = control
    tl, en = S.quiet(q.kernel)
    c.ok(len(en) == len(ref) == len(tl), "one-energy-per-measurement", "", got=len(en), want=len(ref))
    c.close(np.array(en), np.array(ref), "reported-energy", atol=2e-6)
    c.events += len(ref)


def one_electron(c):
    """one electron: the trial is the exact state, so every walk reports the exact energy"""
    rng = c.rng
    from pyscf import gto, scf
    from openms.qmc.afqmc import AFQMC

    n = int(rng.integers(2, 5))
    m = gto.M(atom=[("H", rng.normal(size=3) * 1.2 + np.array([1.5 * i, 0, 0])) for i in range(n)], basis="sto-3g", unit="Bohr", charge=n - 1, spin=1, verbose=0)
    mf = scf.ROHF(m)
    mf.verbose = 0
    mf.kernel()
    ev = np.linalg.eigvalsh(np.linalg.solve(m.intor("int1e_ovlp"), mf.get_hcore()))
    S_ = m.intor("int1e_ovlp")
    x = np.linalg.inv(np.linalg.cholesky(S_))
    exact = float(np.linalg.eigvalsh(x @ mf.get_hcore() @ x.T)[0] + m.energy_nuc())
    del ev
    if abs(mf.e_tot - exact) > 1e-8:
        raise Skip()
    dt = float(rng.choice([0.005, 0.02]))
    c.desc(n=n, dt=dt)
    c.cls(f"orbitals={n}")
    q = S.quiet(AFQMC, m, mf=mf, num_walkers=int(rng.integers(2, 8)), verbose=0, uhf=True, dt=dt, total_time=30 * dt, random_seed=int(rng.integers(1, 10 ** 6)),
                energy_scheme=str(rng.choice(["hybrid", "local"])), chol_thresh=1e-10)
    try:
        tl, en = S.quiet(q.kernel)
    except (IndexError, ZeroDivisionError, ValueError) as err:
        if q.trial.nbeta == 0:
            raise Skip()
        raise err
    c.close(np.array(en), np.full(len(en), exact), "exact-trial-exact-energy", atol=1e-6)
    c.events += len(en)


def limits(c):
    """switched-off or uncoupled bosons: the seeded run is the bare electronic run"""
    rng = c.rng
    name, nm, nst, kw = draw(rng)
    nm = max(nm, 1)
    dec = bool(rng.random() < 0.4)
    how = "off" if dec or rng.random() < 0.4 else "uncoupled"
    scheme = int(rng.integers(1, 3))
    fake = int(rng.choice([0, 2]))
    opts = {"num_fake_fields": fake, "decouple_bilinear": dec, "decouple_scheme": scheme, "turnoff_bosons": how == "off"}
    kw.update(opts=opts, gmin=1e-13, gmax=2e-13, energy_scheme="hybrid")
    c.desc(mol=name, modes=nm, how=how, **kw)
    c.cls(name, f"modes={nm}", how, f"dec={dec}", f"fake={fake}")
    st = rng.bit_generator.state
    out = []
    for b in (nm, 0):
        rng.bit_generator.state = st
        k2 = dict(kw)
        if b == 0:  # the same number of draws per step
            k2["opts"] = {"num_fake_fields": fake + extra}
        q, *_ = Q.afqmc(rng, name, b, **k2)
        if b:
            extra = sum(1 for x in np.asarray(q.ltensor) if np.abs(x).max() < 1e-9)
        out.append((np.array(S.quiet(q.kernel)[1]), len(q.ltensor)))
    c.ok(out[0][1] - extra == out[1][1], "same-electronic-fields")
    c.close(out[1][0], out[0][0], "bare-electron-limit", atol=1e-7)
    c.events += nst


def fci(c):
    """two electrons: the long-time average is the exact ground-state energy (statistical)"""
    rng = c.rng
    from pyscf import fci as pf, ao2mo

    name = str(rng.choice(["H2", "HeH+", "H3+"]))
    nm = int(rng.choice([0, 0, 1]))
    q, m, mf, om, vec, bs = Q.afqmc(rng, name, nm, nw=200, dt=0.02, total_time=9.0, uhf=bool(rng.random() < 0.5), property_calc_freq=5, random_seed=int(rng.integers(1, 10 ** 6)),
                                    gmin=1e-9, gmax=1e-8, opts={} if nm == 0 else {"turnoff_bosons": bool(rng.random() < 0.5)}, renorm_freq=5)
    c.desc(mol=name, modes=nm)
    c.cls(name, f"modes={nm}")
    h = mf.mo_coeff.T @ mf.get_hcore() @ mf.mo_coeff
    n = h.shape[0]
    eri = ao2mo.restore(1, ao2mo.kernel(m, mf.mo_coeff), n)
    e0 = pf.direct_spin1.kernel(h, eri, n, m.nelec)[0] + m.energy_nuc()
    if mf.e_tot - e0 > 0.08:
        raise Skip()
    tl, en = S.quiet(q.kernel)
    en = np.array(en)
    tail = en[len(en) // 3:]
    c.close(tail.mean(), e0, "ground-state-energy", atol=1e-2)
    c.ok(tail.mean() < mf.e_tot + 5e-3, "below-mean-field")
    c.events += len(en)


def series(c):
    """runs of one process on molecules and cavities that hardly differ, or altered in place: each runs with its own Hamiltonian"""
    from openms.qmc.afqmc import AFQMC
    from openms.lib.boson import Photon
    from pyscf import scf

    rng = c.rng
    log = []
    om, vec = S.rand_modes(rng, 1, gmax=0.3)
    oao = bool(rng.random() < 0.7)
    for how, m in S.neighbours(rng, names=("H2", "HeH+", "H3+"), n=int(rng.integers(3, 5)), bases=("sto-3g", "6-31g")):
        nm = int(rng.random() < 0.5)
        system = m
        if nm:
            if rng.random() < 0.5:
                om, vec = om * rng.uniform(0.7, 1.4), vec * rng.uniform(0.5, 1.5)
            system = Photon(m, omega=om.copy(), vec=vec.copy(), nboson_states=[3], verbose=0)
            system.get_gmatao()
        mf = scf.RHF(m)
        mf.verbose = 0
        mf.kernel()
        block = bool(rng.random() < 0.3)
        q = S.quiet(AFQMC, system, mf=mf, dt=0.01, total_time=0.03, num_walkers=3, OAO=oao, chol_thresh=1e-8, block_decompose_eri=block, verbose=0,
                    random_seed=int(rng.integers(0, 1000)), energy_scheme="hybrid", property_calc_freq=1, propagator_options={})
        log.append((how, nm, block))
        tl, e = S.quiet(q.kernel)
        n = m.nao_nr()
        w, v = np.linalg.eigh(m.intor("int1e_ovlp"))
        X = (v / np.sqrt(w)) @ v.T if oao else np.array(mf.mo_coeff)
        h = X.T @ scf.hf.get_hcore(m) @ X
        V = np.einsum("pqrs,pi,qj,rk,sl->ijkl", m.intor("int2e").reshape((n,) * 4), X, X, X, X, optimize=True)
        if nm:
            cc = m.atom_charges() @ m.atom_coords() / m.atom_charges().sum()
            r = m.intor("int1e_r", comp=3) - cc[:, None, None] * m.intor("int1e_ovlp")
            g = -X.T @ np.einsum("x,xpq->pq", vec[0], r) @ X
            h = h + 0.5 * g @ g
            V = V + np.einsum("pq,rs->pqrs", g, g)
            c.close(np.real(q.geb[0]), g * np.sqrt(om[0] / 2), "own-coupling", atol=1e-8, msg=how)
        L = np.real(np.asarray(q.ltensor)[: q.nbarefields] if nm and q.nbarefields else np.asarray(q.ltensor))
        c.close(np.real(q.h1e[0]), h, "own-core-hamiltonian", atol=1e-7, msg=how)
        c.close(np.einsum("gpq,grs->pqrs", L, L), V, "own-interaction", atol=np.linalg.norm(X, 2) ** 4 * 1e-8 * (n * n if block else 1) + 1e-7, msg=how)
        t = q.trial
        D = sum(np.asarray(p) @ np.asarray(p).conj().T for p in ((t.psia, t.psia) if t.ncomponents == 1 else (t.psia, t.psib)))
        c.close(X @ np.real(D) @ X.T, mf.make_rdm1(), "own-trial", atol=1e-7, msg=how)
        c.ok(np.all(np.isfinite(e)) and abs(np.mean(e) - mf.e_tot) < 0.5, "own-energy", how, got=np.array(e)[:3], hf=mf.e_tot)
        c.events += len(e)
    c.desc(series=log, OAO=oao)
    c.cls(*[x[0] for x in log])


FAMILIES = [
    Family("repro", repro, 48, 600, chunk=4, monitors=["same-seed-same-energies", "same-seed-same-walkers", "mean-field-untouched", "integrals-untouched",
                                                       "trial-untouched", "measurement-times", "seed-matters"]),
    Family("estimator", estimator, 48, 600, chunk=4, monitors=["reported-energy", "one-energy-per-measurement"]),
    Family("one-electron", one_electron, 16, 200, chunk=2, monitors=["exact-trial-exact-energy"]),
    Family("limits", limits, 32, 400, chunk=4, monitors=["bare-electron-limit", "same-electronic-fields"]),
    Family("series", series, 24, 250, chunk=3, monitors=["own-interaction", "own-core-hamiltonian", "own-coupling", "own-trial", "own-energy"]),
    Family("fci", fci, 8, 40, chunk=1, monitors=["ground-state-energy", "below-mean-field"]),
]
