"""P01 QED-HF energy is the exact mean-field energy of the Pauli-Fierz Hamiltonian; its Fock matrix is the derivative."""
import os
import tempfile
import numpy as np
from harness.vp import Family, Skip
from harness import systems as S, qed as QD

ASSUMPTIONS = ["closed-shell molecules, real orbitals, up to 13 basis functions",
               "PySCF's bare one- and two-electron integrals are taken as correct"]
BUDGET = {"quick": 300, "thorough": 1500}


def _opts(rng):
    o = {}
    if rng.random() < 0.4:
        o["complete_basis"] = False
    if rng.random() < 0.3:
        o["add_nuc_dipole"] = False
    if rng.random() < 0.4:
        o["origin_shift"] = rng.normal(size=3)
    if rng.random() < 0.2:
        o["add_dse"] = False
    return o


def _mf(m, om, vec, kw, nb=1, gfac=None, **extra):
    from openms.mqed import qedhf
    from openms.lib import boson

    v = vec.copy()
    kw2 = {k: (np.array(x) if isinstance(x, np.ndarray) else x) for k, x in kw.items()}
    if gfac is not None:
        kw2["gfac"] = np.array(gfac)
    q = boson.Photon(m, omega=om.copy(), vec=v, nboson_states=nb, **kw2, **extra)
    mf = qedhf.RHF(m, qed=q)
    mf.verbose = 0
    mf.chkfile = None
    return mf


def _ref(I, vec, kw):
    g = I.g(vec, kw.get("add_nuc_dipole", True), kw.get("origin_shift"))
    if kw.get("complete_basis", True):
        q = I.q(vec, kw.get("add_nuc_dipole", True), kw.get("origin_shift"))
    else:
        q = I.q_ri(g)
    return g, q


def energy(c):
    """any closed-shell determinant, any cavity: energy, displacement and Fock matrix of one evaluation"""
    rng = c.rng
    diffuse = rng.random() < 0.1        # overlap matrices with small eigenvalues
    name, basis, b, m, om, vec = QD.draw(rng, names=["H2", "HeH+", "H4"], bases=["6-31++g"]) if diffuse else QD.draw(rng)
    kw = _opts(rng)
    I = QD.Ints(m)
    nm = len(om)
    nb = [int(x) for x in rng.integers(1, 5, nm)]
    use_gfac = rng.random() < 0.3
    if use_gfac:
        gfac = np.linalg.norm(vec, axis=1)
        scale = rng.uniform(0.2, 4, nm)
        mf = _mf(m, om, vec * scale[:, None], kw, nb, gfac=gfac)
    else:
        mf = _mf(m, om, vec, kw, nb)
    c.desc(mol=name, basis=basis, b=b, omega=om, vec=vec, opts=kw, nboson=nb, gfac=bool(use_gfac))
    c.cls(name, basis, f"modes={nm}", *[f"{k}={'set' if k == 'origin_shift' else v}" for k, v in kw.items()])
    g, q = _ref(I, vec, kw)
    dse = kw.get("add_dse", True)
    D, _ = QD.rand_dm(rng, I, m.nelectron // 2)
    gc = np.array(mf.qed.gmat)
    c.close(gc, g, "coupling-matrix", atol=1e-9 * (1 + np.abs(g).max()))
    mf.qed.update_cs(D)
    mf.qed.update_boson_coeff(D)
    z = np.einsum("kpq,pq->k", g, D)
    h = mf.get_hcore(m, D)
    v = mf.get_veff(m, D)
    e = mf.energy_tot(D, h, v)
    ref = I.ehf(D) + I.dse(D, g, q, z, dse)
    sc = 1 + abs(ref)
    c.close(mf.qed.z_alpha, z, "displacement", atol=1e-9 * (1 + np.abs(z).max()))
    c.close(e, ref, "energy", atol=1e-8 * sc)
    # default arguments take the same road
    c.close(mf.energy_tot(D), ref, "energy-default-args", atol=1e-8 * sc)
    # vacuum energy and multi-photon spaces change nothing at the coherent displacement
    c.close(mf.qed.e_boson, 0.0, "photon-energy", atol=1e-10)
    # Fock = dE/dD on the traceless directions
    F = mf.get_fock(h, I.S, v, D)
    c.close(F, F.T, "fock-symmetric", atol=1e-8 * (1 + np.abs(F).max()))
    for _ in range(3):
        X = rng.normal(size=(I.n, I.n))
        X = X + X.T
        X -= np.einsum("pq,pq->", X, I.S) / I.N * D
        eps = 1e-3
        t = np.einsum("pq,pq->", F, X)

        def E(d):
            return I.ehf(d) + I.dse(d, g, q, np.einsum("kpq,pq->k", g, d), dse)
        num = (E(D + eps * X) - E(D - eps * X)) / (2 * eps)
        c.close(t, num, "fock-is-gradient", atol=1e-6 * (1 + abs(num)))
    # batches of density matrices
    D2, _ = QD.rand_dm(rng, I, m.nelectron // 2)
    J, K = mf.get_jk(m, np.array([D, D2]))
    for d, j, k in ((D, J[0], K[0]), (D2, J[1], K[1])):
        jr = np.einsum("pqrs,rs->pq", I.eri, d) + dse * np.einsum("kpq,krs,rs->pq", g, g, d)
        kr = np.einsum("prsq,rs->pq", I.eri, d) + dse * np.einsum("kpr,krs,ksq->pq", g, np.array([d] * nm), g)
        c.close(j, jr, "jk-batch", atol=1e-8 * (1 + np.abs(jr).max()))
        c.close(k, kr, "jk-batch", atol=1e-8 * (1 + np.abs(kr).max()))


def scf(c):
    """full SCF runs watched cycle by cycle through the callback"""
    rng = c.rng
    name, basis, b, m, om, vec = QD.draw(rng, bases=["sto-3g"])
    kw = _opts(rng)
    I = QD.Ints(m)
    nm = len(om)
    nb = [int(x) for x in rng.integers(1, 4, nm)]
    mf = _mf(m, om, vec, kw, nb)
    c.desc(mol=name, b=b, omega=om, vec=vec, opts=kw, nboson=nb)
    c.cls(name, f"modes={nm}")
    g, q = _ref(I, vec, kw)
    dse = kw.get("add_dse", True)

    def E(d):
        return I.ehf(d) + I.dse(d, g, q, np.einsum("kpq,pq->k", g, d), dse)
    log = []
    mf.callback = lambda env: log.append((env["e_tot"], np.array(env["dm"])))
    mf.conv_tol = 1e-11
    mf.max_cycle = 120
    aids = QD.scf_aids(rng, mf)
    c.desc(aids=aids)
    c.cls("aids=" + "+".join(sorted(aids)))
    dm0 = None
    if rng.random() < 0.5:
        dm0, _ = QD.rand_dm(rng, I, m.nelectron // 2)
        dm0 = 0.3 * dm0 + 0.7 * mf.get_init_guess(m)
    e = QD.run_scf(mf, dm0=dm0)
    if e is None:
        raise Skip()
    if not mf.converged:
        raise Skip()
    c.events += len(log)
    for ei, d in log:
        c.close(ei, E(d), "cycle-energy", atol=1e-8 * (1 + abs(ei)))
        c.close(np.einsum("pq,pq->", d, I.S), m.nelectron, "cycle-electrons", atol=1e-8)
        c.close(d @ I.S @ d, 2 * d, "cycle-idempotent", atol=1e-7)
    D = mf.make_rdm1()
    c.close(e, mf.e_tot, "returned-energy", atol=1e-12)
    c.close(e, E(D), "final-energy", atol=1e-8 * (1 + abs(e)))
    parts = getattr(mf, "scf_summary", {})
    if "e1" in parts and "e2" in parts:
        c.close(parts["e1"] + parts["e2"] + m.energy_nuc() + float(np.real(mf.qed.e_boson)), e, "energy-parts", atol=1e-7 * (1 + abs(e)),
                msg="parts in the summary of the run")
    c.close(mf.qed.z_alpha, np.einsum("kpq,pq->k", g, D), "final-displacement", atol=1e-7)
    if rng.random() < 0.25:
        # a run resumed from the checkpoint file of this one, and an evaluation without any cycle
        with tempfile.TemporaryDirectory() as d:
            mf.chkfile = os.path.join(d, "run.chk")
            mf.dump_chk(dict(mol=m, e_tot=mf.e_tot, mo_energy=mf.mo_energy, mo_coeff=mf.mo_coeff, mo_occ=mf.mo_occ))
            m2 = _mf(m, om, vec, kw, nb)
            m2.conv_tol = 1e-11
            if rng.random() < 0.5:
                m2.init_guess, m2.chkfile = "chkfile", mf.chkfile
                e2 = QD.run_scf(m2)
            else:
                m2.max_cycle = 0
                e2 = m2.kernel(dm0=m2.from_chk(mf.chkfile))
            if e2 is not None:
                c.close(e2, e, "resumed-energy", atol=1e-7 * (1 + abs(e)))
    # self-consistency, against the oracle's own derivative
    C, no = mf.mo_coeff, m.nelectron // 2
    # the energy is quadratic in the density: the difference quotient is exact.  The number of electrons is fixed, so a
    # constant added to every level (origin of the dipole) is a convention: the spacings are judged
    num = [(E(D + np.outer(v, v)) - E(D - np.outer(v, v))) / 2 for v in C.T]
    c.close(np.diff(mf.mo_energy), np.diff(num), "orbital-energies", atol=2e-4)
    for _ in range(3):
        k = rng.normal(size=(I.n, I.n))
        k = k - k.T
        import scipy.linalg as sl
        eps = 1e-4

        def rot(x):
            Cn = C @ sl.expm(x * k)
            return 2 * Cn[:, :no] @ Cn[:, :no].T
        d = (E(rot(eps)) - E(rot(-eps))) / (2 * eps)
        c.close(d, 0.0, "stationary", atol=1e-4)


def fock_states(c):
    """number-state representation of the photons (no coherent shift), also with a fixed displacement"""
    rng = c.rng
    nm = int(rng.choice([1, 1, 2]))
    name, basis, b, m, om, vec = QD.draw(rng, names=["H2", "HeH+", "LiH", "HF", "H2O", "HeLi+"], bases=["sto-3g"], nmodes=nm,
                                         gmax=0.15)
    kw = {k: v for k, v in _opts(rng).items()}
    I = QD.Ints(m)
    nb = [int(x) for x in rng.integers(1, 7, nm)]
    fixed = rng.random() < 0.4
    z = rng.normal(size=nm) * 0.3 if fixed else np.zeros(nm)
    if fixed:
        mf = _mf(m, om, vec, kw, nb, z_alpha=z.copy())
    else:
        mf = _mf(m, om, vec, kw, nb, use_cs=False)
    c.desc(mol=name, b=b, omega=om, vec=vec, opts=kw, nboson=nb, z=z, fixed=bool(fixed))
    c.cls(name, f"modes={nm}", f"fixed={fixed}")
    g, q = _ref(I, vec, kw)
    dse = kw.get("add_dse", True)

    def photon(d):
        e = 0.0
        t = np.einsum("kpq,pq->k", g, d)
        for k in range(nm):
            n = nb[k]
            a = np.diag(np.sqrt(np.arange(1, n)), 1)
            H = om[k] * np.diag(np.arange(n)) + np.sqrt(om[k] / 2) * (t[k] - z[k]) * (a + a.T)
            e += np.linalg.eigvalsh(H)[0]
        return e

    def E(d):
        return I.ehf(d) + I.dse(d, g, q, z, dse) + photon(d)
    mf.conv_tol = 1e-11
    mf.max_cycle = 200
    e = mf.kernel()
    if not mf.converged:
        raise Skip()
    D = mf.make_rdm1()
    c.close(mf.qed.z_alpha, z, "displacement-kept", atol=1e-14)
    c.close(e, E(D), "fock-state-energy", atol=2e-7 * (1 + abs(e)))
    C, no = mf.mo_coeff, m.nelectron // 2
    import scipy.linalg as sl
    for _ in range(3):
        k = rng.normal(size=(I.n, I.n))
        k = k - k.T
        eps = 1e-4

        def rot(x):
            Cn = C @ sl.expm(x * k)
            return 2 * Cn[:, :no] @ Cn[:, :no].T
        d = (E(rot(eps)) - E(rot(-eps))) / (2 * eps)
        c.close(d, 0.0, "fock-state-stationary", atol=1e-4)


FAMILIES = [
    Family("energy", energy, 700, 8000, chunk=6,
           monitors=["coupling-matrix", "displacement", "energy", "fock-is-gradient", "jk-batch", "photon-energy"]),
    Family("scf", scf, 400, 5000, chunk=4, monitors=["cycle-energy", "final-energy", "stationary", "final-displacement", "orbital-energies", "resumed-energy"]),
    Family("fock_states", fock_states, 300, 4000, chunk=4, monitors=["fock-state-energy", "fock-state-stationary"]),
]
