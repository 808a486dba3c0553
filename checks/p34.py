"""P34 cavity set-ups mean what was asked for, refuse what they cannot mean, and evaluations do not depend on history."""
import copy
import numpy as np
from harness import vp
from harness.vp import Family, Skip
from harness import systems as S, qed as QD

ASSUMPTIONS = ["closed-shell molecules of up to 13 basis functions; histories of up to eight evaluations on one object"]
BUDGET = {"quick": 300, "thorough": 1500}


def _same(a, b):
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b)
    return type(a) is type(b) and a == b


def _form(rng, a, ints=False):
    """the same numbers as array, list or integer array"""
    k = int(rng.integers(0, 3))
    if ints and k == 2:
        return np.array(a, dtype=int)
    return np.array(a, dtype=float) if k else np.array(a, dtype=float).tolist()


def setup(c):
    """couplings, polarizations and photon spaces of the object are those of the arguments"""
    from openms.lib import boson
    from openms.mqed import qedhf, scqedhf, vtqedhf

    rng = c.rng
    name = str(rng.choice(["H2", "HeH+", "LiH", "H2O"]))
    m = S.mol(name, "sto-3g")
    nm = int(rng.choice([1, 1, 2, 3, 5]))
    om = rng.uniform(0.02, 2, nm)
    ints = rng.random() < 0.25
    if ints:
        vec = rng.integers(-3, 4, (nm, 3)).astype(float)
        vec[np.abs(vec).sum(1) == 0, 2] = 1
    else:
        vec = rng.normal(size=(nm, 3)) * 10 ** rng.uniform(-4, 1)
        if nm > 1 and rng.random() < 0.2:
            vec[int(rng.integers(nm))] = 0
    gfac = rng.uniform(0, 0.5, nm) if rng.random() < 0.4 else None
    args = dict(omega=_form(rng, om), vec=_form(rng, vec, ints))
    if nm == 1 and rng.random() < 0.3:
        args["omega"] = float(om[0])
    if gfac is not None:
        args["gfac"] = _form(rng, gfac)
    nb = int(rng.integers(1, 7))
    nbs = np.full(nm, nb)
    if rng.random() < 0.5:
        nbs = rng.integers(1, 7, nm)
        nb = [int(x) for x in nbs] if rng.random() < 0.5 or nm == 0 else np.array(nbs)
        if isinstance(nb, np.ndarray):
            nb = nb.tolist()
    args["nboson_states"] = nb
    z = rng.normal(size=nm) if rng.random() < 0.3 else None
    if z is not None:
        args["z_alpha"] = _form(rng, z)
    shift = rng.normal(size=3) * 3 if rng.random() < 0.3 else None
    if shift is not None:
        args["origin_shift"] = _form(rng, shift)
    kind = str(rng.choice(["photon", "phonon", "qed", "sc", "vt"]))
    var = None
    if kind == "vt" and rng.random() < 0.5:
        var = rng.uniform(0, 1, nm)
        args["couplings_var"] = _form(rng, var)
    if kind in ("qed", "vt") and rng.random() < 0.3 and "complete_basis" not in args:
        args["complete_basis"] = False
    if kind in ("sc", "vt") and z is not None:
        args.pop("z_alpha")
        z = None
    c.desc(kind=kind, mol=name, omega=om, vec=vec, gfac=gfac, nb=nbs, z=z, shift=shift, var=var, forms=[f"{k}:{type(v).__name__}" for k, v in args.items()])
    c.cls(kind, f"modes={nm}", f"gfac={gfac is not None}", f"ints={ints}", *[f"{k}:{type(v).__name__}" for k, v in args.items()])
    keep = copy.deepcopy(args)
    passed = dict(args)
    if kind in ("qed", "sc", "vt") and rng.random() < 0.5:
        passed["cavity_mode"], passed["cavity_freq"] = passed.pop("vec"), passed.pop("omega")

    def make():
        if kind == "photon":
            return None, S.quiet(boson.Photon, m, **passed)
        if kind == "phonon":
            return None, S.quiet(boson.Phonon, m, **passed)
        mf = S.quiet({"qed": qedhf, "sc": scqedhf, "vt": vtqedhf}[kind].RHF, m, **passed)
        return mf, mf.qed
    for again in (False, True):
        mf, q = make()
        for k in keep:
            c.ok(_same(args[k], keep[k]), "arguments-untouched", f"argument {k} was changed", before=np.asarray(keep[k]), after=np.asarray(args[k]))
        lam = np.linalg.norm(vec, axis=1)
        unit = vec / np.where(lam > 0, lam, 1)[:, None]
        g = lam if gfac is None else gfac
        c.ok(int(q.nmodes) == nm, "modes", "number of modes", nmodes=int(q.nmodes))
        c.close(np.ravel(q.omega), om, "modes", atol=0, rtol=0, msg="frequencies")
        c.close(q.vec, unit, "modes", atol=1e-14, msg="polarization vectors")
        c.ok(list(map(int, q.nboson_states)) == list(map(int, nbs)), "photon-space", "number states per mode", got=list(map(int, q.nboson_states)))
        tag = "couplings" if not again else "couplings-on-reuse"
        c.close(q.gfac, g, tag, atol=1e-14, rtol=1e-13, msg="coupling strengths")
        c.close(q.couplings, g, tag, atol=1e-14, rtol=1e-13)
        c.close(q.couplings_bilinear, g * np.sqrt(om / 2), tag, atol=1e-14, rtol=1e-13, msg="bilinear couplings")
        c.close(q.couplings_self, g ** 2 / 2, tag, atol=1e-14, rtol=1e-13, msg="self-energy couplings")
        f = {"photon": 0.5, "phonon": 0.5, "qed": 0.0, "sc": 1.0, "vt": 0.5}[kind] * np.ones(nm) if var is None else var
        c.close(np.asarray(q.couplings_var) + np.asarray(q.couplings_res), np.ones(nm), "transformation", atol=1e-15, msg="transformed and residual fractions")
        if kind not in ("photon", "phonon"):
            c.close(np.asarray(q.couplings_var, dtype=float), f, "transformation", atol=0, rtol=0)
        if z is not None:
            c.close(q.z_alpha, z, "displacement", atol=0, rtol=0)
            c.ok(not q.use_cs, "displacement", "a given displacement is not replaced by the coherent one")
        elif kind in ("photon", "phonon", "qed"):
            c.close(q.z_alpha, np.zeros(nm), "displacement", atol=0)
            c.ok(bool(q.use_cs), "displacement", "coherent-state basis is the default")
        if shift is not None:
            c.close(q.origin_shift, shift, "modes", atol=0, rtol=0, msg="origin shift")
        if mf is not None:
            c.ok(q._mf is mf, "modes", "photon object belongs to its mean field")
        # the object owns its data
        for k in ("omega", "vec", "gfac", "z_alpha", "origin_shift"):
            a, o = args.get(k), getattr(q, k, None)
            if isinstance(a, np.ndarray) and isinstance(o, np.ndarray):
                c.ok(not np.shares_memory(a, o), "arguments-untouched", f"{k} of the object shares memory with the argument")


def refused(c):
    """arguments that have no meaning raise an error"""
    from openms.lib import boson
    from openms.mqed import qedhf

    rng = c.rng
    m = S.mol("H2", "sto-3g")
    nm = int(rng.integers(1, 4))
    om, vec = rng.uniform(0.1, 1, nm), rng.normal(size=(nm, 3))
    good = dict(omega=om, vec=vec, gfac=rng.uniform(0, 1, nm), nboson_states=[2] * nm, z_alpha=rng.normal(size=nm), origin_shift=rng.normal(size=3))
    # every part of it is accepted on its own
    S.quiet(boson.Photon, m, **good)
    what = str(rng.choice(["mol", "omega", "gfac", "vec-modes", "vec-axes", "vec-missing", "nb-zero", "nb-negative", "nb-length", "nb-type", "z", "shift", "qed", "no-vec", "no-omega"]))
    extra = int(rng.choice([-1, 1, 2]))
    k = nm + extra if nm + extra > 0 else nm + 1
    bad = dict(good)
    mol, cls, err = m, boson.Photon, ValueError
    if what == "mol":
        mol = [None, "H 0 0 0; H 0 0 1", object()][int(rng.integers(3))]
    elif what == "omega":
        bad["omega"] = [None, "0.1", {"w": 0.1}][int(rng.integers(3))]
    elif what == "gfac":
        bad["gfac"] = [rng.uniform(0, 1, k), rng.uniform(0, 1, k).tolist(), 0.1 if nm > 1 else "x"][int(rng.integers(3))]
    elif what == "vec-modes":
        bad["vec"] = rng.normal(size=(k, 3))
    elif what == "vec-axes":
        bad["vec"] = rng.normal(size=(nm, int(rng.choice([1, 2, 4]))))
    elif what == "vec-missing":
        bad["vec"] = None
    elif what in ("nb-zero", "nb-negative"):
        v = 0 if what == "nb-zero" else -int(rng.integers(1, 4))
        nb = [int(x) for x in rng.integers(1, 4, nm)]
        nb[int(rng.integers(nm))] = v
        bad["nboson_states"] = nb if rng.random() < 0.6 else v
    elif what == "nb-length":
        bad["nboson_states"] = [2] * k
    elif what == "nb-type":
        bad["nboson_states"] = [2.5, "2", None][int(rng.integers(3))]
    elif what == "z":
        bad["z_alpha"] = rng.normal(size=k)
    elif what == "shift":
        bad["origin_shift"] = rng.normal(size=int(rng.choice([1, 2, 4])))
    elif what == "qed":
        cls, bad = qedhf.RHF, dict(qed=[object(), "photon", 3][int(rng.integers(3))])
    elif what == "no-vec":
        cls, bad = qedhf.RHF, dict(omega=om)
    elif what == "no-omega":
        cls, bad = qedhf.RHF, dict(vec=vec)
    c.desc(what=what, modes=nm, bad={k: repr(v)[:80] for k, v in bad.items()})
    c.cls(what, f"modes={nm}")
    keep = copy.deepcopy({k: v for k, v in good.items()})
    c.raises(err, lambda: S.quiet(cls, mol, **bad), "refused")
    for k in keep:
        c.ok(_same(keep[k], good[k]), "arguments-untouched", f"argument {k} was changed")


def _eval(mf, m, D):
    # photon state of this density first, as in the cycles of the solver
    if mf.qed.use_cs:
        mf.qed.update_cs(D)
    mf.qed.update_boson_coeff(D)
    h = mf.get_hcore(m, D)
    v = mf.get_veff(m, D)
    e = mf.energy_tot(D, h, v)
    F = mf.get_fock(h, mf.get_ovlp(), v, D)
    return float(e), np.array(F)


def history(c):
    """energy and Fock matrix of a density do not depend on what the object evaluated before"""
    from openms.mqed import qedhf

    rng = c.rng
    name, basis, b, m, om, vec = QD.draw(rng, bases=["sto-3g", "6-31g"] if rng.random() < 0.2 else ["sto-3g"])
    I = QD.Ints(m)
    nm = len(om)
    kw = {}
    if rng.random() < 0.3:
        kw["complete_basis"] = False
    if rng.random() < 0.3:
        kw["add_nuc_dipole"] = False
    if rng.random() < 0.3:
        kw["z_alpha"] = rng.normal(size=nm) * 0.3
    nb = [int(x) for x in rng.integers(1, 4, nm)]
    no = m.nelectron // 2

    def make():
        mf = S.quiet(qedhf.RHF, m, omega=om.copy(), vec=vec.copy(), nboson_states=list(nb), **copy.deepcopy(kw))
        mf.verbose = 0
        mf.chkfile = None
        return mf
    dms = [QD.rand_dm(rng, I, no)[0] for _ in range(3)]
    A = make()
    ops = []
    g0, h0 = np.array(A.qed.gmat), np.array(A.get_bare_hcore(m))
    for _ in range(int(rng.integers(1, 8))):
        op = str(rng.choice(["eval", "eval", "kernel", "bare", "hcore", "tot", "rdm", "jk", "dse"]))
        D = dms[int(rng.integers(3))]
        ops.append(op)
        if op == "eval":
            _eval(A, m, D)
        elif op == "kernel":
            A.max_cycle = int(rng.integers(1, 6))
            S.quiet(A.kernel, dm0=D)
        elif op == "bare":
            A.get_bare_veff(m, D)
        elif op == "hcore":
            A.get_hcore(m)
        elif op == "tot":
            A.energy_tot(D)
        elif op == "rdm" and getattr(A, "mo_coeff", None) is not None:
            A.make_rdm1()
        elif op == "jk":
            A.get_jk(m, D)
        elif op == "dse":
            A.get_dse_jk(D)
        c.events += 1
    D = dms[int(rng.integers(3))]
    D0 = D.copy()
    c.desc(mol=name, basis=basis, b=b, omega=om, vec=vec, nb=nb, kw=kw, ops=ops)
    c.cls(*ops, f"modes={nm}", f"nb={max(nb)}")
    e1, F1 = _eval(A, m, D)
    B = make()
    e2, F2 = _eval(B, m, D)
    sc = 1 + abs(e2)
    c.close(e1, e2, "energy-history-independent", atol=1e-10 * sc)
    c.close(F1, F2, "fock-history-independent", atol=1e-10 * (1 + np.abs(F2).max()))
    c.close(A.qed.gmat, g0, "operators-kept", atol=0, rtol=0)
    c.close(A.get_bare_hcore(m), h0, "operators-kept", atol=0, rtol=0)
    c.ok(np.array_equal(D, D0), "arguments-untouched", "density matrix was changed")
    # the same array with another density in it
    W = dms[int(rng.integers(3))].copy()
    _eval(A, m, W)
    W[...] = dms[int(rng.integers(3))]
    e4, F4 = _eval(A, m, W)
    e5, F5 = _eval(make(), m, W.copy())
    c.close([e4], [e5], "energy-history-independent", atol=1e-10 * sc, msg="array filled with another density")
    c.close(F4, F5, "fock-history-independent", atol=1e-10 * (1 + np.abs(F5).max()), msg="array filled with another density")
    _eval(A, m, D)
    e3, F3 = _eval(A, m, D)
    c.close(F3, F1, "fock-history-independent", atol=1e-10 * (1 + np.abs(F2).max()), msg="repeated evaluation")
    c.close([e3], [e1], "energy-history-independent", atol=1e-10 * sc, msg="repeated evaluation")


def scan(c):
    """series of calculations that share their arguments equal separate ones; a second run repeats the first"""
    from openms.mqed import qedhf, scqedhf, vtqedhf

    rng = c.rng
    kind = str(rng.choice(["qed", "qed", "sc", "vt"]))
    name, basis, b, m, om, vec = QD.draw(rng, names=None if kind == "qed" else QD.SMALL, bases=["sto-3g"], nmodes=None if kind == "qed" else 1)
    cls = {"qed": qedhf, "sc": scqedhf, "vt": vtqedhf}[kind].RHF
    kw = {} if kind != "vt" else {"couplings_var": np.array([float(rng.uniform(0.1, 0.9))])}
    from pyscf import scf
    mf0 = scf.RHF(m)
    mf0.verbose = 0
    mf0.kernel()
    dm0 = mf0.make_rdm1()
    gfac = None if rng.random() < 0.5 else np.linalg.norm(vec, axis=1)

    def run(o, v, k):
        # VIOLATION only where both converge
        a = dict(omega=o, vec=v, **k)
        mf = S.quiet(cls, m, **a)
        mf.verbose, mf.chkfile, mf.conv_tol, mf.max_cycle = 0, None, 1e-10, 250 if kind == "qed" else 1200
        S.quiet(mf.kernel, dm0=dm0.copy())
        if not mf.converged:
            raise Skip()
        return mf
    c.desc(kind=kind, mol=name, b=b, omega=om, vec=vec, gfac=gfac)
    c.cls(kind, f"modes={len(om)}", f"gfac={gfac is not None}")
    k = dict(kw)
    if gfac is not None:
        k["gfac"] = gfac.copy()
    shared_v, shared_o = vec.copy(), om.copy()
    first = run(shared_o, shared_v, k)
    fresh = dict(copy.deepcopy(kw), **({"gfac": gfac.copy()} if gfac is not None else {}))
    # other calculation in between, with the same arrays
    other = run(shared_o, shared_v, k)
    again = run(om.copy(), vec.copy(), fresh)
    c.close(first.e_tot, again.e_tot, "series-energy", atol=1e-8)
    c.close(other.e_tot, again.e_tot, "series-energy", atol=1e-8, msg="second calculation with the same arrays")
    c.close(other.make_rdm1(), again.make_rdm1(), "series-density", atol=1e-4)
    if kind == "qed":
        S.quiet(first.kernel, dm0=dm0.copy())
        if first.converged:
            c.close(first.e_tot, again.e_tot, "repeated-run", atol=1e-8, msg="second run of one object")
    else:
        S.quiet(first.kernel, dm0=first.make_rdm1())
        if first.converged:
            c.close(first.e_tot, again.e_tot, "repeated-run", atol=1e-6, msg="restarted run of one object")


def neighbours(c):
    """calculations of one process on molecules and cavities that hardly differ, or altered in place: each is that of its own Hamiltonian"""
    from openms.mqed import qedhf, scqedhf, vtqedhf
    from harness import sc as SC

    rng = c.rng
    kind = str(rng.choice(["qed", "qed", "sc", "vt"]))
    cls = {"qed": qedhf, "sc": scqedhf, "vt": vtqedhf}[kind].RHF
    om, vec = S.rand_modes(rng, 1, gmin=0.02, gmax=0.3)
    log, mf = [], None
    for how, m in S.neighbours(rng, names=("H2", "HeH+", "H3+") if kind != "qed" else ("H2", "HeH+", "LiH"), n=int(rng.integers(3, 6)),
                               bases=("sto-3g", "6-31g") if kind == "qed" else ("sto-3g", "sto-3g")):
        if rng.random() < 0.3:
            om, vec = om * rng.uniform(0.7, 1.4), vec * rng.uniform(0.5, 1.5)
        log.append(how)
        I = QD.Ints(m)
        no = m.nelectron // 2
        D, C = QD.rand_dm(rng, I, no)
        kw = {} if kind == "qed" else dict(CD_anyway=bool(rng.random() < 0.4), CD_thresh=1e-9)
        if kind == "vt":
            kw["couplings_var"] = np.array([1.0])
        if mf is not None and rng.random() < 0.4:
            # the same object, moved to this molecule; its cavity stays
            om, vec = cavity
            S.quiet(mf.reset, None if mf.mol is m else m)
            log.append("reset")
        else:
            mf = S.quiet(cls, m, omega=om.copy(), vec=vec.copy(), **kw)
            mf.verbose, mf.chkfile = 0, None
            cavity = om, vec
        g = I.g(vec)
        if kind == "qed":
            e, F = _eval(mf, m, D)
            ref = I.ehf(D) + I.dse(D, g, I.q(vec), np.einsum("kpq,pq->k", g, D))
        else:
            mf.get_cholesky()
            mf.init_var_params(D)
            mf.get_h1e_DO(m, dm=D)
            h = mf.get_hcore(m, D, dress=True)
            e = float(mf.energy_tot(D, h, mf.get_veff(m, D)))
            T = SC.Transformed(I, np.array(mf.ao2dipole[0]), g[0], om[0], no)
            ref = T.energy(C, np.array(mf.eta[0]))
        c.close([e], [ref], "own-energy", atol=(1e-7 if kind == "qed" else 2e-6) * (1 + abs(ref)), msg=how)
        c.events += 1
    c.desc(kind=kind, series=log)
    c.cls(kind, *log)


def moved(c):
    """potential curves from one object (PySCF's scanner): every point is the energy of its own molecule"""
    from openms.mqed import qedhf, scqedhf, vtqedhf
    from harness import sc as SC

    rng = c.rng
    kind = str(rng.choice(["qed", "qed", "sc", "vt"]))
    cls = {"qed": qedhf, "sc": scqedhf, "vt": vtqedhf}[kind].RHF
    om, vec = S.rand_modes(rng, int(rng.integers(1, 3)) if kind == "qed" else 1, gmin=0.02, gmax=0.3 if kind == "qed" else 0.15)
    name = str(rng.choice(["H2", "HeH+", "LiH", "H4"] if kind == "qed" else ["H2", "HeH+", "HeLi+"]))
    kw = {} if kind != "vt" else {"couplings_var": np.array([1.0])}
    cd = kind != "qed" and bool(rng.random() < 0.3)
    if cd:
        kw.update(CD_anyway=True, CD_thresh=1e-9)
    b0 = S.MOLS[name][1]
    bs = [float(b0 * rng.uniform(0.8, 1.4)) for _ in range(int(rng.integers(2, 5)))]
    mf = S.quiet(cls, S.mol(name, "sto-3g", bs[0]), omega=om.copy(), vec=vec.copy(), **kw)
    mf.verbose, mf.chkfile, mf.conv_tol, mf.max_cycle = 0, None, 1e-9, 400
    curve = S.quiet(mf.as_scanner)
    curve.verbose = 0
    c.desc(kind=kind, mol=name, bonds=bs, omega=om, vec=vec, cd=cd)
    c.cls(kind, name, f"cd={cd}", f"points={len(bs)}")
    for b in bs:
        m = S.mol(name, "sto-3g", b)
        I = QD.Ints(m)
        e = S.quiet(curve, m)
        if not curve.converged:
            continue
        if kind == "qed":
            D = curve.make_rdm1()
            ref = I.ehf(D) + I.dse(D, I.g(vec), I.q(vec), np.einsum("kpq,pq->k", I.g(vec), D))
        else:
            T = SC.Transformed(I, np.array(curve.ao2dipole[0]), I.g(vec)[0], om[0], m.nelectron // 2)
            ref = T.energy(curve.mo_coeff, np.array(curve.eta[0]))
        c.close(e, ref, "moved-energy", atol=(1e-7 if kind == "qed" else 2e-6) * (1 + abs(ref)))
        c.events += 1


FAMILIES = [
    Family("setup", setup, 1800, 20000, monitors=["arguments-untouched", "modes", "couplings", "couplings-on-reuse", "photon-space", "transformation", "displacement"]),
    Family("refused", refused, 900, 6000, monitors=["refused", "arguments-untouched"]),
    Family("history", history, 480, 4000, monitors=["energy-history-independent", "fock-history-independent", "operators-kept", "arguments-untouched"]),
    Family("neighbours", neighbours, 90, 900, chunk=3, monitors=["own-energy"]),
    Family("moved", moved, 60, 800, chunk=2, monitors=["moved-energy"]),
    Family("scan", scan, 180, 1200, chunk=2, monitors=["series-energy", "series-density", "repeated-run"]),
]
