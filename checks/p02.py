"""P02 physical invariances of cavity mean-field calculations (QED-HF, SC-QED-HF, VT-QED-HF)."""
import numpy as np
from harness.vp import Family, Skip
from harness import systems as S, qed as QD

ASSUMPTIONS = ["closed-shell molecules in minimal or split-valence bases", "runs that do not report convergence are not judged",
               "both members of a pair start from the same density, so that they follow the same SCF branch"]
BUDGET = {"quick": 300, "thorough": 1500}
NAMES = ["H2", "HeH+", "LiH", "HF", "H2O", "H4", "H3+", "HeLi+", "BH"]


def run(kind, m, om, vec, dm0=None, **kw):
    from openms.mqed import qedhf, scqedhf, vtqedhf

    cls = {"qed": qedhf, "sc": scqedhf, "vt": vtqedhf}[kind].RHF
    mf = cls(m, omega=np.array(om, dtype=float), vec=np.array(vec, dtype=float), **kw)
    mf.verbose = 0
    mf.chkfile = None
    mf.conv_tol = 1e-10
    mf.max_cycle = 250 if kind == "qed" else 1200
    mf.kernel(dm0=dm0)
    if not mf.converged:
        raise Skip()
    return mf


def rhf(m):
    from pyscf import scf

    mf = scf.RHF(m)
    mf.conv_tol = 1e-11
    mf.kernel()
    if not mf.converged:
        raise Skip()
    return mf


def zero_coupling(c):
    rng = c.rng
    kind = str(rng.choice(["qed", "sc", "vt"]))
    name, basis, b, m, om, vec = QD.draw(rng, names=NAMES if kind == "qed" else QD.SMALL, bases=["sto-3g"],
                                         nmodes=None if kind == "qed" else 1)
    c.desc(kind=kind, mol=name, b=b, omega=om)
    c.cls(kind, name, f"modes={len(om)}")
    ref = rhf(m)
    dm0 = ref.make_rdm1()
    if kind == "qed":
        mf = run("qed", m, om, vec * 0.0, dm0)
        tol = 1e-8
    else:
        # zero vector is not a usable dipole basis for the transformed methods: approach the limit quadratically
        kw = {} if kind == "sc" else {"couplings_var": np.array([float(rng.uniform(0.1, 0.95))])}
        lam = 1e-4
        v = vec / np.linalg.norm(vec) * lam
        mf = run(kind, m, om, v, dm0, **kw)
        tol = 1e-6
    c.close(mf.e_tot, ref.e_tot, "bare-limit-energy", atol=tol)
    c.close(mf.make_rdm1(), dm0, "bare-limit-density", atol=1e-3)


def _D(mf):
    return mf.make_rdm1()


def qed_pairs(c):
    """pairs of runs that have to give the same energy"""
    rng = c.rng
    name, basis, b, m, om, vec = QD.draw(rng, names=NAMES, bases=["sto-3g", "sto-3g", "6-31g"])
    nm = len(om)
    e0 = rhf(m)
    nb = [int(x) for x in rng.integers(1, 4, nm)]
    complete = bool(rng.random() < 0.6)
    kw = dict(nboson_states=list(nb), complete_basis=complete)
    A = run("qed", m, om, vec, e0.make_rdm1(), **kw)
    D = A.make_rdm1()
    what = str(rng.choice(["rotate", "translate", "sign", "permute", "split", "omega", "origin", "gfac", "isospectral"]))
    c.desc(what=what, mol=name, basis=basis, b=b, omega=om, vec=vec, nb=nb, complete=complete)
    c.cls(what, name, f"modes={nm}", f"complete={complete}")
    from pyscf import gto

    def remake(xyz):
        return gto.M(atom=[(m.atom_symbol(i), xyz[i]) for i in range(m.natm)], basis=m.basis, ecp=m.ecp, cart=m.cart, unit="Bohr",
                     charge=m.charge, spin=0, verbose=0)
    m2, om2, vec2, kw2, dm0 = m, om, vec, dict(kw), D
    if what == "rotate":
        R = S.rotation(rng)
        m2 = remake(m.atom_coords() @ R.T)
        vec2 = vec @ R.T
        dm0 = None
    elif what == "translate":
        m2 = remake(m.atom_coords() + rng.normal(size=3) * 6)
    elif what == "sign":
        vec2 = vec * rng.choice([-1, 1], nm)[:, None]
        if np.array_equal(vec2, vec):
            vec2 = -vec
    elif what == "permute":
        p = rng.permutation(nm)
        om2, vec2 = om[p], vec[p]
        kw2["nboson_states"] = [nb[i] for i in p]
    elif what == "split":
        k = int(rng.integers(nm))
        t = rng.uniform(0.2, 1.3)
        om2 = np.append(om, rng.uniform(0.1, 1))
        vec2 = np.vstack([vec, vec[k] * np.sin(t)])
        vec2[k] = vec[k] * np.cos(t)
        kw2["nboson_states"] = nb + [1]
    elif what == "omega":
        om2 = rng.uniform(0.05, 2, nm)
    elif what == "origin":
        kw2["origin_shift"] = rng.normal(size=3) * 4
    elif what == "gfac":
        kw2["gfac"] = np.linalg.norm(vec, axis=1)
        vec2 = vec * rng.uniform(0.1, 9, nm)[:, None]
    elif what == "isospectral":
        # a rotation in the space of the modes leaves sum_k (lambda_k.D)^2 unchanged
        if nm == 1:
            om2 = np.append(om, 0.7)
            vec2 = np.vstack([vec, np.zeros(3)])
            kw2["nboson_states"] = nb + [1]
        n2 = len(om2)
        Q = np.linalg.qr(rng.normal(size=(n2, n2)))[0]
        vec2 = Q @ vec2
    B = run("qed", m2, om2, vec2, dm0, **kw2)
    c.close(B.e_tot, A.e_tot, "same-energy", atol=2e-7 if what != "rotate" else 2e-6, msg=what)
    # the self-energy of the cavity never lowers the energy below the bare one of the same density
    I = QD.Ints(m)
    bare = I.ehf(D)
    c.ok(A.e_tot >= bare - 1e-8, "self-energy-non-negative", "", e=A.e_tot, bare=bare)
    c.ok(A.e_tot >= e0.e_tot - 1e-7, "above-bare-minimum", "", e=A.e_tot, bare=e0.e_tot)


def monotone(c):
    """stronger coupling never lowers the QED-HF energy; weak coupling is quadratic"""
    rng = c.rng
    name, basis, b, m, om, vec = QD.draw(rng, names=NAMES, bases=["sto-3g"], gmax=0.2)
    e0 = rhf(m)
    D = e0.make_rdm1()
    f = np.sort(rng.uniform(0.1, 2.0, 4))
    c.desc(mol=name, b=b, omega=om, vec=vec, f=f)
    es = []
    d = D
    for x in f:
        mf = run("qed", m, om, vec * x, d)
        d = mf.make_rdm1()
        es.append(mf.e_tot)
    c.ok(np.all(np.diff(es) >= -1e-8) and es[0] >= e0.e_tot - 1e-8, "monotone-in-coupling", "", energies=es, bare=e0.e_tot)
    x = 1e-2
    mf = run("qed", m, om, vec * x, D)
    I = QD.Ints(m)
    g, q = I.g(vec * x), I.q(vec * x)
    pert = I.dse(D, g, q, np.einsum("kpq,pq->k", g, D))
    c.close(mf.e_tot - e0.e_tot, pert, "weak-coupling-limit", atol=1e-7 + 0.02 * abs(pert))


def var_pairs(c):
    """transformed methods: same physics under rigid motion, polarization sign, and for the coherent part origin shifts"""
    rng = c.rng
    kind = str(rng.choice(["sc", "vt"]))
    name = str(rng.choice(["HeH+", "H2", "HeLi+", "LiH"]))
    m = S.mol(name, "sto-3g", b=float(S.MOLS[name][1] * rng.uniform(0.9, 1.2)), rot=S.rotation(rng), shift=rng.normal(size=3))
    om, vec = S.rand_modes(rng, 1, gmin=0.03, gmax=0.15, wmin=0.2)
    kw = {} if kind == "sc" else {"couplings_var": np.array([float(rng.uniform(0.15, 0.95))])}
    what = str(rng.choice(["rotate", "translate", "sign", "gfac"]))
    c.desc(kind=kind, what=what, mol=name, omega=om, vec=vec, **{k: float(v[0]) for k, v in kw.items()})
    c.cls(kind, what, name)
    A = run(kind, m, om, vec, None, **{k: v.copy() for k, v in kw.items()})
    from pyscf import gto
    m2, vec2 = m, vec
    xyz = m.atom_coords()
    if what == "rotate":
        R = S.rotation(rng)
        xyz = xyz @ R.T
        vec2 = vec @ R.T
    elif what == "translate":
        xyz = xyz + rng.normal(size=3) * 5
    elif what == "sign":
        vec2 = -vec
    if what in ("rotate", "translate"):
        m2 = gto.M(atom=[(m.atom_symbol(i), xyz[i]) for i in range(m.natm)], basis="sto-3g", unit="Bohr", charge=m.charge,
                   spin=0, verbose=0)
    if what == "gfac":
        kw["gfac"] = np.linalg.norm(vec, axis=1)
        vec2 = vec * float(rng.uniform(0.2, 5))
    B = run(kind, m2, om, vec2, None, **kw)
    c.close(B.e_tot, A.e_tot, "transformed-same-energy", atol=2e-5, msg=what)


FAMILIES = [
    Family("zero_coupling", zero_coupling, 160, 1500, chunk=3, monitors=["bare-limit-energy", "bare-limit-density"]),
    Family("qed_pairs", qed_pairs, 400, 4000, chunk=5, monitors=["same-energy", "self-energy-non-negative"]),
    Family("monotone", monotone, 80, 800, chunk=3, monitors=["monotone-in-coupling", "weak-coupling-limit"]),
    Family("var_pairs", var_pairs, 80, 800, chunk=2, monitors=["transformed-same-energy"]),
]
