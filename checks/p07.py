"""P07 dressed integrals handed from the cavity mean field to post-Hartree-Fock methods."""
import numpy as np
from harness.vp import Family, Skip
from harness import systems as S, qed as QD

ASSUMPTIONS = ["closed-shell references; coherent-state photons; up to 13 basis functions",
               "post-HF Hartree-Fock energies of the integral object are documented upstream as valid for bare references only and are not judged"]
BUDGET = {"quick": 300, "thorough": 1500}


def make(m, om, vec, shift=False, nb=1, **kw):
    from openms.mqed import qedhf
    from openms.lib import boson

    q = boson.Photon(m, omega=om.copy(), vec=vec.copy(), nboson_states=nb, shift=shift, **kw)
    mf = qedhf.RHF(m, qed=q)
    q._mf = mf
    mf.verbose = 0
    mf.chkfile = None
    mf.conv_tol = 1e-11
    mf.max_cycle = 150
    return mf, q


def bd(a):
    z = np.zeros_like(a)
    return np.block([[a, z], [z, a]])


def posthf(c):
    rng = c.rng
    name, basis, b, m, om, vec = QD.draw(rng, names=["H2", "HeH+", "LiH", "H4", "HeLi+", "H3+", "HF"], bases=["sto-3g"])
    shift = bool(rng.random() < 0.4)
    kw = {}
    if rng.random() < 0.4:
        kw["complete_basis"] = False
    if rng.random() < 0.3:
        kw["origin_shift"] = rng.normal(size=3)
    mf, q = make(m, om, vec, shift, **kw)
    nm = len(om)
    I = QD.Ints(m)
    n, no = I.n, m.nelectron // 2
    c.desc(mol=name, b=b, omega=om, vec=vec, shift=shift, opts=kw)
    c.cls(name, f"modes={nm}", f"shift={shift}")
    converge = rng.random() < 0.6
    if converge:
        mf.kernel()
        if not mf.converged:
            raise Skip()
        C = mf.mo_coeff
        D = mf.make_rdm1()
    else:
        D, C = QD.rand_dm(rng, I, no)
        mf.mo_coeff = C
        mf.mo_occ = np.array([2.0] * no + [0.0] * (n - no))
        q.update_cs(D)
        q.update_boson_coeff(D)
    g = I.g(vec, True, kw.get("origin_shift"))
    qq = I.q(vec, True, kw.get("origin_shift")) if kw.get("complete_basis", True) else I.q_ri(g)
    hk = mf.get_hcore().copy()
    q.kernel()
    G = np.sqrt(om / 2)[:, None, None] * g
    z = np.einsum("kpq,pq->k", g, D)
    # ---- coupling
    Gso = np.array([bd(x) for x in G])
    c.close(q.gmatso, Gso, "spin-orbital-coupling", atol=1e-8 * (1 + np.abs(G).max()))
    if shift:
        xi = np.einsum("kpq,pq->k", G, D) / om
        c.close(q.xi, xi, "mean-field-shift", atol=1e-8 * (1 + np.abs(xi).max()))
        c.close(q.const, -np.sum(om * xi ** 2), "shift-constant", atol=1e-7 * (1 + np.sum(om * xi ** 2)))
    mG = q.mfG()
    ref = np.zeros(nm) if shift else np.einsum("kpq,pq->k", G, D)
    for x in mG:
        c.close(x, ref, "mean-field-coupling", atol=1e-8 * (1 + np.abs(ref).max()))
    Cso = bd(C)
    o = list(range(no)) + list(range(n, n + no))
    v = list(range(no, n)) + list(range(n + no, 2 * n))
    Co, Cv = Cso[:, o], Cso[:, v]
    gb, hb = q.gint()
    for blk in (gb, hb):
        for nmk, L, R in (("oo", Co, Co), ("ov", Co, Cv), ("vo", Cv, Co), ("vv", Cv, Cv)):
            r = np.einsum("kpq,pi,qj->kij", Gso, L, R)
            c.close(getattr(blk, nmk), r, "coupling-blocks", atol=1e-8 * (1 + np.abs(G).max()))
    # ---- Fock
    J = np.einsum("pqrs,rs->pq", I.eri, D) + np.einsum("kpq,k->pq", g, z)
    K = np.einsum("prsq,rs->pq", I.eri, D) + np.einsum("kpr,rs,ksq->pq", g, D, g)
    F = I.h + J - 0.5 * K
    if not shift:
        # one-body self energy and coherent displacement; constants ride on the overlap
        F = F + 0.5 * qq.sum(0) - np.einsum("k,kpq->pq", z, g) + 0.5 * np.sum(z ** 2) / m.nelectron * I.S
    Fm = bd(F)
    if shift:
        Fm = Fm - 2 * np.einsum("k,kpq->pq", xi, Gso)
    for rep in range(2):   # asking twice gives the same answer
        f = q.g_fock()
        for nmk, L, R in (("oo", Co, Co), ("ov", Co, Cv), ("vo", Cv, Co), ("vv", Cv, Cv)):
            c.close(getattr(f, nmk), L.T @ Fm @ R, "fock-blocks", atol=1e-7 * (1 + np.abs(Fm).max()), msg=f"{nmk} call {rep}")
    c.close(mf.get_hcore(), hk, "core-untouched", atol=0)
    if converge and not shift:
        c.close(f.ov, np.zeros_like(f.ov), "brillouin", atol=1e-4)
        c.close(np.diag(f.oo), np.tile(mf.mo_energy[:no], 2), "orbital-energies", atol=1e-5)
        c.close(np.diag(f.vv), np.tile(mf.mo_energy[no:], 2), "orbital-energies", atol=1e-5)
    # ---- interaction
    er = I.eri + np.einsum("kpq,krs->pqrs", g, g)
    er = np.einsum("pi,qj,rk,sl,pqrs->ijkl", C, C, C, C, er, optimize=True)
    so = np.zeros((2 * n,) * 4)
    a, b_ = slice(0, n), slice(n, 2 * n)
    for s1 in (a, b_):
        for s2 in (a, b_):
            so[s1, s1, s2, s2] = er
    anti = so.transpose(0, 2, 1, 3) - so.transpose(0, 2, 3, 1)
    full = q.get_I(full=True)
    tol = 1e-7 * (1 + np.abs(anti).max())
    c.close(full, anti, "antisymmetrised-interaction", atol=tol)
    blk = q.get_I()
    sel = {"o": o, "v": v}
    for nmk in ("vvvv", "vvvo", "vovv", "vvoo", "oovv", "vovo", "vooo", "ooov", "oooo"):
        c.close(getattr(blk, nmk), anti[np.ix_(*[sel[x] for x in nmk])], "interaction-blocks", atol=tol, msg=nmk)
    c.close(I.m.intor("int2e"), I.eri, "molecule-untouched", atol=0)


def pieces(c):
    """AO building blocks: dipole, quadrupole, polarised, bilinear, self-energy J/K"""
    rng = c.rng
    name, basis, b, m, om, vec = QD.draw(rng)
    kw = {}
    if rng.random() < 0.4:
        kw["add_nuc_dipole"] = False
    if rng.random() < 0.5:
        kw["origin_shift"] = rng.normal(size=3)
    mf, q = make(m, om, vec, **kw)
    nm = len(om)
    I = QD.Ints(m)
    c.desc(mol=name, basis=basis, b=b, omega=om, vec=vec, opts=kw)
    c.cls(name, basis, f"modes={nm}", *kw)
    an, os_ = kw.get("add_nuc_dipole", True), kw.get("origin_shift")
    o = I.origin(an, os_)
    r = I.r0 - o[:, None, None] * I.S
    rr = (I.rr0 - np.einsum("x,ypq->xypq", o, I.r0) - np.einsum("y,xpq->xypq", o, I.r0) + np.einsum("x,y,pq->xypq", o, o, I.S))
    sc = 1 + np.abs(rr).max()
    c.close(q.get_dipole_ao(), -r, "dipole", atol=1e-9 * sc)
    c.close(np.array(q.get_quadrupole_ao()), -rr.reshape(9, I.n, I.n), "second-moment", atol=1e-9 * sc)
    g, qq = I.g(vec, an, os_), I.q(vec, an, os_)
    lam = np.linalg.norm(vec, axis=1)
    for k in range(nm):
        c.close(q.get_polarized_dipole_ao(k) * lam[k], g[k], "polarised-dipole", atol=1e-9 * sc)
        c.close(q.get_geb_ao(k), np.sqrt(om[k] / 2) * g[k], "bilinear-coupling", atol=1e-9 * sc)
    q.get_gmatao()
    c.close(q.gmat, g, "coupling-matrix", atol=1e-9 * sc)
    c.close(q.get_gmat_ao(), g, "coupling-matrix", atol=1e-9 * sc)
    q.quadrupole_ao = q.get_quadrupole_ao()
    c.close(q.get_q_lambda_ao(), -qq, "self-energy-moment", atol=1e-9 * sc)
    c.close(q.couplings_bilinear, lam * np.sqrt(om / 2), "prefactors", atol=1e-12)
    c.close(q.couplings_self, lam ** 2 / 2, "prefactors", atol=1e-12)
    D = [QD.rand_dm(rng, I, m.nelectron // 2)[0] for _ in range(int(rng.integers(1, 4)))]
    A = rng.normal(size=(I.n, I.n))
    D.append(A + A.T)                           # any symmetric matrix
    D = np.array(D)
    f = rng.uniform(0, 1, nm)
    q.couplings_var = f.copy()
    q.update_couplings()
    for obj in (q, mf):
        for res in (False, True):
            w = (1 - f) ** 2 if res else np.ones(nm)
            J = np.einsum("k,kpq,krs,dsr->dpq", w, g, g, D)
            K = np.einsum("k,kpr,ksq,dsr->dpq", w, g, g, D)
            t = 1e-8 * (1 + max(np.abs(J).max(), np.abs(K).max()))
            dj, dk = obj.get_dse_jk(D, residue=res)[:2]
            c.close(dj, J, "self-energy-coulomb", atol=t)
            c.close(dk, K, "self-energy-exchange", atol=t)
            dj, dk = obj.get_dse_jk(D[0], residue=res)[:2]
            c.close(dj, J[0], "self-energy-coulomb", atol=t)
            c.close(dk, K[0], "self-energy-exchange", atol=t)


FAMILIES = [
    Family("posthf", posthf, 240, 3000, chunk=4,
           monitors=["spin-orbital-coupling", "mean-field-coupling", "coupling-blocks", "fock-blocks", "brillouin", "antisymmetrised-interaction",
                     "interaction-blocks", "mean-field-shift"]),
    Family("pieces", pieces, 200, 2500, chunk=6,
           monitors=["dipole", "second-moment", "bilinear-coupling", "coupling-matrix", "self-energy-moment", "self-energy-coulomb",
                     "self-energy-exchange"]),
]
