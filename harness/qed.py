"""Independent Pauli-Fierz mean-field oracle (own contractions of bare PySCF integrals)."""
import numpy as np
from . import systems as S

BASES = ["sto-3g", "6-31g"]
CLOSED = ["H2", "HeH+", "LiH", "HF", "H2O", "H4", "H3+", "HeLi+", "BH"]
SMALL = ["H2", "HeH+", "H3+", "HeLi+", "LiH", "H4"]


class Ints:
    """bare integrals of a molecule"""

    _cache = {}

    def __init__(self, m):
        self.m = m
        self.S = m.intor("int1e_ovlp")
        self.h = m.intor("int1e_kin") + m.intor("int1e_nuc")
        if m.has_ecp():
            self.h = self.h + m.intor("ECPscalar")
        self.eri = m.intor("int2e")
        self.enuc = m.energy_nuc()
        self.n = m.nao_nr()
        self.N = m.nelectron
        self.r0 = m.intor("int1e_r", comp=3)
        self.rr0 = m.intor("int1e_rr").reshape(3, 3, self.n, self.n)

    def origin(self, add_nuc=True, shift=None):
        o = np.zeros(3)
        if add_nuc:
            q = self.m.atom_charges()
            o = o + q @ self.m.atom_coords() / q.sum()
        if shift is not None:
            o = o - np.asarray(shift)
        return o

    def g(self, vec, add_nuc=True, shift=None):
        """lambda.D matrices of the modes; vec[k] = lambda_k * unit vector; D = -(r - origin)"""
        o = self.origin(add_nuc, shift)
        r = self.r0 - o[:, None, None] * self.S
        return -np.einsum("kx,xpq->kpq", vec, r)

    def q(self, vec, add_nuc=True, shift=None):
        """<p|(lambda.(r-origin))^2|q> of the modes"""
        o = self.origin(add_nuc, shift)
        rr = (self.rr0 - np.einsum("x,ypq->xypq", o, self.r0) - np.einsum("y,xpq->xypq", o, self.r0)
              + np.einsum("x,y,pq->xypq", o, o, self.S))
        return np.einsum("kx,ky,xypq->kpq", vec, vec, rr)

    def q_ri(self, g):
        si = np.linalg.inv(self.S)
        return np.einsum("kpr,rs,ksq->kpq", g, si, g)

    def ehf(self, D):
        J = np.einsum("pqrs,rs->pq", self.eri, D)
        K = np.einsum("prsq,rs->pq", self.eri, D)
        return np.einsum("pq,pq->", self.h, D) + 0.5 * np.einsum("pq,pq->", J - 0.5 * K, D) + self.enuc

    def dse(self, D, g, q, z, on=True):
        """1/2 sum_k < (lambda_k.D - z_k)^2 > for a closed-shell density; without the self-energy term of the Hamiltonian
        (on=False) only the displacement is left"""
        e = 0.0
        if not on:
            t = np.einsum("kpq,pq->k", g, D)
            return float(np.sum(0.5 * np.asarray(z) ** 2 - z * t))
        for k in range(len(g)):
            t = np.einsum("pq,pq->", g[k], D)
            two = t * t - 0.5 * np.einsum("pq,qr,rs,sp->", g[k], D, g[k], D)
            e += 0.5 * (np.einsum("pq,pq->", q[k], D) + two - 2 * z[k] * t + z[k] ** 2)
        return e

    def orth(self):
        w, v = np.linalg.eigh(self.S)
        return v / np.sqrt(w) @ v.T


def rand_dm(rng, I, nocc, base=None, amp=None):
    """idempotent closed-shell density of random orbitals"""
    X = I.orth()
    if base is None or rng.random() < 0.3:
        C = X @ np.linalg.qr(rng.normal(size=(I.n, I.n)))[0]
    else:
        amp = float(rng.choice([0.05, 0.3, 1.0])) if amp is None else amp
        k = rng.normal(size=(I.n, I.n)) * amp
        k = k - k.T
        import scipy.linalg as sl
        C = base @ sl.expm(k)
    return 2 * C[:, :nocc] @ C[:, :nocc].T, C


def draw(rng, names=None, bases=None, nmodes=None, gmax=0.3):
    name = str(rng.choice(names or CLOSED))
    basis = str(rng.choice(bases or BASES, p=None if bases else [0.75, 0.25]))
    b = float(S.MOLS[name][1] * rng.uniform(0.85, 1.3))
    shift = rng.normal(size=3) * float(rng.choice([0.0, 1.0, 5.0]))
    R = S.rotation(rng) if rng.random() < 0.7 else None
    m = S.mol(name, basis, b=b, rot=R, shift=shift)
    how, m = S.variant(rng, m, 0.15)
    if how != "plain":
        basis = how
    nm = int(rng.choice([1, 1, 2, 3])) if nmodes is None else nmodes
    om, vec = S.rand_modes(rng, nm, gmin=0.005, gmax=gmax)
    return name, basis, b, m, om, vec


def scf_aids(rng, mf, diis=True):
    """Convergence aids of a self-consistent run: they change the way to the solution, never the solution."""
    out = {}
    if rng.random() < 0.5:
        return out
    if rng.random() < 0.5:
        out["level_shift"] = float(rng.uniform(0.05, 0.5))
    if rng.random() < 0.5:
        out["damp"] = float(rng.uniform(0.05, 0.5))
        # the variational parameters of the transformed methods run away when their DIIS starts late
        out["diis_start_cycle"] = int(rng.integers(1, 6 if diis else 3))
    if diis and rng.random() < 0.3:
        out["diis"] = None
    elif rng.random() < 0.3:
        out["diis_space"] = int(rng.integers(4, 12))
    if rng.random() < 0.3:
        out["max_memory"] = 0      # repulsion integrals are not stored
        out["direct_scf"] = bool(rng.random() < 0.5)
    if rng.random() < 0.3:
        out["init_guess"] = str(rng.choice(["minao", "atom", "1e", "huckel"]))
    for k, v in out.items():
        setattr(mf, k, v)
    return out


def run_scf(mf, **kw):
    """kernel(); None when PySCF's DIIS meets singular equations (LAPACK gives up, or its handler names a module numpy no longer has)"""
    try:
        return mf.kernel(**kw)
    except (AttributeError, np.linalg.LinAlgError) as ex:
        tb, inside = ex.__traceback__, False
        while tb is not None:
            inside |= tb.tb_frame.f_code.co_filename.endswith("pyscf/lib/diis.py")
            tb = tb.tb_next
        if inside:
            return None
        raise
