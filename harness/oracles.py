"""Independent reference models: determinants in the full CI space, brute-force
second quantisation, bosonic Fock space."""
import itertools
import numpy as np
import math


# ---------------------------------------------------------------- fermions --
def strings(norb, n):
    """occupation tuples in pyscf string order (by integer value)"""
    occ = list(itertools.combinations(range(norb), n))
    occ.sort(key=lambda o: sum(1 << i for i in o))
    return occ


def det_to_ci(phi, conj=False):
    """coefficients of a (non-orthogonal) Slater determinant in the string basis"""
    phi = np.asarray(phi)
    norb, n = phi.shape
    occs = strings(norb, n)
    if n == 0:
        return np.ones(1, dtype=complex)
    out = np.array([np.linalg.det(phi[list(o), :]) for o in occs], dtype=complex)
    return out.conj() if conj else out


def det2ci(phia, phib):
    return np.outer(det_to_ci(phia), det_to_ci(phib))


class Fock:
    """dense matrices of fermionic operators for one spin sector, built bit by bit
    (no use of pyscf / openms)"""

    def __init__(self, norb, n):
        self.norb, self.n = norb, n
        self.occ = strings(norb, n)
        self.idx = {o: i for i, o in enumerate(self.occ)}
        self.dim = len(self.occ)
        self._E = {}

    def E(self, p, q):
        """a_p^+ a_q"""
        if (p, q) in self._E:
            return self._E[p, q]
        M = np.zeros((self.dim, self.dim))
        for j, o in enumerate(self.occ):
            if q not in o:
                continue
            k = o.index(q)
            rest = o[:k] + o[k + 1:]
            if p in rest:
                continue
            pos = sum(1 for x in rest if x < p)
            new = rest[:pos] + (p,) + rest[pos:]
            M[self.idx[new], j] += (-1) ** (k + pos)
        self._E[p, q] = M
        return M

    def one(self, h):
        M = np.zeros((self.dim, self.dim), dtype=np.result_type(h, float))
        for p in range(self.norb):
            for q in range(self.norb):
                if h[p, q] != 0:
                    M = M + h[p, q] * self.E(p, q)
        return M


class Electrons:
    """H = sum h_pq a+_p a_q + 1/2 sum (pq|rs) a+_p a+_r a_s a_q in the (na, nb) sector.
    CI vectors are (dim_a, dim_b) arrays."""

    def __init__(self, norb, na, nb):
        self.norb, self.na, self.nb = norb, na, nb
        self.A, self.B = Fock(norb, na), Fock(norb, nb)
        self.shape = (self.A.dim, self.B.dim)
        self.dim = self.A.dim * self.B.dim

    def one_ci(self, h, ci, hb=None):
        hb = h if hb is None else hb
        return self.A.one(h) @ ci + ci @ self.B.one(hb).T

    def Epq_ci(self, p, q, ci):
        return self.A.E(p, q) @ ci + ci @ self.B.E(p, q).T

    def H_ci(self, h, eri, ci, hb=None):
        n = self.norb
        hb = h if hb is None else hb
        out = self.one_ci(h, ci, hb)
        # 1/2 sum (pq|rs) (E_pq E_rs - delta_qr E_ps)
        k = -0.5 * np.einsum("pqqs->ps", eri)
        out = out + self.one_ci(k, ci)
        Ers = np.array([[self.Epq_ci(r, s, ci) for s in range(n)] for r in range(n)])
        t = 0.5 * np.einsum("pqrs,rsAB->pqAB", eri, Ers)
        for p in range(n):
            for q in range(n):
                out = out + self.Epq_ci(p, q, t[p, q])
        return out

    def dense(self, fn):
        M = np.zeros((self.dim, self.dim), dtype=complex)
        for j in range(self.dim):
            e = np.zeros(self.dim)
            e[j] = 1
            M[:, j] = np.asarray(fn(e.reshape(self.shape))).ravel()
        return M

    def H_dense(self, h, eri, hb=None):
        n = self.norb
        hb = h if hb is None else hb
        Ia, Ib = np.eye(self.A.dim), np.eye(self.B.dim)
        E = [[np.kron(self.A.E(p, q), Ib) + np.kron(Ia, self.B.E(p, q)) for q in range(n)] for p in range(n)]
        k = -0.5 * np.einsum("pqqs->ps", eri)
        H = np.kron(self.A.one(h + k), Ib) + np.kron(Ia, self.B.one(hb + k))
        for p in range(n):
            for q in range(n):
                T = np.einsum("rs,rsij->ij", 0.5 * eri[p, q], np.array(E))
                H = H + E[p][q] @ T
        return H


# ---------------------------------------------------------------- bosons ----
def ladder(n):
    """annihilation operator on n Fock states"""
    return np.diag(np.sqrt(np.arange(1, n)), k=1)


def displacement(n, alpha, pad=60):
    """<m|exp(alpha (b^+ - b))|k> restricted to n states (alpha real)"""
    from scipy.linalg import expm

    a = ladder(n + pad)
    return expm(alpha * (a.T - a))[:n, :n]


# ------------------------------------------------------------ brute overlaps
def mixed(trial_ci, walker_ci, op_walker_ci):
    return np.vdot(trial_ci, op_walker_ci) / np.vdot(trial_ci, walker_ci)
