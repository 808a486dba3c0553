"""Dense electron-boson Hamiltonians (own second quantisation)."""
import numpy as np
from functools import reduce
from . import oracles as O


class EB:
    """vectors: (dim_a, dim_b, nb_1, nb_2, ...) raveled; nbs = dimensions of the modes"""

    def __init__(self, norb, na, nb, nbs):
        self.el = O.Electrons(norb, na, nb)
        self.norb, self.nbs = norb, list(nbs)
        self.nm = len(self.nbs)
        self.shape = self.el.shape + tuple(self.nbs)
        self.dim = int(np.prod(self.shape))
        self.bdim = int(np.prod(self.nbs)) if self.nm else 1
        Ia, Ib = np.eye(self.el.A.dim), np.eye(self.el.B.dim)
        self.Ie = np.eye(self.el.dim)
        self.Ibos = np.eye(self.bdim)
        n = norb
        self.E = np.array([[np.kron(self.el.A.E(p, q), Ib) + np.kron(Ia, self.el.B.E(p, q)) for q in range(n)] for p in range(n)])

    def b(self, k):
        ops = [np.eye(n) for n in self.nbs]
        ops[k] = O.ladder(self.nbs[k])
        return reduce(np.kron, ops) if ops else np.eye(1)

    def one(self, h):
        return np.kron(np.einsum("pq,pqij->ij", h, self.E), self.Ibos)

    def EE(self, v):
        """sum v_pqrs E_pq E_rs"""
        n = self.norb
        e = self.E.reshape(n * n, self.el.dim, self.el.dim)
        t = np.tensordot(v.reshape(n * n, n * n), e, 1)
        return np.kron(np.einsum("xij,xjk->ik", e, t), self.Ibos)

    def two(self, eri):
        """1/2 sum (pq|rs) a+_p a+_r a_s a_q"""
        return 0.5 * (self.EE(eri) - self.one(np.einsum("pqqs->ps", eri)))

    def bb(self, W):
        H = np.zeros((self.bdim, self.bdim))
        for i in range(self.nm):
            for j in range(self.nm):
                if W[i, j] != 0:
                    H = H + W[i, j] * self.b(i).T @ self.b(j)
        return np.kron(self.Ie, H)

    def bshift(self, x):
        """sum_k x_k (b_k + b_k^+)"""
        H = np.zeros((self.bdim, self.bdim))
        for k in range(self.nm):
            H = H + x[k] * (self.b(k) + self.b(k).T)
        return np.kron(self.Ie, H)

    def eb(self, g):
        H = np.zeros((self.dim, self.dim))
        for k in range(self.nm):
            H = H + np.kron(np.einsum("pq,pqij->ij", g[k], self.E), self.b(k) + self.b(k).T)
        return H
