"""Dense projected coupled-cluster residuals for electrons (spin orbitals) coupled to bosons.

The Hamiltonian is normal ordered with respect to the reference determinant; amplitudes follow
T = sum t_ai a+i + 1/4 t_abij a+b+ji + sum_k 1/k! s_I.. b+_I.. + 1/k! u_I..ai a+i b+_I.. + 1/(4 k!) u_I..abij ..."""
import itertools
import math
import numpy as np
import scipy.sparse as sp
from scipy.special import comb  # noqa


class Space:
    def __init__(self, no, nv, nm, cut):
        self.no, self.nv, self.nm = no, nv, nm
        n = no + nv
        dets = list(itertools.combinations(range(n), no))
        self.idx = {d: i for i, d in enumerate(dets)}
        self.dets, self.n = dets, n
        bos = [b for b in itertools.product(range(cut + 1), repeat=nm) if sum(b) <= cut]
        self.bidx = {b: i for i, b in enumerate(bos)}
        self.bos = bos
        self.E = {}
        for p in range(n):
            for q in range(n):
                r, c, v = [], [], []
                for j, d in enumerate(dets):
                    s = self.hop(d, p, q)
                    if s is not None:
                        r.append(self.idx[s[0]]), c.append(j), v.append(s[1])
                self.E[p, q] = sp.csr_matrix((v, (r, c)), shape=(len(dets),) * 2)
        self.Ie, self.Ib = sp.identity(len(dets), format="csr"), sp.identity(len(bos), format="csr")
        self.cre = []
        for k in range(nm):
            r, c, v = [], [], []
            for j, b in enumerate(bos):
                t = tuple(x + (i == k) for i, x in enumerate(b))
                if t in self.bidx:
                    r.append(self.bidx[t]), c.append(j), v.append(math.sqrt(t[k]))
            self.cre.append(sp.csr_matrix((v, (r, c)), shape=(len(bos),) * 2))
        self.dim = len(dets) * len(bos)

    @staticmethod
    def hop(d, p, q):
        if q not in d:
            return None
        l = list(d)
        i = l.index(q)
        l.pop(i)
        s = (-1) ** i
        if p in l:
            return None
        k = sum(x < p for x in l)
        l.insert(k, p)
        return tuple(l), s * (-1) ** k

    def one(self, f):
        out = 0 * self.Ie
        for (p, q), m in self.E.items():
            if f[p, q] != 0:
                out = out + f[p, q] * m
        return out

    def hamiltonian(self, F, V, w, g, h=None, G=None, Hd=None):
        """V = <pq||rs>; g b_I + h b_I^+ couple to the electrons, G b_I + Hd b_I^+ are linear boson terms;
        returns the sparse normal-ordered Hamiltonian"""
        h_ = g if h is None else h
        no, n = self.no, self.n
        h = F - np.einsum("pkqk->pq", V[:, :no, :, :no])
        He = self.one(h)
        # 1/4 sum V p+q+ s r = 1/4 sum V (E_pr E_qs - d_qr E_ps)
        for p in range(n):
            for q in range(n):
                if p == q:
                    continue
                A = 0 * self.Ie
                for r in range(n):
                    for s in range(n):
                        if r != s and V[p, q, r, s] != 0:
                            A = A + V[p, q, r, s] * (self.E[p, r] @ self.E[q, s] - (self.E[p, s] if q == r else 0 * self.Ie))
                He = He + 0.25 * A
        ref = self.idx[tuple(range(no))]
        He = He - He[ref, ref] * self.Ie
        H = sp.kron(He, self.Ib)
        for k in range(self.nm):
            num = self.cre[k] @ self.cre[k].T
            H = H + w[k] * sp.kron(self.Ie, num)
            gk = self.one(g[k])
            gk = gk - np.trace(g[k][:no, :no]) * self.Ie
            hk = self.one(h_[k])
            hk = hk - np.trace(h_[k][:no, :no]) * self.Ie
            H = H + sp.kron(gk, self.cre[k].T) + sp.kron(hk, self.cre[k])
            if G is not None:
                H = H + G[k] * sp.kron(self.Ie, self.cre[k].T) + Hd[k] * sp.kron(self.Ie, self.cre[k])
        return H.tocsr()

    def exc(self, t1=None, t2=None):
        no, nv = self.no, self.nv
        out = 0 * self.Ie
        if t1 is not None:
            for a in range(nv):
                for i in range(no):
                    out = out + t1[a, i] * self.E[no + a, i]
        if t2 is not None:
            for a in range(nv):
                for b in range(nv):
                    for i in range(no):
                        for j in range(no):
                            if t2[a, b, i, j] != 0:
                                out = out + 0.25 * t2[a, b, i, j] * (self.E[no + a, i] @ self.E[no + b, j])
        return out

    def raise_(self, I):
        m = self.Ib
        for k in I:
            m = self.cre[k] @ m
        return m

    def cluster(self, T1, T2, Sn, U1n, U2n):
        T = sp.kron(self.exc(T1, T2), self.Ib)
        for k in range(len(Sn)):
            for I in itertools.product(range(self.nm), repeat=k + 1):
                T = T + Sn[k][I] / math.factorial(k + 1) * sp.kron(self.Ie, self.raise_(I))
        for k in range(len(U1n)):
            for I in itertools.product(range(self.nm), repeat=k + 1):
                u2 = U2n[k][I] if U2n[k] is not None else None
                T = T + sp.kron(self.exc(U1n[k][I], u2), self.raise_(I)) / math.factorial(k + 1)
        return T.tocsr()

    def residuals(self, H, T, nf1, nf2, u2):
        v = np.zeros(self.dim)
        ref = self.idx[tuple(range(self.no))] * len(self.bos)
        v[ref] = 1.0

        def ex(x, sgn):
            out, term, k = x.copy(), x, 1
            while True:
                term = sgn * (T @ term) / k
                if not np.any(term):
                    return out
                out = out + term
                k += 1
        R = ex(H @ ex(v, 1.0), -1.0)
        R = R.reshape(len(self.dets), len(self.bos))
        no, nv, nm = self.no, self.nv, self.nm
        z = self.bidx[(0,) * nm]
        r0 = self.idx[tuple(range(no))]

        def boson(I):
            c = [0] * nm
            for k in I:
                c[k] += 1
            return self.bidx[tuple(c)], math.sqrt(np.prod([math.factorial(x) for x in c]))
        s1 = np.zeros((nv, no, len(self.dets)))
        for a in range(nv):
            for i in range(no):
                m = self.E[no + a, i][:, r0].toarray().ravel()
                s1[a, i] = m
        d2 = np.zeros((nv, nv, no, no, len(self.dets)))
        for a in range(nv):
            for b in range(nv):
                for i in range(no):
                    for j in range(no):
                        d2[a, b, i, j] = (self.E[no + a, i] @ self.E[no + b, j])[:, r0].toarray().ravel()
        T1 = s1 @ R[:, z]
        T2 = d2 @ R[:, z]
        Sn, U1, U2 = [], [], []
        for k in range(nf1):
            S = np.zeros((nm,) * (k + 1))
            for I in itertools.product(range(nm), repeat=k + 1):
                j, f = boson(I)
                S[I] = f * R[r0, j]
            Sn.append(S)
        for k in range(nf2):
            A = np.zeros((nm,) * (k + 1) + (nv, no))
            B = np.zeros((nm,) * (k + 1) + (nv, nv, no, no))
            for I in itertools.product(range(nm), repeat=k + 1):
                j, f = boson(I)
                A[I] = f * (s1 @ R[:, j])
                B[I] = f * (d2 @ R[:, j])
            U1.append(A)
            U2.append(B)
        return R[r0, z], T1, T2, Sn, U1, U2
