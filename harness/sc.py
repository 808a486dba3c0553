"""Brute-force oracle of the transformed (strong-coupling / variational) cavity mean-field energy.

The transformation exp(-sum_p eta_p/omega n_p (b^+ - b)) is diagonal in the determinants of the dipole orbitals,
so its vacuum expectation is evaluated determinant by determinant in the full CI space."""
import math
import numpy as np
from . import oracles as O, systems as S


class Transformed:
    def __init__(self, I, U, g, omega, nocc):
        """U: AO -> dipole orbitals (U^T S U = 1, U^T g U diagonal); g: lambda.D matrix of the mode"""
        self.I, self.U, self.om = I, U, omega
        n = U.shape[1]
        self.n, self.nocc = n, nocc
        self.el = O.Electrons(n, nocc, nocc)
        self.h = U.T @ I.h @ U
        self.eri = np.einsum("pu,qv,rw,st,pqrs->uvwt", U, U, U, U, I.eri, optimize=True)
        self.G = np.diag(U.T @ g @ U) * math.sqrt(omega / 2)
        self.H = self.el.H_dense(self.h, self.eri).real
        occA = np.array([[1.0 if p in o else 0.0 for p in range(n)] for o in self.el.A.occ])
        self.nI = (occA[:, None, :] + occA[None, :, :]).reshape(-1, n)

    def energy(self, C, eta, f=1.0, r=0.0):
        """C: MO coefficients (AO); eta: displacement parameters; f: fraction of the coupling that is transformed"""
        Cd = np.linalg.solve(self.U, C[:, : self.nocc]) if self.U.shape[0] == self.U.shape[1] else None
        ci = O.det2ci(Cd, Cd).real.ravel()
        ci = ci / np.linalg.norm(ci)
        a = self.nI @ eta / self.om * math.exp(r)
        F = np.exp(-0.5 * (a[:, None] - a[None]) ** 2)
        e = ci @ (self.H * F) @ ci
        e += np.sum(ci ** 2 * (self.nI @ (f * self.G - eta)) ** 2) / self.om
        return e + self.I.enuc


def rotated(C, k, x):
    import scipy.linalg as sl

    return C @ sl.expm(x * k)
