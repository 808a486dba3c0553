"""Trial / walker / propagator builders for the QMC checks (real classes of the code under test)."""
import numpy as np
from . import systems as S

_mf = {}


def hmol(n, nelec, spin):
    from pyscf import gto, scf

    key = (n, nelec, spin)
    if key not in _mf:
        m = gto.M(atom=[("H", (0.13 * i, 0.07 * i * i % 0.5, 1.7 * i)) for i in range(n)], basis="sto-3g", unit="Bohr",
                  charge=n - nelec, spin=spin, verbose=0)
        mf = scf.RHF(m) if spin == 0 else scf.ROHF(m)
        mf.verbose = 0
        mf.max_cycle = 20
        mf.kernel()
        _mf[key] = (m, mf)
    return _mf[key]


def rand_trial(rng, nao, na, nb, ncomp, real=None, boson=None, orth=True):
    """a TrialHF whose orbitals are replaced by random ones"""
    from openms.qmc import trial as tr
    from openms.lib.boson import Photon

    m, mf = hmol(nao, na + nb, na - nb)
    sysm = m
    if boson is not None:
        om, vec = S.rand_modes(rng, len(boson))
        sysm = Photon(m, omega=om, vec=vec.copy(), nboson_states=list(boson), verbose=0)
    t = tr.make_trial(sysm, mf=mf, ncomponents=ncomp)
    if real is None:
        real = bool(rng.random() < 0.5)

    def orb(n):
        a = rng.normal(size=(nao, n)) + (0 if real else 1j * rng.normal(size=(nao, n)))
        if orth and n:
            a = np.linalg.qr(a)[0]
        return a

    t.psia = orb(na)
    t.psib = t.psia.copy() if (ncomp == 1) else orb(nb)
    t.psi = np.hstack([t.psia, t.psib]) if ncomp > 1 else t.psia
    if boson is not None:
        nb_ = sum(boson)
        b = rng.normal(size=nb_) + (0 if real else 1j * rng.normal(size=nb_))
        t.boson_psi = b / np.linalg.norm(b)
    t.half_rotated = False
    return t


def rand_walkers(rng, t, nw, amp=None):
    from openms.qmc import generic_walkers as gw

    w = gw.make_walkers(t, {"nwalkers": nw})
    amp = float(rng.choice([0.1, 0.4, 1.0])) if amp is None else amp
    nao = t.nao

    def pert(psi, n):
        x = np.array([psi] * nw, dtype=complex)
        return x + amp * S.cplx(rng, nw, nao, n)

    pa = pert(t.psia, t.nalpha)
    pb = pert(t.psib, t.nbeta) if t.ncomponents > 1 else None
    # same memory layout as the code: slices of one array
    if pb is not None:
        w.phiw = np.concatenate([pa, pb], axis=2)
        w.phiwa = w.phiw[:, :, : t.nalpha]
        w.phiwb = w.phiw[:, :, t.nalpha:]
    else:
        w.phiw = pa
        w.phiwa = w.phiw[:, :, : t.nalpha]
    if w.boson_phiw is not None:
        w.boson_phiw = np.array(w.boson_phiw) + amp * S.cplx(rng, *w.boson_phiw.shape)
    return w


def shape_draw(rng, ncomp=None, small=False):
    """(nao, na, nb, ncomp)"""
    ncomp = int(rng.integers(1, 3)) if ncomp is None else ncomp
    nao = int(rng.choice([2, 3, 4] if small else [2, 3, 4, 5, 6]))
    if ncomp == 1:
        na = int(rng.integers(1, min(nao, 4)))
        return nao, na, na, 1
    na = int(rng.integers(1, min(nao, 4) + 1))
    nb = int(rng.integers(max(1, na - 2), na + 1))
    if na == nao and nb == nao:
        nb = max(1, nb - 1)
    # (na - nb) spin must be reachable with nao orbitals: always true here
    return nao, na, nb, 2


def trial_ci(t):
    from .oracles import det2ci

    return det2ci(t.psia, t.psib if t.ncomponents > 1 else t.psia)


def walker_ci(t, w, i):
    from .oracles import det2ci

    return det2ci(w.phiwa[i], w.phiwb[i] if t.ncomponents > 1 else w.phiwa[i])


def cond_ok(t, w, lim=1e3):
    for i in range(w.nwalkers):
        if np.linalg.cond(w.phiwa[i].T @ t.psia.conj()) > lim:
            return False
        if t.ncomponents > 1 and np.linalg.cond(w.phiwb[i].T @ t.psib.conj()) > lim:
            return False
    return True


def boson_blocks(nst, om, z=None):
    """(H_b, [X_k]) of the block (one block per mode) Fock representation of the code"""
    n = sum(nst)
    Hb, X = np.zeros((n, n)), []
    i = 0
    for k, m in enumerate(nst):
        Hb[i:i + m, i:i + m] = om[k] * np.diag(np.arange(m))
        x = np.zeros((n, n))
        a = np.diag(np.sqrt(np.arange(1, m)), 1)
        x[i:i + m, i:i + m] = a + a.T
        X.append(x)
        i += m
    return Hb, X


def afqmc(rng, name="H2", nm=1, bs=None, uhf=False, spin=None, gmax=0.2, gmin=0.01, nw=3, opts=None, **kw):
    """a built AFQMC object on a small molecule; nm = 0 gives bare electrons"""
    from openms.qmc.afqmc import AFQMC
    from openms.lib.boson import Photon
    from pyscf import scf

    m = S.mol(name, kw.pop("basis", "sto-3g"), b=float(S.MOLS[name][1] * rng.uniform(0.8, 1.5)), rot=S.rotation(rng),
              shift=rng.normal(size=3) * 0.3, spin=spin)
    _, m = S.variant(rng, m, kw.pop("variant", 0.12))
    system = m
    om = vec = None
    if nm:
        om, vec = S.rand_modes(rng, nm, gmin=gmin, gmax=gmax)
        bs = [int(x) for x in rng.integers(2, 5, nm)] if bs is None else bs
        system = Photon(m, omega=om.copy(), vec=vec.copy(), nboson_states=list(bs), verbose=0)
        system.get_gmatao()
    mf = scf.RHF(m) if m.spin == 0 else scf.ROHF(m)
    mf.verbose = 0
    mf.kernel()
    kw.setdefault("dt", 0.01)
    kw.setdefault("total_time", 0.05)
    kw.setdefault("energy_scheme", "hybrid")
    q = S.quiet(AFQMC, system, mf=mf, num_walkers=nw, verbose=0, uhf=uhf or m.spin != 0, propagator_options=opts or {}, **kw)
    return q, m, mf, om, vec, bs


def scramble(rng, q, amp=None):
    """random walkers of the AFQMC object (same memory layout)"""
    t, w = q.trial, q.walkers
    amp = float(rng.choice([0.1, 0.4])) if amp is None else amp
    w.phiw = np.array(w.phiw, dtype=complex) + amp * S.cplx(rng, *w.phiw.shape)
    w.phiwa = w.phiw[:, :, : t.nalpha]
    if t.ncomponents > 1:
        w.phiwb = w.phiw[:, :, t.nalpha:]
    if w.boson_phiw is not None:
        w.boson_phiw = np.array(w.boson_phiw, dtype=complex) + amp * S.cplx(rng, *w.boson_phiw.shape)
    return w
