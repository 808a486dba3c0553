"""P33 optical conductivities and spin tensors follow the formulas of the material models."""
import numpy as np
from harness import vp
from harness.vp import Family, Skip
from harness import systems as S

ASSUMPTIONS = ["the amplitude with which the plasma frequency enters the free-electron term is a unit convention and not judged, its frequency dependence is"]
BUDGET = {"quick": 120, "thorough": 900}


def make(**k):
    from openms.maxwell.hyperbolic import hyperbolicBase
    return S.quiet(hyperbolicBase, **k)


def plasma(c):
    """plasma frequency from density and effective mass"""
    rng = c.rng
    m = int(rng.integers(1, 4))
    n = 10 ** rng.uniform(-3, 2.5)
    if rng.random() < 0.4:
        n = np.full(m, n) * rng.uniform(0.5, 2, m)
    mass = rng.uniform(0.05, 3, m) if (m > 1 or rng.random() < 0.5) else float(rng.uniform(0.05, 3))
    c.desc(density=np.atleast_1d(n), mass=np.atleast_1d(mass))
    M = make(density=n, mass=mass, damping=0.05)
    want = 6.582119569e-16 * np.sqrt(np.asarray(n) * 1e27 * 1.602176634e-19 ** 2 / (8.8541878188e-12 * np.asarray(mass) * 9.1093837139e-31))
    c.close(np.atleast_1d(M.plasmon_freqs), np.atleast_1d(want), "plasma-frequency", atol=0, rtol=1e-6)
    c.close(make(density=4 * np.asarray(n), mass=mass).plasmon_freqs, 2 * M.plasmon_freqs, "plasma-frequency", atol=0, rtol=1e-12)
    w = rng.uniform(0.1, 5, m)
    c.ok(make(plasmon_freqs=w).plasmon_freqs is w, "plasma-frequency", "given frequencies are used")


def conductivity(c):
    """free-electron and interband terms of every component"""
    rng = c.rng
    m = int(rng.integers(1, 5))
    wp, wi, s = rng.uniform(0.1, 6, m), rng.uniform(0.05, 4, m), rng.uniform(0.01, 5, m)
    eta = float(10 ** rng.uniform(-3, 0)) if rng.random() < 0.8 else None
    w = np.sort(rng.uniform(0.01, 6, int(rng.integers(1, 30))))
    if np.abs(w[:, None] - wi).min() < 1e-6:
        raise Skip()
    c.desc(plasma=wp, interband=wi, strengths=s, damping=eta)
    kw = {} if eta is None else dict(damping=eta)
    keep = [a.copy() for a in (wp, wi, s, w)]
    M = make(plasmon_freqs=wp, interband_freqs=wi, interband_strengths=s, **kw)
    sig = S.quiet(M.get_conductivity, w)
    c.ok(sig.shape == (len(w), m) and np.isfinite(sig).all(), "interband-term", f"{sig.shape}")
    bare = S.quiet(make(plasmon_freqs=wp, interband_freqs=wi, interband_strengths=np.zeros(m), **kw).get_conductivity, w)
    inter = s * ((w[:, None] > wi) + 1j / np.pi * np.log(np.abs((w[:, None] - wi) / (w[:, None] + wi))))
    c.close(sig - bare, inter, "interband-term", atol=1e-9 * np.abs(sig).max(), rtol=0)
    e = M.damping
    c.ok(e == (0.1 if eta is None else eta), "free-electron-term", "damping")
    A = bare * (w[:, None] + 1j * e)
    c.close(A, np.broadcast_to(A[:1], A.shape), "free-electron-term", atol=0, rtol=1e-9, msg="falls off as 1/(w + i eta)")
    c.ok(np.abs(A.real).max() < 1e-9 * np.abs(A).max() and (A.imag > 0).all() and (bare.real > 0).all(), "free-electron-term", "absorbs energy")
    if m > 1:
        r = A[0].imag / A[0, 0].imag
        c.ok((np.argsort(r) == np.argsort(wp)).all(), "free-electron-term", "grows with the plasma frequency")
    # every component alone, every frequency alone
    k, i = int(rng.integers(m)), int(rng.integers(len(w)))
    one = S.quiet(make(plasmon_freqs=wp[k:k + 1], interband_freqs=wi[k:k + 1], interband_strengths=s[k:k + 1], **kw).get_conductivity, w[i:i + 1])
    c.close(one[0, 0], sig[i, k], "components-independent", atol=0, rtol=1e-12)
    c.ok(all(np.array_equal(a, b) for a, b in zip(keep, (wp, wi, s, w))), "components-independent", "parameters changed")
    c.close(S.quiet(M.get_conductivity, w), sig, "components-independent", atol=0, rtol=0, msg="second evaluation")
    c.events += sig.size


def splitting(c):
    """zero-field splitting tensors"""
    from openms.spindy import spin
    rng = c.rng
    D, E = rng.normal() * 1000, rng.normal() * 100
    full = rng.normal(size=(3, 3))
    c.desc(D=D, E=E)
    form = int(rng.integers(3))
    Din = [D, np.array(D), np.array([D])][form]
    T = spin.zfs_tensor(Din if form < 2 else float(D), E)
    c.ok(T.shape == (3, 3) and np.array_equal(T, np.diag(np.diag(T))), "splitting-tensor", "diagonal")
    c.close(np.trace(T), 0, "splitting-tensor", atol=1e-9, rtol=0)
    c.close([1.5 * T[2, 2], (T[0, 0] - T[1, 1]) / 2], [D, E], "splitting-tensor", atol=1e-9, rtol=1e-12)
    c.close(spin.zfs_tensor(D), spin.zfs_tensor(D, 0.0), "splitting-tensor", atol=0, rtol=0)
    c.ok(np.array_equal(spin.zfs_tensor(full), full), "splitting-tensor", "a full tensor is kept")
    s = float(rng.integers(1, 8)) / 2
    sp = spin.Spin(D=D, E=E, spin=s)
    c.close(sp._zfs, T, "spin-parameters", atol=1e-9, rtol=1e-12)
    c.ok(sp.D == D and sp.E == E, "spin-parameters", f"D, E are {sp.D}, {sp.E}")
    c.ok(sp.ndim == int(round(2 * s + 1)) and sp.spin == s, "spin-parameters", f"dimension {sp.ndim} for spin {s}")
    c.ok(np.array_equal(spin.Spin(D=full)._zfs, full), "spin-parameters", "full tensor")
    p, q = spin.Spin(coord=np.array([1.0, 2, 3])), spin.Spin()
    c.ok(list(p.coord) == [1, 2, 3] and list(q.coord) == [0, 0, 0] and q.spin == 0.5 and not np.asarray(q._zfs).any(), "spin-parameters", "defaults")


def gtensors(c):
    """g factors given as number, axis values or tensor"""
    from openms.spindy import spin
    rng = c.rng
    g = float(rng.normal() * 2)
    v, T = rng.normal(size=3), rng.normal(size=(3, 3))
    c.desc(g=g)
    for given, want in ((g, np.eye(3) * g), (np.array(g), np.eye(3) * g), (np.array([[g]]), np.eye(3) * g), (v, np.diag(v)), (T, T), (np.diag(v), np.diag(v)), (T.tolist(), T)):
        c.close(spin.Spin(gfactor=given)._gfactor, want, "g-tensor", atol=1e-14, rtol=1e-14, msg=f"given as {np.shape(given)}")
    c.close(spin.Spin()._gfactor, np.eye(3) * -2.00231930426256, "g-tensor", atol=1e-12, rtol=0)
    s = spin.Spin()
    s.set_gfactor(T)
    c.close(s._gfactor, T, "g-tensor", atol=0, rtol=0)
    c.ok(spin.check_gfactor(g) == (g, True), "g-tensor", "number")
    r, ok = spin.check_gfactor(np.eye(3) * g)
    c.ok(bool(ok) and r == g, "g-tensor", "isotropic tensor is a number")
    r, ok = spin.check_gfactor(T)
    c.ok(not ok and np.array_equal(r, T), "g-tensor", "anisotropic tensor stays")
    D = np.diag(v)
    r, ok = spin.check_gfactor(D)
    c.ok(not ok and np.array_equal(r, D), "g-tensor", "unequal diagonal stays")
    # degenerate patterns: elements drawn from few values, so that any of them coincide or vanish
    pool = np.array([0, g, g, float(v[0]), -g])
    for k in range(12):
        T = np.diag(rng.choice(pool, 3)) if k < 6 else rng.choice(pool, (3, 3))
        if k == 6:
            T = np.eye(3) * g
        elif k in (7, 8, 9):
            T = np.eye(3) * g
            i, j = rng.choice(3, 2, replace=False)
            T[i, j] = g
            T[j, i] = g if k == 7 else 0
        c.cls("pattern", "".join("0" if x == 0 else "g" if x == g else "x" for x in T.ravel()))
        r, ok = spin.check_gfactor(T.copy())
        iso = np.array_equal(T, np.eye(3) * T[0, 0])
        c.ok(bool(ok) == iso, "g-tensor", f"tensor {T.tolist()} taken as {'number' if ok else 'tensor'}")
        c.close(np.eye(3) * r if np.ndim(r) == 0 else np.diag(r) if np.ndim(r) == 1 else r, T, "g-tensor", atol=0, rtol=0, msg=str(T.tolist()))
        c.close(spin.Spin(gfactor=T.copy())._gfactor, T, "g-tensor", atol=0, rtol=0)


TABLE = {"sample": np.eye(3) * 2,
         "VOPcOH8": [[1.9813375, .0039050, .0021903], [.0038804, 1.9891492, -.0008947], [.0021890, -.0009015, 1.9902479]],
         "CuPcOH8": [[2.0730877, -.0171320, -.0096586], [-.0171445, 2.0349693, .0036730], [-.0096388, .0037221, 2.0304833]],
         "CoPcOH8": [[2.0559245, .1082167, .0609306], [.1081040, 2.2957483, -.0233811], [.0608570, -.0234408, 2.3241520]]}


def library(c):
    """stored g tensors, and reading of matrices"""
    from openms.spindy import gtensorlibs as G, spin
    rng = c.rng
    c.desc(k=int(rng.integers(1 << 30)))
    for k, v in TABLE.items():
        c.ok(k in G.gtensor_data, "stored-tensors", f"{k} is missing")
        if k in G.gtensor_data:
            c.close(G.gtensor_data[k], v, "stored-tensors", atol=1e-12, rtol=0, msg=k)
            c.close(spin.Spin(gfactor=G.gtensor_data[k])._gfactor, v, "stored-tensors", atol=1e-12, rtol=0, msg=k)
    A = rng.normal(size=(int(rng.integers(1, 6)), int(rng.integers(1, 6)))) * 10.0 ** rng.integers(-6, 7)
    txt = "\n" + "\n".join("   " + "\t ".join(repr(float(x)) for x in r) for r in A) + "\n"
    c.close(G.string_to_numpy_array(txt), A, "matrix-reader", atol=0, rtol=1e-15)


FAMILIES = [
    Family("plasma", plasma, 600, 2000, monitors=["plasma-frequency"]),
    Family("conductivity", conductivity, 1200, 6000, monitors=["interband-term", "free-electron-term", "components-independent"]),
    Family("splitting", splitting, 900, 4000, monitors=["splitting-tensor", "spin-parameters"]),
    Family("gtensors", gtensors, 900, 4000, monitors=["g-tensor"]),
    Family("library", library, 240, 800, monitors=["stored-tensors", "matrix-reader"]),
]
