"""P26 disordered molecular aggregates: exciton states, transition dipoles and spectra."""
import math
import numpy as np
from harness.vp import Family, Skip
from harness import systems as S

ASSUMPTIONS = ["disorder of the hopping, the state classification and the two-dimensional spectrum of the class are not implemented and not judged; "
               "disorder draws come from the generator of the standard library"]
BUDGET = {"quick": 300, "thorough": 1500}


def chain(rng, **kw):
    from openms.models.aggregates import DMA

    n = int(rng.integers(1, 40))
    p = dict(Nsite=n, Nexc=int(rng.integers(1, 45)), epsilon=float(rng.normal()), hopping=float(rng.normal() * 0.5 + 0.01),
             sigma=float(rng.choice([0.0, 0.05, 0.5, 2.0])))
    p.update(kw)
    return DMA(**p), p


def states(c):
    import random

    rng = c.rng
    m, p = chain(rng)
    c.desc(**p)
    n = p["Nsite"]
    c.cls(f"n={n}", f"sigma={p['sigma']}", f"repeat")
    rounds = int(rng.integers(1, 4))
    for k in range(rounds):
        random.seed(int(rng.integers(1 << 30)))
        S.quiet(m.kernel)
        A = np.array(m.A)
        off = np.diag(np.full(n - 1, p["hopping"]), 1)
        c.close(A - np.diag(np.diag(A)), off + off.T, "hopping-elements", atol=1e-14)
        if p["sigma"] == 0:
            c.close(np.diag(A), np.full(n, p["epsilon"]), "site-energies", atol=1e-12)
        else:
            c.ok(np.abs(np.diag(A) - p["epsilon"]).max() < 8 * p["sigma"] * abs(p["hopping"]), "site-energies", "site energy beyond eight widths")
            c.ok(n == 1 or np.ptp(np.diag(A)) > 0, "site-energies", "no disorder")
        c.close(np.array(m.En), np.diag(A), "site-energies", atol=0)
        e, v = np.array(m.evals), np.array(m.evecs)
        sc = 1 + np.abs(A).max()
        c.ok(np.all(np.diff(e) >= -1e-12 * sc), "ordered-energies", f"{e}")
        c.close(A @ v, v * e, "eigenstates", atol=1e-9 * sc)
        c.close(v.T @ v, np.eye(n), "orthonormal-states", atol=1e-7)
        if p["sigma"] == 0:
            k_ = np.arange(1, n + 1)
            c.close(e, np.sort(p["epsilon"] + 2 * p["hopping"] * np.cos(np.pi * k_ / (n + 1))), "chain-band", atol=1e-9 * sc)
        ne = min(p["Nexc"], n)
        c.close(np.array(m.energies()), e[:ne], "requested-states", atol=0)
        # spectrum of this realisation
        g = float(10 ** rng.uniform(-3, 0))
        grid = np.sort(rng.uniform(e[0] - 1, e[-1] + 1, 25))
        sel = None if rng.random() < 0.5 else [int(x) for x in rng.integers(0, n, int(rng.integers(1, n + 1)))]
        how = rng.random()
        if how < 0.3:
            S.quiet(m.dipole)
        elif how < 0.5:
            S.quiet(m.sortdipole)
        keep = v.copy()
        sp = S.quiet(m.linearabs, grid, selected=sel, gamma=g) if sel is not None else S.quiet(m.linearabs, elist=grid, gamma=g)
        d = v.sum(axis=0)
        c.close(np.array(m.excdipole1), d, "transition-dipoles", atol=1e-9 * n)
        c.close(np.sum(np.array(m.excdipole1) ** 2), float(n), "dipole-sum-rule", atol=1e-6 * n)
        lst = range(ne) if sel is None else sel
        want = [math.fsum(d[j] ** 2 * g / ((x - e[j]) ** 2 + g * g) for j in lst) for x in grid]
        c.close(sp, want, "linear-spectrum", atol=1e-9 * (1e-6 + np.abs(want).max()))
        c.ok(np.array_equal(keep, m.evecs), "states-untouched")
        if rng.random() < 0.5:
            S.quiet(m.sortdipole)
            o = np.asarray(m.dipsortidx)
            c.ok(sorted(o.tolist()) == list(range(n)) and np.all(np.diff(np.abs(d)[o]) <= 1e-9 * n), "dipole-order", f"{o}")
            c.close(m.totdip, float(n), "dipole-sum-rule", atol=1e-6 * n)
    c.raises(Exception, lambda: m.linearabs(), "grid-required")
    c.events += rounds * n


def spectra(c):
    from openms.models import aggregates as ag

    rng = c.rng
    n = int(rng.integers(1, 8))
    e, d = rng.normal(size=n), rng.normal(size=n)
    g = float(10 ** rng.uniform(-2, 0.5))
    st = [int(x) for x in rng.permutation(n)[: int(rng.integers(1, n + 1))]]
    grid = np.sort(rng.normal(size=int(rng.integers(1, 9))))
    nuv = int(rng.integers(0, 5))
    e2, d2 = rng.normal(size=(len(st), max(nuv, 1))), rng.normal(size=(len(st), max(nuv, 1)))
    c.desc(n=n, states=len(st), nuv=nuv, grid=len(grid))
    c.cls(f"states={len(st)}", f"nuv={nuv}")
    want = np.array([sum(d[j] ** 2 * g / ((x - e[j]) ** 2 + g * g) for j in st) for x in grid])
    c.close(ag.linear_spec(grid, st, e, d, g), want, "lorentzian-sum", atol=1e-10 * (1 + want.max()))
    # area under each line
    xs = np.linspace(e.min() - 400 * g, e.max() + 400 * g, 40001)
    if n <= 3 and c.index % 10 == 0 and np.ptp(xs) / 40000 < g / 3:
        y = ag.linear_spec(xs, st, e, d, g)
        area = np.trapezoid(y, xs)
        c.close(area / (np.pi * sum(d[j] ** 2 for j in st)), 1.0, "absorption-area", atol=5e-3)
    spec = S.quiet(ag.tdes, grid, st, e, d, nuv, e2, d2, g)

    def lor(x, mu):
        return mu * mu * g / (x * x + g * g)

    w2 = np.zeros((len(grid), len(grid)))
    for i, ed in enumerate(grid):          # detection
        for j, ex in enumerate(grid):      # excitation
            for v1, k in enumerate(st):
                probe = 2 * lor(ed - e[k], d[k]) - sum(lor(ed - e2[v1, u], d2[v1, u]) for u in range(nuv))
                w2[i, j] += probe * lor(ex - e[k], d[k])
    c.close(spec, w2, "two-dimensional-spectrum", atol=1e-9 * (1 + np.abs(w2).max()))
    c.events += len(grid) ** 2


def disorder(c):
    """site energies follow the normal distribution of the requested width"""
    import random

    rng = c.rng
    n = 1500
    m, p = chain(rng, Nsite=n, Nexc=1, hopping=float(rng.choice([-1, 1]) * rng.uniform(0.1, 2)), sigma=float(rng.uniform(0.05, 2)))
    c.desc(**p)
    c.cls(f"hopping{'<' if p['hopping'] < 0 else '>'}0")
    random.seed(int(rng.integers(1 << 30)))
    S.quiet(m.kernel)
    w = p["sigma"] * abs(p["hopping"])
    z = (np.diag(np.array(m.A)) - p["epsilon"]) / w
    c.ok(abs(z.mean()) < 6 / math.sqrt(n), "disorder-mean", f"{z.mean():.3f}")
    c.ok(abs(z.std() - 1) < 6 / math.sqrt(2 * n), "disorder-width", f"{z.std():.3f}")
    c.ok(abs(np.mean(z ** 3)) < 6 * math.sqrt(15 / n) and abs(np.mean(z ** 4) - 3) < 6 * math.sqrt(96 / n), "disorder-shape")
    c.ok(abs(np.mean(z[1:] * z[:-1])) < 6 / math.sqrt(n), "disorder-independent")
    a = np.diag(np.array(m.A)).copy()
    S.quiet(m.kernel)
    c.ok(not np.array_equal(a, np.diag(np.array(m.A))), "new-realisation", "second realisation repeats the first")
    c.events += n


FAMILIES = [
    Family("states", states, 100, 2000, chunk=25, monitors=["hopping-elements", "site-energies", "ordered-energies", "eigenstates", "orthonormal-states",
                                                            "chain-band", "requested-states", "transition-dipoles", "dipole-sum-rule", "linear-spectrum",
                                                            "states-untouched", "dipole-order", "grid-required"]),
    Family("spectra", spectra, 80, 1500, chunk=20, monitors=["lorentzian-sum", "two-dimensional-spectrum"]),
    Family("disorder", disorder, 3, 30, chunk=1, monitors=["disorder-mean", "disorder-width", "disorder-shape", "disorder-independent", "new-realisation"]),
]
