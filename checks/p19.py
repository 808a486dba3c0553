"""P19 population control conserves the ensemble."""
import numpy as np
from harness.vp import Family, Skip
from harness import systems as S

ASSUMPTIONS = [
    "weights are non-negative (what the phaseless constraint produces); unbiasedness is a statistical monitor at 7 sigma",
]


def _methods():
    from openms.qmc import population_control as pc

    return pc.control_func_dict


def _weights(c, n):
    rng = c.rng
    kind = ["uniform", "lognormal", "zeros", "dominant", "tiny", "equal", "spiky"][int(rng.integers(7))]
    if kind == "uniform":
        w = rng.uniform(0.0, 3.0, n)
    elif kind == "lognormal":
        w = rng.lognormal(0, 1.5, n)
    elif kind == "zeros":
        w = rng.uniform(0.2, 2, n)
        w[rng.random(n) < 0.5] = 0.0
        if w.sum() == 0:
            w[int(rng.integers(n))] = 1.0
    elif kind == "dominant":
        w = rng.uniform(1e-8, 1e-3, n)
        w[int(rng.integers(n))] = float(n)
    elif kind == "tiny":
        w = rng.uniform(0.0, 1e-6, n) + 1e-9
    elif kind == "equal":
        w = np.ones(n)
    else:
        w = np.where(rng.random(n) < 0.3, rng.uniform(2, 8, n), rng.uniform(0.01, 0.5, n))
    return kind, w


def _expected_ok(c, method, ids, w0, w1):
    n, W = len(w0), w0.sum()
    c.ok(len(ids) == n and len(w1) == n, "walker-count", f"{len(ids)} walkers / {len(w1)} weights out of {n}")
    c.ok(np.all(np.isfinite(w1)) and np.all(np.asarray(w1) >= 0), "weights-nonnegative")
    c.close(np.sum(w1), W, "total-weight", atol=0, rtol=1e-10)
    cnt = np.bincount(ids, minlength=n)
    if method in ("reconfiguration", "comb"):
        c.close(np.asarray(w1), np.full(n, W / n), "uniform-weights", atol=1e-14 * max(W, 1e-300), rtol=1e-10)
        m = n * w0 / W
        c.ok(np.all(cnt >= np.floor(m - 1e-6)) and np.all(cnt <= np.ceil(m + 1e-6)), "copies-floor-ceil",
             "number of copies of a walker is not floor/ceil of its share", m=m, copies=cnt)
    else:
        # pair branching: no walker is lost unless its partner takes its weight
        acc = np.zeros(n)
        np.add.at(acc, ids, w1)
        # a walker with weight inside the window that is not paired keeps exactly its weight
        c.ok(cnt.max() <= 2, "branching-at-most-two-copies", copies=cnt)
        order = np.sort(w0)
        if order[0] >= 0.1 and order[-1] <= 2.0:
            c.close(np.sort(np.asarray(w1)), order, "branching-noop-inside-window", atol=0, rtol=1e-12)
            c.ok(cnt.max() == 1, "branching-noop-inside-window")
        c.ok(not np.any((cnt > 0) & (w0 == 0.0) & (acc > 0)), "zero-weight-walker-not-cloned", copies=cnt)
    if method != "branching":
        c.ok(not np.any((w0 == 0.0) & (cnt > 0)), "zero-weight-walker-not-cloned", copies=cnt)


def conservation(c):
    n = int(c.rng.choice([1, 2, 3, 4, 5, 7, 8, 16, 31, 50, 128, 257]))
    method = sorted(_methods())[c.index % len(_methods())]
    kind, w = _weights(c, n)
    c.desc(n=n, method=method, kind=kind, w=w[:6])
    c.cls(method, kind)
    np.random.seed(int(c.rng.integers(2**31)))
    fn = _methods()[method]
    w_in = w.copy()
    walkers = [np.array([float(i), -float(i)]) for i in range(n)]
    new, w1 = fn(list(walkers), w_in)
    ids = np.array([int(round(float(x[0]))) for x in new])
    for x in new:
        c.ok(x[1] == -x[0], "payload-intact")
    for i, x in enumerate(walkers):
        c.ok(x[0] == float(i), "originals-untouched")
    _expected_ok(c, method, ids, w, np.asarray(w1))


def unbiased(c):
    n = int(c.rng.choice([2, 3, 5, 8, 13]))
    method = sorted(_methods())[c.index % len(_methods())]
    kind, w = _weights(c, n)
    c.desc(n=n, method=method, kind=kind, w=w[:6])
    c.cls(method, kind)
    np.random.seed(int(c.rng.integers(2**31)))
    fn = _methods()[method]
    T = 4000 if c.tier == "quick" else 20000
    acc = np.zeros(n)
    acc2 = np.zeros(n)
    for _ in range(T):
        new, w1 = fn(list(range(n)), w.copy())
        a = np.zeros(n)
        np.add.at(a, np.asarray(new, dtype=int), np.asarray(w1))
        acc += a
        acc2 += a * a
    c.events += T
    mean = acc / T
    var = np.maximum(acc2 / T - mean**2, 0)
    # the per-trial increment is bounded by W, so a rare-event floor is added
    sig = np.sqrt(var / T) + np.sqrt(w * w.sum() / T) * 0.2 + 3 * w.sum() / T
    c.ok(np.all(np.abs(mean - w) <= 7 * sig), "unbiased-expected-weight",
         "expected weight carried by a walker's copies differs from its weight", mean=mean, w=w, sigma=sig)
    if np.ptp(w) < 1e-12:
        c.mark_trivial()


def _walkers(c, nw, boson, ncomp):
    from openms.qmc import trial as tr, generic_walkers as gw
    from openms.lib.boson import Photon

    m = S.mol("H3+" if ncomp == 1 else "H3")
    from pyscf import scf

    mf = (scf.RHF(m) if m.spin == 0 else scf.ROHF(m))
    mf.verbose = 0
    mf.kernel()
    if boson:
        om, vec = S.rand_modes(c.rng, 1)
        sysm = Photon(m, omega=om, vec=vec.copy(), nboson_states=[int(c.rng.integers(2, 6))], verbose=0)
    else:
        sysm = m
    t = tr.make_trial(sysm, mf=mf, ncomponents=ncomp)
    w = gw.make_walkers(t, {"nwalkers": nw})
    return t, w


def _tag(w):
    n = w.nwalkers
    w.phiwa = np.array(w.phiwa)
    for name in ("phiwa", "phiwb", "boson_phiw"):
        a = getattr(w, name)
        if a is None:
            continue
        a = np.array(a)
        for i in range(n):
            a[i] = (i + 1) * (1 + 0.5j) + 1e-3 * np.arange(a[i].size).reshape(a[i].shape)
        setattr(w, name, a)


def ensemble(c):
    """weight control on a real walker ensemble, every component tagged with its walker's id"""
    nw = int(c.rng.choice([11, 12, 20, 37, 64]))
    boson = bool(c.index % 2)
    ncomp = 1 + (c.index // 2) % 2
    methods = sorted(_methods())
    method = methods[(c.index // 4) % len(methods)]
    freq = int(c.rng.choice([1, 2, 3, 5]))
    t, w = _walkers(c, nw, boson, ncomp)
    np.random.seed(int(c.rng.integers(2**31)))
    c.desc(nw=nw, boson=boson, ncomp=ncomp, method=method, freq=freq)
    c.cls(method, f"boson={boson}", f"ncomp={ncomp}")
    parts = [p for p in ("phiwa", "phiwb", "boson_phiw") if getattr(w, p) is not None and not (p == "phiwb" and ncomp == 1)]
    c.ok(("boson_phiw" in parts) == boson, "bosonic-component-present")
    prev_total = w.total_weight
    for step in range(int(c.rng.integers(4, 12))):
        kind, wt = _weights(c, nw)
        wt = wt * nw / max(wt.sum(), 1e-12)
        w.weights = wt.copy()
        _tag(w)
        ref = {p: np.array(getattr(w, p)) for p in parts}
        w.ehybrid, w.eloc = np.arange(1, nw + 1) * (2.0 - 1j), np.arange(1, nw + 1) * (3.0 + 0.5j)
        eref = w.ehybrid.copy(), w.eloc.copy()
        bound = 0.1 * prev_total
        clipped = np.clip(wt, -bound, bound) if step > 0 else wt
        w.weight_control(step, freq=freq, method=method)
        c.events += 1
        if (step + 1) % freq != 0:
            c.close(w.weights, clipped, "bounded-between-controls", atol=1e-12, rtol=1e-12)
            for p in parts:
                c.ok(np.array_equal(getattr(w, p), ref[p]), "no-reshuffle-between-controls", p)
            continue
        total = clipped.sum()
        prev_total = total
        c.close(w.total_weight, total, "recorded-total-weight", atol=1e-12, rtol=1e-12)
        c.close(w.raw_norm, total, "recorded-raw-norm", atol=1e-12, rtol=1e-12)
        c.close(np.sum(w.weights), nw, "renormalised-total", atol=1e-9)
        norm_w = clipped * nw / total
        ids = np.array([int(round(getattr(w, parts[0])[i].ravel()[0].imag / 0.5)) - 1 for i in range(nw)])
        c.ok(np.all((ids >= 0) & (ids < nw)), "walker-identity")
        for p in parts:
            a = getattr(w, p)
            c.ok(a.shape == ref[p].shape, "walker-count", p)
            c.ok(np.array_equal(a, ref[p][ids]), "components-travel-together",
                 f"{p} of a surviving walker does not come from the same parent")
        c.ok(np.array_equal(w.ehybrid, eref[0][ids]) and np.array_equal(w.eloc, eref[1][ids]), "energies-travel-with-walker",
             "the energies kept for a surviving walker are those of another one", ids=ids)
        _expected_ok(c, method, ids, norm_w, w.weights)
        # copies are independent
        a = getattr(w, parts[-1])
        before = a.copy()
        a[0] += 17.0
        c.ok(np.array_equal(a[1:], before[1:]), "copies-independent")
        a[0] = before[0]


FAMILIES = [
    Family("conservation", conservation, 420, 20000, chunk=30,
           monitors=["walker-count", "weights-nonnegative", "total-weight", "uniform-weights", "copies-floor-ceil",
                     "payload-intact", "zero-weight-walker-not-cloned", "branching-noop-inside-window"]),
    Family("unbiased", unbiased, 48, 400, chunk=3, monitors=["unbiased-expected-weight"]),
    Family("ensemble", ensemble, 36, 600, chunk=3,
           monitors=["components-travel-together", "energies-travel-with-walker", "renormalised-total", "recorded-total-weight",
                     "bounded-between-controls", "copies-independent"]),
]
