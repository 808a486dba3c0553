"""P23 statistical analysis of sampled series: averages, autocorrelation time, blocking error, outliers."""
import math
import numpy as np
from harness.vp import Family, Skip
from harness import systems as S

ASSUMPTIONS = ["the unnormalised autocorrelation (arbitrary prefactor) is not judged; windows are judged for series of at least two samples"]
BUDGET = {"quick": 300, "thorough": 1500}


def tools():
    from openms.qmc import tools as t

    return t


def series(rng, n=None):
    n = n or int(rng.choice([2, 3, 5, 8, 13, 31, 32, 33, 64, 100, 257, 500]))
    kind = str(rng.choice(["white", "ar", "anti", "drift", "constant", "two-level", "spike"]))
    if kind == "white":
        x = rng.normal(size=n)
    elif kind in ("ar", "anti"):
        phi = rng.uniform(0.3, 0.97) * (1 if kind == "ar" else -1)
        x = ar1(rng, n, phi)
    elif kind == "drift":
        x = np.linspace(0, rng.normal(), n) + 0.1 * rng.normal(size=n)
    elif kind == "constant":
        x = np.full(n, float(rng.normal()))
    elif kind == "two-level":
        x = rng.choice([0.0, 1.0], n)
    else:
        x = rng.normal(size=n)
        x[int(rng.integers(n))] += 10.0 ** rng.uniform(1, 4)
    return kind, x * 10.0 ** rng.uniform(-4, 3) + rng.choice([0.0, -75.3, 4.2])


def ar1(rng, n, phi):
    x = np.empty(n)
    x[0] = rng.normal() / math.sqrt(1 - phi * phi)
    e = rng.normal(size=n)
    for i in range(1, n):
        x[i] = phi * x[i - 1] + e[i]
    return x


def acf_direct(x):
    d = x - x.mean()
    a = np.array([d[: len(d) - k] @ d[k:] for k in range(len(d))])
    return a / a[0]


def flat(x):
    """series whose variance is rounding noise of its mean"""
    return np.std(x) <= 1e-9 * np.abs(x).max()


def taus(x, cfac):
    """set of acceptable autocorrelation times (several if the window criterion is met within rounding)"""
    t = 2 * np.cumsum(acf_direct(x)) - 1
    out = []
    for k in range(len(t)):
        gap = k - cfac * t[k]
        if gap > -1e-8 * (1 + k):
            out.append(t[k])
            if gap > 1e-8 * (1 + k):
                return out
    return out + [None]


def average(c):
    t = tools()
    rng = c.rng
    kind, x = series(rng)
    if rng.random() < 0.5:
        x = x + 1j * rng.normal(size=len(x))
    n = int(rng.choice([1, 2, 3, 7, 10, 10, 50, 1000]))
    c.desc(kind=kind, n=len(x), N=n)
    c.cls(kind, f"N={n}", "complex" if np.iscomplexobj(x) else "real")
    arg = list(x) if rng.random() < 0.5 else x.copy()
    m, s = t.get_mean_std(arg) if n == 10 else t.get_mean_std(arg, N=n)
    k = max(1, len(x) // n)
    tail = x[len(x) - k:].real
    mean = math.fsum(tail) / k
    c.close(m, mean, "tail-mean", atol=1e-11 * (1 + np.abs(tail).max()))
    c.close(s, math.sqrt(math.fsum((tail - mean) ** 2) / k), "tail-deviation", atol=1e-7 * (1e-3 + np.abs(tail).max()))
    c.ok(np.array_equal(np.asarray(arg), x), "series-untouched")
    c.events += k


def autocorr(c):
    t = tools()
    rng = c.rng
    kind, x = series(rng)
    if flat(x):
        raise Skip()
    c.desc(kind=kind, n=len(x))
    c.cls(kind, f"n={len(x)}")
    keep = x.copy()
    a = np.asarray(t.autocorr_func(x))
    want = acf_direct(x)
    c.ok(a.shape == want.shape, "every-lag", f"{a.shape}")
    c.close(a, want, "lagged-correlation", atol=1e-8)
    cf = float(rng.choice([5.0, 5.0, 1.0, 2.5, 10.0]))
    tau = t.get_autocorr_time(x, c=cf) if cf != 5.0 else t.get_autocorr_time(x)
    acc = taus(x, cf)
    if None not in acc:
        c.ok(min(abs(tau - v) for v in acc) < 1e-7 * (1 + abs(tau)), "windowed-autocorrelation-time", f"{tau} not in {acc}")
    # shift and scale invariance
    s, o = 10.0 ** rng.uniform(-2, 2), float(rng.normal())
    if None not in acc and len(acc) == 1:
        c.close(t.get_autocorr_time(-s * (x - x.mean()) + o * np.std(x) * s, c=cf), tau, "scale-invariant", atol=1e-6 * (1 + abs(tau)))
    c.ok(np.array_equal(x, keep), "series-untouched")
    c.raises(ValueError, lambda: t.autocorr_func(np.ones((2, 3))), "matrix-rejected")
    c.events += len(x)


def keep_mask(x, method, thr):
    if method == "zscore":
        sd = math.sqrt(np.mean((x - x.mean()) ** 2))
        if sd == 0:
            return np.ones(len(x), bool), np.inf
        z = np.abs(x - x.mean()) / sd
        return z < thr, np.abs(z - thr).min()
    s = np.sort(x)

    def q(p):
        h = (len(s) - 1) * p
        i = int(math.floor(h))
        return s[i] + (h - i) * (s[min(i + 1, len(s) - 1)] - s[i])

    q1, q3 = q(0.25), q(0.75)
    lo, hi = q1 - thr * (q3 - q1), q3 + thr * (q3 - q1)
    return (x >= lo) & (x <= hi), min(np.abs(x - lo).min(), np.abs(x - hi).min()) / (1e-300 + np.abs(x).max()) if q3 > q1 else np.inf


def outliers(c):
    t = tools()
    rng = c.rng
    kind, x = series(rng)
    method = str(rng.choice(["zscore", "iqr"]))
    thr = float(rng.choice([10.0, 3.0, 1.5, 2.0]))
    mask, gap = keep_mask(x, method, thr)
    if gap < 1e-9 or (kind == "constant" and method == "iqr"):
        raise Skip()
    c.desc(kind=kind, n=len(x), method=method, thr=thr)
    c.cls(kind, method, f"dropped={int((~mask).sum() > 0)}")
    keep = x.copy()
    arg = list(x) if rng.random() < 0.3 else x
    out = np.asarray(t.remove_outliers(arg, method=method, threshold=thr))
    c.ok(out.shape == (int(mask.sum()),) and np.array_equal(out, keep[mask]), "kept-samples", f"{len(out)} kept, expected {int(mask.sum())}")
    c.ok(np.array_equal(x, keep), "series-untouched")
    c.raises(ValueError, lambda: t.remove_outliers(x, method="nosuch"), "unknown-method-rejected")
    c.events += len(x)


def analysis(c):
    t = tools()
    rng = c.rng
    kind, x = series(rng)
    name = str(rng.choice(["etot", "e1", "x"]))
    method = str(rng.choice(["zscore", "iqr"]))
    thr = float(rng.choice([10.0, 5.0, 3.0]))
    mask, gap = keep_mask(x, method, thr)
    if gap < 1e-9 or (flat(x) and method == "iqr"):
        raise Skip()
    y = x[mask]
    if len(y) < 2:
        raise Skip()
    c.desc(kind=kind, n=len(x), method=method, thr=thr)
    c.cls(kind, method)
    keep = x.copy()
    r = S.quiet(t.analysis_autocorr, x, name=name, method=method, threshold=thr, verbose=bool(rng.random() < 0.3))
    c.ok(set(r) == {name, f"{name}_error", f"{name}_nsamp", "ac_sampsize"}, "reported-fields", str(sorted(r)))
    mean, err, nb, bs = (r[k][0] for k in (name, f"{name}_error", f"{name}_nsamp", "ac_sampsize"))
    scale = 1e-12 + np.abs(y).max()
    if flat(y):
        c.close(mean, y.mean(), "constant-series", atol=1e-9 * scale)
        c.ok(0 <= err <= 1e-9 * scale, "constant-series", f"error {err}")
        return
    acc = taus(y, 5.0)
    if None in acc:
        raise Skip()
    sizes = set()
    for v in acc:
        for d in (-1e-8, 1e-8):
            sizes.add(max(1, math.ceil(v + d)))
    c.ok(int(bs) in sizes and bs == int(bs), "block-size", f"{bs} not in {sizes}")
    bs = int(bs)
    c.ok(int(nb) == len(y) // bs, "block-number", f"{nb} blocks of {bs} in {len(y)}")
    blocks = [math.fsum(y[i * bs:(i + 1) * bs]) / bs for i in range(int(nb))]
    bm = math.fsum(blocks) / len(blocks)
    c.close(mean, bm, "block-mean", atol=1e-10 * scale)
    sd = math.sqrt(math.fsum((b - bm) ** 2 for b in blocks) / len(blocks))
    c.close(err, sd / math.sqrt(len(blocks)), "block-error", atol=1e-7 * scale * 1e-3 + 1e-9 * scale)
    c.ok(np.array_equal(x, keep), "series-untouched")
    c.events += len(x)


def truth(c):
    """series with a known autocorrelation time: estimate and error bar against the spread of independent repetitions"""
    t = tools()
    rng = c.rng
    phi = float(rng.choice([0.0, 0.5, 0.8, 0.9, -0.5]))
    n, reps = 4096, (60 if c.tier == "quick" else 150)
    tau = (1 + phi) / (1 - phi)
    c.desc(phi=phi, n=n, reps=reps)
    c.cls(f"phi={phi}")
    off, scale = float(rng.normal()), 10.0 ** rng.uniform(-2, 2)
    est, means, errs = [], [], []
    for _ in range(reps):
        x = scale * ar1(rng, n, phi) + off
        est.append(t.get_autocorr_time(x))
        r = t.analysis_autocorr(x)
        means.append(r["etot"][0])
        errs.append(r["etot_error"][0])
    ratio = np.mean(est) / tau
    if phi >= 0:      # for anticorrelated series the window closes at lag one by design
        c.ok(0.85 < ratio < 1.15, "true-autocorrelation-time", f"estimate/true {ratio:.3f}")
    e_true = scale * math.sqrt(tau / n / (1 - phi * phi))
    c.ok(np.abs(np.mean(means) - off) < 6 * e_true / math.sqrt(reps) + 1e-12, "unbiased-mean", f"{np.mean(means)} vs {off}")
    rr = np.mean(errs) / e_true
    lo, hi = (0.68, 1.15) if phi >= 0 else (0.9, 2.2)
    c.ok(lo < rr < hi, "true-error", f"reported/true error {rr:.3f}")
    z = np.abs(np.array(means) - off) / np.array(errs)
    c.ok(np.mean(z < 3) > 0.88, "error-bar-coverage", f"{np.mean(z < 3):.2f} of the means within three error bars")
    c.events += reps


FAMILIES = [
    Family("average", average, 200, 5000, chunk=100, monitors=["tail-mean", "tail-deviation", "series-untouched"]),
    Family("autocorrelation", autocorr, 200, 5000, chunk=50, monitors=["every-lag", "lagged-correlation", "windowed-autocorrelation-time",
                                                                      "scale-invariant", "series-untouched", "matrix-rejected"]),
    Family("outliers", outliers, 200, 5000, chunk=100, monitors=["kept-samples", "series-untouched", "unknown-method-rejected"]),
    Family("analysis", analysis, 300, 6000, chunk=50, monitors=["reported-fields", "constant-series", "block-size", "block-number", "block-mean",
                                                               "block-error", "series-untouched"]),
    Family("truth", truth, 10, 60, chunk=2, monitors=["true-autocorrelation-time", "unbiased-mean", "true-error", "error-bar-coverage"]),
]
