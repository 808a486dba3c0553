"""P18 walker weights follow the phaseless importance-sampling rule and stay non-negative."""
import numpy as np
import scipy.linalg as sl
from harness.vp import Family, Skip
from harness import systems as S, qmcsys as Q

ASSUMPTIONS = ["auxiliary fields are drawn from numpy's global generator, one row per walker (the draws are recorded, not replaced)"]
S.plain_kernels()
BUDGET = {"quick": 300, "thorough": 1800}


class Record:
    """records the standard normals drawn while active"""

    def __enter__(self):
        self._old = (np.random.normal, np.random.standard_normal, np.random.randn)
        self.draws = []

        def keep(x):
            self.draws.append(np.array(x, float))
            return x

        np.random.normal = lambda loc=0.0, scale=1.0, size=None: keep(self._old[0](loc, scale, size))
        np.random.standard_normal = lambda size=None: keep(self._old[1](size))
        np.random.randn = lambda *s: keep(self._old[2](*s))
        return self

    def __exit__(self, *a):
        np.random.normal, np.random.standard_normal, np.random.randn = self._old


def rule(scheme, dt, w, ratio, cfb, cmf, eh_old, eshift, eloc, ebound):
    """(new weight, new hybrid energy) of one walker, by definition"""
    if scheme == "hybrid":
        eh = -(np.log(ratio) + cfb + cmf) / dt
        eh = min(max(eh.real, np.real(eshift) - ebound), np.real(eshift) + ebound) + 1j * eh.imag
        grow = np.exp(-dt * (0.5 * (eh + eh_old) - eshift).real)
        return w * grow * max(0.0, np.cos((-dt * eh - cfb).imag)), eh
    r = ratio * np.exp(cmf)
    return w * np.exp(-dt * np.real(eloc)) * max(0.0, np.cos(np.angle(r))), eh_old


class W:
    pass


def formula(c):
    from openms.qmc.propagators import Phaseless

    rng = c.rng
    scheme = str(rng.choice(["hybrid", "hybrid", "local"]))
    dt = float(10.0 ** rng.uniform(-3, -0.3))
    nw = int(rng.integers(1, 12))
    p = Phaseless(dt=dt, energy_scheme=scheme)
    p.verbose = 0
    if not hasattr(p, "update_weight"):
        raise Skip()
    big = float(rng.choice([0.05, 1.0, 10.0]))
    c.desc(scheme=scheme, dt=dt, nw=nw, big=big)
    c.cls(scheme, f"dt~1e{int(np.floor(np.log10(dt)))}", f"big={big}")
    w = W()
    w.weights = rng.uniform(0, 3, nw) * (rng.random(nw) > 0.1)
    w.ehybrid = S.cplx(rng, nw)
    w.eloc = S.cplx(rng, nw) * 2
    w.ovlp = S.cplx(rng, nw)
    w.nwalkers = nw
    ov0, ov1 = S.cplx(rng, nw) + 0.01, S.cplx(rng, nw) + 0.01
    cfb, cmf = big * dt ** 0.5 * S.cplx(rng, nw), big * dt ** 0.5 * S.cplx(rng, nw)
    esh = np.complex128(complex(rng.normal(), rng.normal() * 0.1))
    eb = float(np.sqrt(2.0 / dt))
    c.close(p.ebound, eb, "energy-bound", atol=1e-12 * eb)
    w0, eh0, el0 = w.weights.copy(), w.ehybrid.copy(), w.eloc.copy()
    args = [ov0.copy(), ov1.copy(), cfb.copy(), cmf.copy()]
    p.update_weight(w, *args, esh)
    for i in range(nw):
        ref, eh = rule(scheme, dt, w0[i], ov1[i] / ov0[i], cfb[i], cmf[i], eh0[i], esh, el0[i], eb)
        c.close(w.weights[i], ref, "weight-rule", atol=1e-12, rtol=1e-9)
        c.close(w.ehybrid[i], eh, "hybrid-energy", atol=1e-10 / dt)
        if scheme == "hybrid":
            c.ok(abs(w.ehybrid[i].real - esh.real) <= eb * (1 + 1e-12), "hybrid-energy-bounded")
            ph = (-dt * eh - cfb[i]).imag
        else:
            ph = np.angle(ov1[i] / ov0[i] * np.exp(cmf[i]))
        if np.cos(ph) < 0:
            c.ok(w.weights[i] == 0, "rotated-walker-dropped", "", phase=ph)
            c.cls("dropped")
    c.ok(not np.iscomplexobj(w.weights) and np.all(w.weights >= 0) and np.all(np.isfinite(w.weights)), "weights-non-negative")
    c.close(w.ovlp, ov1, "overlap-recorded", atol=0)
    c.close(w.eloc, el0, "local-energy-kept", atol=0)
    c.events += nw


def green(t, w, i):
    pa = w.phiwa[i]
    pb = w.phiwb[i] if t.ncomponents > 1 else pa
    psib = t.psib if t.ncomponents > 1 else t.psia
    sa, sb = t.psia.conj().T @ pa, psib.conj().T @ pb
    G = pa @ np.linalg.inv(sa) @ t.psia.conj().T + pb @ np.linalg.inv(sb) @ psib.conj().T
    return G, np.linalg.det(sa) * np.linalg.det(sb)


def step(c):
    """a whole propagation step of a real run, judged from the recorded draws"""
    rng = c.rng
    name = str(rng.choice(["H2", "HeH+", "H3+", "H3", "H4"]))
    nm = int(rng.choice([0, 0, 1, 2]))
    off = bool(nm and rng.random() < 0.3)
    uhf = bool(rng.random() < 0.5)
    scheme = str(rng.choice(["hybrid", "hybrid", "local"]))
    dt = float(10.0 ** rng.uniform(-3, -1))
    nw = int(rng.integers(1, 6))
    fake = int(rng.choice([0, 0, 2]))
    opts = {"turnoff_bosons": off} if nm else {}
    if fake:
        opts["num_fake_fields"] = fake
    q, m, mf, om, vec, bs = Q.afqmc(rng, name, nm, uhf=uhf, nw=nw, gmax=0.4, dt=dt, taylor_order=8, energy_scheme=scheme, opts=opts)
    c.desc(mol=name, modes=nm, bs=bs, uhf=uhf, scheme=scheme, dt=dt, nw=nw, fake=fake, off=off)
    c.cls(name, f"modes={nm}", f"uhf={uhf or m.spin}", scheme, f"fake={fake}", f"off={off}")
    t, p = q.trial, q.propagator
    w = Q.scramble(rng, q)
    if not Q.cond_ok(t, w) or (nm and np.abs(w.boson_phiw @ t.boson_psi.conj()).min() < 0.05):
        raise Skip()
    p.build(q.h1e, q.ltensor, t, q.geb)
    bound = float(rng.choice([1.0, 0.03]))
    p.bias_bound = bound
    w.weights = rng.uniform(0, 2, nw)
    w.ehybrid = 0.3 * S.cplx(rng, nw)
    w.eloc = S.cplx(rng, nw)
    esh = np.complex128(complex(rng.normal() * 0.3, 0))
    L = np.real(q.ltensor)
    old = [green(t, w, i) for i in range(nw)]
    ov0 = np.array([o[1] for o in old])
    if nm and not off:
        ov0 = ov0 * (w.boson_phiw @ t.boson_psi.conj())
    bias = np.array([np.einsum("gpq,pq->g", L, o[0].T) for o in old])
    w0, eh0, el0 = w.weights.copy(), w.ehybrid.copy(), w.eloc.copy()
    rho = t.psia @ t.psia.conj().T + (t.psib @ t.psib.conj().T if t.ncomponents > 1 else t.psia @ t.psia.conj().T)
    l = np.einsum("gpq,pq->g", L, rho.T)
    with Record() as rec:
        p.propagate_walkers(t, w, q.ltensor, eshift=esh)
    nf = len(L) + fake
    if len(rec.draws) != 1 or rec.draws[0].size != nf * nw:
        raise Skip()
    x = rec.draws[0].reshape(nw, nf)[:, : len(L)]
    ov1 = np.array([green(t, w, i)[1] for i in range(nw)])
    if nm and not off:
        ov1 = ov1 * (w.boson_phiw @ t.boson_psi.conj())
    eb = float(np.sqrt(2.0 / dt))
    for i in range(nw):
        xb = -1j * np.sqrt(dt) * (bias[i] - l)
        mag = np.abs(xb)
        xb = np.where(mag > bound, xb / np.where(mag > 0, mag, 1), xb)
        xs = x[i] - xb
        cfb = np.sum(xb * x[i] - 0.5 * xb ** 2)
        cmf = -1j * np.sqrt(dt) * np.sum(xs * l)
        r = ov1[i] / ov0[i]
        if scheme == "hybrid":
            eh = -(np.log(r) + cfb + cmf) / dt
            if abs(abs(eh.imag * dt) - np.pi) < 1e-6:
                raise Skip()
        ref, eh = rule(scheme, dt, w0[i], r, cfb, cmf, eh0[i], esh, el0[i], eb)
        c.close(w.weights[i], ref, "step-weight", atol=1e-8, rtol=1e-7)
        if scheme == "hybrid":
            c.close(w.ehybrid[i], eh, "step-hybrid-energy", atol=1e-7 / dt)
    c.ok(not np.iscomplexobj(w.weights) and np.all(w.weights >= 0), "weights-non-negative")
    c.events += nw


def run(c):
    """whole runs: the energy shift follows the weighted hybrid energies, weights stay in range"""
    rng = c.rng
    name = str(rng.choice(["H2", "HeH+", "H3", "H4"]))
    nm = int(rng.choice([0, 0, 1]))
    nw = int(rng.integers(3, 12))
    dt = float(rng.choice([0.002, 0.01, 0.05]))
    nst = int(rng.integers(8, 30))
    freq, popf, ren = (int(x) for x in rng.integers(1, 7, 3))
    method = str(rng.choice(["branching", "reconfiguration", "comb"]))
    scheme = str(rng.choice(["hybrid", "hybrid", "local"]))
    q, m, mf, om, vec, bs = Q.afqmc(rng, name, nm, uhf=bool(rng.random() < 0.5), nw=nw, dt=dt, total_time=nst * dt, random_seed=int(rng.integers(1, 10**6)),
                                    property_calc_freq=freq, pop_control_freq=popf, renorm_freq=ren, pop_control_method=method, energy_scheme=scheme)
    again = 1 + int(nst % freq == 0 or rng.random() < 0.3)
    if again > 1 and nst % freq:
        nst -= nst % freq
        q, m, mf, om, vec, bs = Q.afqmc(rng, name, nm, uhf=bool(rng.random() < 0.5), nw=nw, dt=dt, total_time=nst * dt, random_seed=int(rng.integers(1, 10**6)),
                                        property_calc_freq=freq, pop_control_freq=popf, renorm_freq=ren, pop_control_method=method, energy_scheme=scheme)
    if q.nsteps % freq:
        again = 1
    c.desc(mol=name, modes=nm, nw=nw, dt=dt, steps=nst, freq=freq, popf=popf, renorm=ren, method=method, scheme=scheme, runs=again)
    c.cls(name, f"modes={nm}", method, scheme, f"runs={again}")
    w, p = q.walkers, q.propagator
    for k in ("weight_control",):
        if not hasattr(w, k):
            raise Skip()
    log, prop, wc = [], p.propagate_walkers, w.weight_control

    def propagate(trial, walkers, ltensor, eshift=0.0, **kw):
        log.append(dict(eshift=complex(eshift)))
        r = prop(trial, walkers, ltensor, eshift=eshift, **kw)
        log[-1]["w1"] = np.array(walkers.weights)
        return r

    def control(step, *a, **kw):
        log[-1]["before"] = np.array(w.weights)
        r = wc(step, *a, **kw)
        log[-1].update(w=np.array(w.weights), eh=np.array(w.ehybrid), orig=float(w.total_weight))
        return r

    p.propagate_walkers, w.weight_control = propagate, control
    cap = float(w.total_weight0)
    expect = None
    for r in range(again):
        # the same object driven again goes on with its ensemble
        log.clear()
        S.quiet(q.kernel)
        c.ok(len(log) == q.nsteps, "every-step-seen", "", steps=len(log), want=q.nsteps)
        num = den = 0.0
        if expect is None:
            expect = log[0]["eshift"]
        for k, e in enumerate(log):
            c.close(e["eshift"], expect, "shift-is-weighted-hybrid-energy", atol=1e-9 * (1 + abs(expect)), msg=f"run {r} step {k}")
            c.ok(np.all(np.isfinite(e["w1"])) and np.all(e["w1"] >= 0), "weights-non-negative")
            lim = 0.1 * cap
            ctl = (k + 1) % popf == 0
            clip = np.minimum(e["before"], lim) if k > 0 else e["before"]
            if not ctl:
                c.close(e["w"], clip, "weights-capped", atol=1e-12)
            else:
                cap = float(clip.sum())
                c.close(e["w"].sum(), w.total_weight0, "total-weight-restored", atol=1e-9 * w.total_weight0)
            num, den = num + np.sum(e["eh"] * e["w"]), den + np.sum(e["w"])
            if (k + 1) % freq == 0:
                expect, num, den = num / den, 0.0, 0.0
        c.events += len(log)


FAMILIES = [
    Family("formula", formula, 400, 8000, chunk=100, monitors=["weight-rule", "hybrid-energy", "hybrid-energy-bounded", "rotated-walker-dropped",
                                                               "weights-non-negative", "overlap-recorded", "energy-bound", "local-energy-kept"]),
    Family("step", step, 200, 2000, chunk=10, monitors=["step-weight", "step-hybrid-energy", "weights-non-negative"]),
    Family("run", run, 60, 800, chunk=4, monitors=["shift-is-weighted-hybrid-energy", "weights-capped", "total-weight-restored", "weights-non-negative",
                                                   "every-step-seen"]),
]
