"""P24 runs distributed over several ranks sample the same ensemble and report its energies."""
import numpy as np
from harness.vp import Family, Skip
from harness import systems as S, qmcsys as Q, mpisim

ASSUMPTIONS = ["mpi4py is not installed here: the communicator is replaced by an in-house one (a forked process per rank, collectives served by a hub); "
               "real MPI transport is out of reach"]
S.plain_kernels()
BUDGET = {"quick": 400, "thorough": 1800}


def draw(rng):
    name = str(rng.choice(["H2", "HeH+", "H3", "H4"]))
    nm = int(rng.choice([0, 0, 1, 2]))
    nst = int(rng.integers(5, 14))
    dt = float(rng.choice([0.005, 0.02]))
    kw = dict(nw=int(rng.integers(6, 14)), dt=dt, total_time=nst * dt, random_seed=int(rng.integers(0, 10 ** 6)), uhf=bool(rng.random() < 0.5),
              property_calc_freq=int(rng.integers(1, 4)), pop_control_freq=int(rng.integers(1, 6)), renorm_freq=int(rng.integers(1, 6)),
              pop_control_method=str(rng.choice(["branching", "reconfiguration", "comb"])), gmax=0.15, opts={})
    if nm:
        kw["opts"] = {"decouple_bilinear": bool(rng.random() < 0.4)}
    return name, nm, nst, kw


def good(c, err):
    if err is None:
        return
    if err[0] == "mismatch":
        c.fail("collectives-matched", err[1])
    c.fail("ranks-finish", err[1] + "\n" + err[2][-600:])


def traced(q):
    """record after every weight control the weights, energies and the first draw"""
    w = q.walkers
    if not hasattr(w, "weight_control"):
        raise Skip()
    log, wc, loc = [], w.weight_control, q.propagator.local_energy

    def control(step, *a, **k):
        r = wc(step, *a, **k)
        log.append(["w", np.array(w.weights)])
        return r

    def local(*a, **k):
        r = loc(*a, **k)
        log.append(["e", np.array(w.weights), np.array(w.eloc)])
        return r

    w.weight_control, q.propagator.local_energy = control, local
    return log


def ensemble(c):
    rng = c.rng
    name, nm, nst, kw = draw(rng)
    size = int(rng.integers(2, 5))
    c.desc(mol=name, modes=nm, ranks=size, **kw)
    c.cls(name, f"modes={nm}", f"ranks={size}", kw["pop_control_method"], f"uneven={kw['nw'] % size > 0}", f"dec={kw['opts'].get('decouple_bilinear')}")
    st = rng.bit_generator.state

    def rank(r, n):
        g = np.random.default_rng()
        g.bit_generator.state = st
        np.random.seed(1000 + r)
        q, *_ = Q.afqmc(g, name, nm, variant=0, **kw)
        log = traced(q)
        w0 = q.walkers.nwalkers
        old, draws = np.random.normal, []

        def normal(*a, **k):
            x = old(*a, **k)
            if len(draws) < 1:
                draws.append(np.array(x).ravel()[:4])
            return x

        np.random.normal = normal
        t, e = S.quiet(q.kernel)
        return dict(n=w0, e=np.array(e), t=np.array(t), log=log, draw=draws[0] if draws else None, target=float(q.walkers.total_weight0), shift=complex(q.eshift))

    runs = []
    for k in range(2):
        res, trace, err = mpisim.run(size, rank)
        good(c, err)
        runs.append(res)
        if k == 0:
            c.events += len(trace)
            c.cls(f"collectives={min(len(trace) // 20 * 20, 200)}")
    a, b = runs
    cnt = [x["n"] for x in a]
    c.ok(sum(cnt) == kw["nw"] and max(cnt) - min(cnt) <= 1, "walkers-distributed", "", counts=cnt, want=kw["nw"])
    for r in range(1, size):
        c.ok(np.array_equal(a[r]["e"], a[0]["e"]) and np.array_equal(a[r]["t"], a[0]["t"]), "ranks-agree", "", e0=a[0]["e"][:3], er=a[r]["e"][:3])
        c.close(a[r]["shift"], a[0]["shift"], "shift-agrees", atol=1e-12)
    es = [[x for x in res["log"] if x[0] == "e"] for res in a]
    want = []
    for k in range(len(es[0])):
        W = sum(x[k][1].sum() for x in es)
        want.append(sum(np.dot(x[k][1], x[k][2].real) for x in es) / W)
    c.close(a[0]["e"], np.array(want), "energy-of-whole-ensemble", atol=1e-9)
    ws = [[x[1].sum() for x in res["log"] if x[0] == "w"] for res in a]
    f = kw["pop_control_freq"]
    for k in range(len(ws[0])):
        if (k + 1) % f == 0:
            c.close(sum(x[k] for x in ws), kw["nw"], "total-weight-restored", atol=1e-8)
    for r in range(size):
        c.ok(np.array_equal(a[r]["e"], b[r]["e"]), "parallel-run-reproducible", "", first=a[r]["e"][:3], second=b[r]["e"][:3])
    d = [x["draw"] for x in a]
    if all(x is not None and len(x) for x in d):
        for r in range(1, size):
            c.ok(not np.array_equal(d[r], d[0]), "ranks-draw-different-fields")


def serial(c):
    """with the same fields handed out (debug mode) the distributed run is the serial run"""
    rng = c.rng
    name, nm, nst, kw = draw(rng)
    nm = 0
    kw.update(opts={}, pop_control_freq=10 ** 6)
    size = int(rng.integers(2, 5))
    c.desc(mol=name, ranks=size, **kw)
    c.cls(name, f"ranks={size}", f"uneven={kw['nw'] % size > 0}", f"uhf={kw['uhf']}")
    st = rng.bit_generator.state

    def rank(r, n):
        g = np.random.default_rng()
        g.bit_generator.state = st
        q, *_ = Q.afqmc(g, name, nm, variant=0, **kw)
        if not hasattr(q.propagator, "debug_mpi"):
            return None
        q.propagator.debug_mpi = n > 1
        t, e = S.quiet(q.kernel)
        return np.array(e), np.array(q.walkers.weights), np.array(q.walkers.phiwa), complex(q.eshift)

    par, trace, err = mpisim.run(size, rank)
    good(c, err)
    one, _, err = mpisim.run(1, rank)
    good(c, err)
    if one[0] is None or par[0] is None:
        raise Skip()
    for r in range(size):
        c.close(par[r][0], one[0][0], "same-energies-as-serial", atol=1e-8)
        c.close(par[r][3], one[0][3], "same-shift-as-serial", atol=1e-8)
    c.close(np.concatenate([p[1] for p in par]), one[0][1], "same-weights-as-serial", atol=1e-8)
    c.close(np.concatenate([p[2] for p in par]), one[0][2], "same-walkers-as-serial", atol=1e-7)
    c.events += len(trace)


FAMILIES = [
    Family("ensemble", ensemble, 24, 300, chunk=2, monitors=["walkers-distributed", "ranks-agree", "energy-of-whole-ensemble", "total-weight-restored",
                                                             "parallel-run-reproducible", "ranks-draw-different-fields"]),
    Family("serial", serial, 24, 300, chunk=2, monitors=["same-energies-as-serial", "same-weights-as-serial", "same-walkers-as-serial"]),
]
