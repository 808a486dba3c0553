"""P32 dynamics: integrators, kinetic quantities, and the output of earlier runs."""
import contextlib
import io
import os
import shutil
import tempfile
import warnings
import numpy as np
from harness import vp
from harness.vp import Family, Skip
from harness import systems as S

ASSUMPTIONS = ["complete trajectories cannot be run: the drivers miss methods of their own (next_velocity, temperature, get_etot); their steps are exercised one by one"]
BUDGET = {"quick": 300, "thorough": 1500}
AU2K, AU2A, AMU = 3.15774646e5, 0.529177249, 1822.888486
EL = ["H", "He", "Li", "C", "N", "O", "F", "Na", "Cl"]


def matrix_step(A, h, y):
    out, term = y.copy(), y.copy()
    for k in range(1, 5):
        term = h * (A @ term) / k
        out = out + term
    return out


def linear(c):
    """one step on a linear system is the Taylor series to fourth order"""
    from openms.qmd.propagator import rk4
    rng = c.rng
    n, m = int(rng.integers(1, 7)), int(rng.integers(0, 3))
    cplx = rng.random() < 0.5
    shape = (n,) if m == 0 else (n, m)
    A, y = rng.normal(size=(n, n)), rng.normal(size=shape)
    if cplx:
        A, y = A + 1j * rng.normal(size=(n, n)), y + 1j * rng.normal(size=shape)
    h = float(rng.choice([1, -1]) * 10 ** rng.uniform(-3, 0.3))
    t0 = float(rng.normal() * 5)
    c.desc(n=n, m=m, complex=bool(cplx), dt=h, t0=t0)
    y0, times = y.copy(), []

    def f(t, x):
        times.append(t)
        return A @ x
    out = rk4(f, t0, y, h)
    want = matrix_step(A, h, y)
    c.close(out, want, "fourth-order-step", atol=1e-13 * max(1, np.abs(want).max()) * 10, rtol=0)
    c.ok(np.array_equal(y, y0), "state-untouched", "the state handed in was changed")
    c.ok(min(times) >= min(t0, t0 + h) - 1e-12 and max(times) <= max(t0, t0 + h) + 1e-12, "evaluation-times", f"{times} for a step from {t0} by {h}")
    c.events += len(times)


def explicit_time(c):
    """right-hand sides that depend on time: exact for cubic polynomials, local error of fifth order"""
    from openms.qmd.propagator import rk4
    rng = c.rng
    p = np.poly1d(rng.normal(size=int(rng.integers(1, 5))))
    t0, h = float(rng.normal()), float(10 ** rng.uniform(-2, 1))
    y = complex(rng.normal(), rng.normal()) if rng.random() < 0.5 else float(rng.normal())
    c.desc(p=list(p.coef), t0=t0, dt=h)
    P = p.integ()
    want = y + P(t0 + h) - P(t0)
    c.close(rk4(lambda t, x: p(t), t0, y, h), want, "fourth-order-step", atol=1e-12 * max(1, abs(P(t0 + h)), abs(P(t0))) * 10, rtol=0)
    # y' = a cos(wt+s) y  has the solution  y exp(a (sin(wt+s) - sin(s0)) / w)
    a, w, s = rng.uniform(0.5, 1.5), rng.uniform(0.5, 1.5), rng.uniform(0, 6)
    f = lambda t, x: a * np.cos(w * t + s) * x
    ex = lambda t: np.exp(a * (np.sin(w * t + s) - np.sin(w * t0 + s)) / w)
    err = []
    for k in (8, 16):
        x, t = 1.0, t0
        for _ in range(k):
            x = rk4(f, t, x, 2.0 / k)
            t += 2.0 / k
        err.append(abs(x - ex(t0 + 2.0)))
    c.ok(err[0] < 3e-3 * ex(t0 + 2.0) + 3e-3, "global-order", f"errors {err}")
    c.ok(err[1] < max(err[0] / 6, 2e-5 * np.exp(a / w)), "global-order", f"halving the step changes the error from {err[0]:.3g} to {err[1]:.3g}")
    c.events += 24


def molecules(c, k=None):
    from openms.lib.misc import Molecule
    rng = c.rng
    out = []
    for _ in range(k or int(rng.integers(1, 4))):
        n = int(rng.integers(1, 5))
        el = [EL[int(rng.integers(len(EL)))] for _ in range(n)]
        xyz = rng.normal(size=(n, 3)) * 2 + np.arange(n)[:, None] * 3
        ns = int(rng.integers(1, 4))
        q = sum({"H": 1, "He": 2, "Li": 3, "C": 6, "N": 7, "O": 8, "F": 9, "Na": 11, "Cl": 17}[e] for e in el) % 2
        m = S.quiet(Molecule, atom=[[e, tuple(x)] for e, x in zip(el, xyz)], basis="sto-3g", unit="Bohr", charge=q, nstates=ns, verbose=0)
        c.ok(np.allclose(m.coords, xyz, atol=1e-9), "molecule-set-up", "coordinates")
        c.ok(len(m.states) == ns and m.nstates == ns, "molecule-set-up", f"{len(m.states)} states")
        c.ok(m.ndof == 3 * n, "molecule-set-up", "degrees of freedom")
        c.ok(np.array_equal(m.veloc, np.zeros((n, 3))), "molecule-set-up", "at rest")
        from pyscf.data import elements
        want = np.array([elements.COMMON_ISOTOPE_MASSES[elements.charge(e)] for e in el]) * AMU
        c.close(m.mass, want, "molecule-set-up", atol=0, rtol=1e-6, msg="masses")
        c.ok(m.nac.shape == (ns, ns, n, 3) and m.rho.shape == (ns, ns), "molecule-set-up", "coupling arrays")
        out.append(m)
    c.desc(atoms=[m.natm for m in out], states=[m.nstates for m in out], first=float(out[0].coords[0, 0]))
    return out


def verlet(c):
    """velocity Verlet built from the position and velocity updates"""
    from openms.qmd.bomd import BOMD
    rng = c.rng
    ms = molecules(c)
    dt = float(10 ** rng.uniform(-1, 1.2))
    state = int(rng.integers(min(m.nstates for m in ms)))
    md = BOMD(ms, dt=dt, seed=int(rng.integers(1000)))
    c.ok(md.dt == dt and md.mol is ms, "velocity-verlet", "time step is taken over")
    ref, K, X0 = [], [], []
    for m in ms:
        m.veloc = rng.normal(size=m.coords.shape) * 1e-3
        k = rng.uniform(0.01, 0.5)
        K.append(k), X0.append(m.coords + rng.normal(size=m.coords.shape) * 0.2)
        ref.append([m.coords.copy(), m.veloc.copy()])

    def force(m, q):
        for s, st in enumerate(m.states):
            st.forces = -K[q] * (1 + 0.3 * s) * (m.coords - X0[q])

    def energy():
        e = 0.0
        for q, m in enumerate(ms):
            m.get_ekin()
            want = 0.5 * (m.mass[:, None] * m.veloc ** 2).sum()
            c.close(m.ekin, want, "kinetic-energy", atol=0, rtol=1e-12)
            e += m.ekin + 0.5 * K[q] * (1 + 0.3 * state) * ((m.coords - X0[q]) ** 2).sum()
        return e
    mlist = [m.mass[:, None] for m in ms]
    w = max(np.sqrt(K[q] * (1 + 0.3 * state) / ms[q].mass.min()) for q in range(len(ms)))
    e0 = energy()
    n = int(rng.integers(1, 30))

    def go(sign):
        for _ in range(n):
            for q, m in enumerate(ms):
                force(m, q)
            md.next_velocity_many_molecule(state) if state else md.next_velocity_many_molecule()
            md.next_position()
            for q, m in enumerate(ms):
                force(m, q)
            md.next_velocity_many_molecule(current_state=state)
            for q, m in enumerate(ms):
                if sign < 0:
                    continue
                x, v = ref[q]
                a = -K[q] * (1 + 0.3 * state) * (x - X0[q]) / mlist[q]
                x2 = x + dt * v + 0.5 * dt * dt * a
                a2 = -K[q] * (1 + 0.3 * state) * (x2 - X0[q]) / mlist[q]
                ref[q] = [x2, v + 0.5 * dt * (a + a2)]
                c.close(m.coords, x2, "velocity-verlet", atol=1e-9, rtol=1e-9, msg="position")
                c.close(m.veloc, ref[q][1], "velocity-verlet", atol=1e-12, rtol=1e-9, msg="velocity")
                c.events += 1
    start = [(m.coords.copy(), m.veloc.copy()) for m in ms]
    go(1)
    if w * dt < 0.2:
        c.ok(abs(energy() - e0) < 0.1 * (w * dt) ** 2 * abs(e0) * 5 + 1e-12, "energy-conserved", f"{energy()} after {e0}")
    T = md.temperature_many_molecule()
    want = sum(0.5 * (m.mass[:, None] * m.veloc ** 2).sum() for m in ms) * 2 / sum(3 * m.natm for m in ms) * AU2K
    c.close(T, want, "temperature", atol=0, rtol=1e-6)
    for m in ms:
        m.veloc = -m.veloc
    go(-1)
    for m, (x, v) in zip(ms, start):
        c.close(m.coords, x, "time-reversible", atol=1e-9, rtol=0)
        c.close(m.veloc, -v, "time-reversible", atol=1e-11, rtol=0)


def independent(c):
    """molecules and states do not share their arrays"""
    ms = molecules(c, 2)
    a, b = ms
    for m in ms:
        for s in m.states:
            s.force[:] = 0
    a.states[0].force += 1.0
    a.states[0].energy = 3.0
    a.veloc += 1.0
    a.coords += 1.0
    a.nac += 1.0
    c.ok(not b.states[0].force.any() and b.states[0].energy == 0.0, "states-are-separate", "states of another molecule changed")
    c.ok(all(not s.force.any() for s in a.states[1:]), "states-are-separate", "another state changed")
    c.ok(not b.veloc.any() and not b.nac.any() and not a.nac_old.any(), "states-are-separate", "velocities or couplings changed")
    a.reset_bo(False)
    c.ok((a.nac == 1).all(), "states-are-separate", "couplings are kept without coupling calculation")
    a.reset_bo(True)
    c.ok(not a.nac.any(), "states-are-separate", "couplings are reset")
    a.lnacme, a.nacme = True, a.nacme + 1
    a.reset_bo(True)
    c.ok(not a.nacme.any() and a.nacme.shape == (a.nstates, a.nstates), "states-are-separate", "couplings are reset")
    txt = str(a)
    rows = [r for r in txt.splitlines() if r.strip() and r.split()[0] in EL and len(r.split()) > 4]
    c.ok(len(rows) == a.natm, "molecule-set-up", "listing has one row per atom")
    for k, r in enumerate(rows):
        v = np.array(r.replace("-", " -").split()[1:], float)
        c.close(v[:3], a.coords[k], "molecule-set-up", atol=1e-6, rtol=0, msg="coordinates listed")
        c.close(v[3:6], a.veloc[k], "molecule-set-up", atol=1e-6, rtol=0, msg="velocities listed")


@contextlib.contextmanager
def scratch():
    back = os.getcwd()
    d = os.path.realpath(tempfile.mkdtemp(prefix="vp-md-"))
    try:
        yield d
    finally:
        os.chdir(back)
        shutil.rmtree(d, ignore_errors=True)


def tree(d):
    out = {}
    for r, ds, fs in os.walk(d):
        for f in fs:
            out[os.path.relpath(os.path.join(r, f), d)] = open(os.path.join(r, f)).read()
    return out


class Qm:
    qm_prog, qm_method = "none", "none"


def directories(c):
    """history of starts and restarts over one output directory: nothing written before is lost"""
    from openms.qmd.bomd import BOMD
    rng = c.rng
    n = int(rng.integers(1, 7))
    kinds = [[None, "write", "append", "APPEND", "Write"][int(rng.integers(5))] for _ in range(n)]
    logs = [bool(rng.integers(2)) for _ in range(n)]
    ct = bool(rng.random() < 0.25)
    trajs = int(rng.integers(1, 4))
    c.desc(history=list(zip([str(k) for k in kinds], logs)), trajectories=trajs if ct else 0)
    with scratch() as d:
        out = os.path.join(d, "run")
        written = {}
        for k, (kind, log) in enumerate(zip(kinds, logs)):
            md = BOMD([], dt=1.0)
            if ct:
                md.md_type, md.ntrajs, md.digit = "CT", trajs, 3
            os.chdir(d)
            where = out if rng.random() < 0.5 else os.path.relpath(out, d)
            mds = [os.path.join(out, f"TRAJ_{q + 1:03d}", "md") for q in range(trajs)] if ct else [os.path.join(out, "md")]
            bad = kind is not None and kind.lower() == "append" and not all(os.path.isdir(p) for p in mds)
            before = sorted(tree(d).values())
            if bad:
                c.raises(ValueError, lambda: md.initialize(Qm(), where, log, restart=kind), "append-needs-directory")
                c.ok(sorted(tree(d).values()) == before, "output-kept", "a refused restart changed files")
                continue
            r = S.quiet(md.initialize, Qm(), where, log, restart=kind)
            r = [[x] if isinstance(x, str) else x for x in r]
            c.ok([os.path.realpath(x) for x in r[1]] == mds, "directories-made", f"{r[1]}")
            c.ok(all(os.path.isdir(x) for x in mds), "directories-made", "output directory is missing")
            c.ok(all(os.path.isdir(x) == True for x in r[2]) if log else True, "directories-made", "log directory is missing")
            c.ok(os.path.realpath(os.getcwd()) == os.path.dirname(mds[0]), "directories-made", "works in the base directory")
            c.ok(sorted(tree(d).values()) == before, "output-kept", f"files after start {k} ({kind}): {len(tree(d))}, before {len(before)}")
            fresh = kind is None or kind.lower() == "write"
            for p in mds:
                c.ok((not os.listdir(p)) if fresh else True, "directories-made", "a fresh run starts from an empty directory")
                if not fresh:
                    c.ok(set(written.get(p, [])) <= set(os.listdir(p)), "output-kept", "appending removed files")
                name = f"f{k}"
                open(os.path.join(p, name), "w").write(f"md {p} {k}")
                written[p] = ([] if fresh else written.get(p, [])) + [name]
            if log:
                for p in r[2]:
                    open(os.path.join(p, f"g{k}"), "w").write(f"log {p} {k}")
            c.events += 1
        md = BOMD([], dt=1.0)
        os.chdir(d)
        c.raises(ValueError, lambda: md.initialize(Qm(), out, restart=str(rng.choice(["yes", "new", "app end"]))), "append-needs-directory")


def final(c):
    """the final geometry file holds positions in Angstrom and velocities of every atom"""
    from openms.qmd.bomd import BOMD
    from openms.lib.misc import typewriter
    rng = c.rng
    m = molecules(c, 1)[0]
    m.veloc = rng.normal(size=m.coords.shape) * 10 ** rng.uniform(-4, 1)
    md = BOMD(m, dt=1.0)
    step = int(rng.integers(0, 5000))
    with scratch() as d:
        md.write_final_xyz(d, step)
        t = open(os.path.join(d, "FINAL.xyz")).read().splitlines()
        c.ok(int(t[0]) == m.natm and len(t) == m.natm + 2, "final-geometry", f"{t[:1]} in {len(t)} lines")
        c.ok(f"{step + 1}" in t[1].replace(":", " ").split(), "final-geometry", t[1])
        for k, r in enumerate(t[2:]):
            c.ok(r.split()[0] == m._atom[k][0], "final-geometry", "element")
            v = [float(r[5 + 15 * q: 20 + 15 * q]) for q in range(6)]
            c.close(v[:3], m.coords[k] * AU2A, "final-geometry", atol=1e-7, rtol=0)
            c.close(v[3:], m.veloc[k], "final-geometry", atol=1e-7, rtol=0)
        a, b = "x" * int(rng.integers(0, 9)), "second"
        typewriter(a, d, "log", "w")
        typewriter(b, d, "log", "a")
        c.ok(open(os.path.join(d, "log")).read() == f"{a}\n{b}\n", "final-geometry", "appended text")
        typewriter(b, d, "log", "w")
        c.ok(open(os.path.join(d, "log")).read() == f"{b}\n", "final-geometry", "overwritten text")


def seeds(c):
    """seeded random numbers repeat; decorators hand results through"""
    from openms import qmd
    from openms.qmd.bomd import BOMD
    from openms.lib import misc
    rng = c.rng
    s = int(rng.integers(0, 2 ** 31))
    c.desc(seed=s)
    a, b = BOMD([], seed=s).prng.random_sample(5), BOMD([], seed=s).prng.random_sample(5)
    c.ok(np.array_equal(a, b), "seeded-runs-repeat", "seeds of the dynamics object")
    c.ok(not np.array_equal(a, BOMD([], seed=s + 1).prng.random_sample(5)), "seeded-runs-repeat", "different seeds give the same numbers")
    st = np.random.get_state()[1].copy()
    qmd.set_seed(s)
    x = qmd.rng.random(4)
    qmd.set_seed(s)
    c.ok(np.array_equal(x, qmd.rng.random(4)), "seeded-runs-repeat", "seed of the module")
    c.ok(np.array_equal(st, np.random.get_state()[1]), "seeded-runs-repeat", "global random numbers were consumed")
    v = [rng.normal(size=3), None, 0, "x"][int(rng.integers(4))]
    got = []

    def f(*a, **k):
        got.append((a, k))
        if k.get("fail"):
            raise KeyError("x")
        return v
    for deco in (misc.wall_time, misc.deprecated):
        got.clear()
        g = deco(f)
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            with contextlib.redirect_stdout(io.StringIO()):
                r = g(1, s, z=v)
                c.raises(KeyError, lambda: g(fail=True), "decorators-transparent")
        c.ok(r is v and got[0][0] == (1, s) and got[0][1]["z"] is v and len(got) == 2, "decorators-transparent", f"{deco.__name__} returned {r!r}")
        c.ok(g.__name__ == "f", "decorators-transparent", "name")
        if deco is misc.deprecated:
            c.ok(any(q.category is DeprecationWarning for q in w), "decorators-transparent", "no warning")
    # line shapes
    k, sg, x0 = rng.normal(), 10 ** rng.uniform(-2, 1), rng.normal()
    t = np.linspace(-12, 12, 4001)
    y = misc.gaussian1d(x0 + sg * t, k, sg, x0)
    c.close(np.trapezoid(y, sg * t), k, "line-shapes", atol=1e-9, rtol=1e-9)
    c.close(np.trapezoid(y * (sg * t) ** 2, sg * t), k * sg ** 2, "line-shapes", atol=1e-9, rtol=1e-9)
    th = np.linspace(-1.5, 1.5, 7)
    c.close(misc.Lorentz1d(x0 + sg * np.tan(th), k, sg, x0), k / sg * np.cos(th) ** 2, "line-shapes", atol=1e-12 / sg, rtol=1e-10)
    c.ok(misc.gaussian1d(t, k, -sg, x0) is not None and np.all(np.asarray(misc.gaussian1d(t, k, -sg, x0)) == -1) and np.all(np.asarray(misc.Lorentz1d(t, k, -sg, x0)) == -1),
         "line-shapes", "negative widths are refused")


FAMILIES = [
    Family("linear", linear, 1800, 8000, monitors=["fourth-order-step", "state-untouched", "evaluation-times"]),
    Family("explicit-time", explicit_time, 1200, 5000, monitors=["fourth-order-step", "global-order"]),
    Family("verlet", verlet, 360, 1500, monitors=["velocity-verlet", "kinetic-energy", "energy-conserved", "temperature", "time-reversible", "molecule-set-up"]),
    Family("independent", independent, 180, 500, monitors=["states-are-separate", "molecule-set-up"]),
    Family("directories", directories, 480, 2500, monitors=["directories-made", "output-kept", "append-needs-directory"]),
    Family("final", final, 240, 800, monitors=["final-geometry", "molecule-set-up"]),
    Family("seeds", seeds, 360, 800, monitors=["seeded-runs-repeat", "decorators-transparent", "line-shapes"]),
]
