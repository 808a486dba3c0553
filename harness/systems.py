"""Workload builders shared by the checks (small real molecules and cavities)."""
import io
import contextlib
import numpy as np

_cache = {}


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a, **k)


MOLS = {
    "H2": ("H 0 0 0; H 0 0 {b}", 1.4, 0),
    "HeH+": ("He 0 0 0; H 0 0 {b}", 1.46, 1),
    "LiH": ("Li 0 0 0; H 0 0 {b}", 3.0, 0),
    "HF": ("H 0 0 0; F 0 0 {b}", 1.8, 0),
    "H2O": ("O 0 0 0.22; H 0 {b} -0.88; H 0.1 -1.43 -0.85", 1.43, 0),
    "H4": ("H 0 0 0; H 0 0 {b}; H 0.3 0 3.6; H 0 0.4 5.5", 1.6, 0),
    "H3+": ("H 0 0 0; H 0 0 {b}; H 0 1.5 0.8", 1.7, 1),
    "HeLi+": ("He 0 0 0; Li 0.2 0.1 {b}", 3.1, 1),
    "H3": ("H 0 0 0; H 0 0 {b}; H 0 1.9 0.4", 1.7, 0),   # doublet
    "OH": ("O 0 0 0; H 0 0 {b}", 1.83, 0),               # doublet
    "BH": ("B 0 0 0; H 0 0 {b}", 2.33, 0),
}


def mol(name, basis="sto-3g", b=None, spin=None, rot=None, shift=None, unit="Bohr"):
    from pyscf import gto

    tmpl, b0, charge = MOLS[name]
    atom = tmpl.format(b=b0 if b is None else b)
    m = gto.M(atom=atom, basis=basis, unit=unit, charge=charge, verbose=0,
              spin=spin if spin is not None else {"H3": 1, "OH": 1}.get(name, 0))
    if rot is not None or shift is not None:
        xyz = m.atom_coords()
        if rot is not None:
            xyz = xyz @ np.asarray(rot).T
        if shift is not None:
            xyz = xyz + np.asarray(shift)
        m = gto.M(atom=[(m.atom_symbol(i), xyz[i]) for i in range(m.natm)], basis=basis, unit="Bohr",
                  charge=m.charge, spin=m.spin, verbose=0)
    return m


DSHELL = [[0, [1.1, 1.0]], [2, [0.9, 1.0]]]


def variant(rng, m, p=0.2, kinds=None):
    """Now and then the same molecule set up in a less common way: d shells (spherical or Cartesian), functions without a nucleus,
    an effective core, a nucleus of fractional charge, declared symmetry, a tight nonspherical basis.  Returns (label, mole)."""
    from pyscf import gto

    if rng.random() >= p:
        return "plain", m
    sym = [m.atom_symbol(i) for i in range(m.natm)]
    xyz = [tuple(x) for x in m.atom_coords()]
    small = m.natm == 2 and m.nao_nr() <= 4 and set(sym) <= {"H", "He"}
    can = ["symmetry"] + (["ghost"] if m.nao_nr() <= 6 else []) + (["cart", "cart", "d"] if small else []) + (["core"] * 2 if "Li" in sym else [])
    can = [k for k in can if kinds is None or k in kinds]
    if not can:
        return "plain", m
    how = str(rng.choice(can))
    kw = dict(atom=list(zip(sym, xyz)), basis=m.basis, charge=m.charge, spin=m.spin, verbose=0, unit="Bohr")
    if how == "symmetry":
        kw["symmetry"] = True
    elif how == "ghost":
        kw["atom"] = kw["atom"] + [("ghost-H", tuple(np.mean(xyz, axis=0) + rng.normal(size=3) * 1.5))]
        if isinstance(m.basis, dict):
            kw["basis"] = dict(m.basis, **{"ghost-H": "sto-3g"})
    elif how in ("cart", "d"):
        el = sorted(set(sym))
        kw["basis"] = {e: (DSHELL if e == el[0] else "sto-3g") for e in el}
        kw["cart"] = how == "cart"
        if len(el) == 1:
            kw["basis"] = {el[0]: DSHELL}
    elif how == "core":
        kw["ecp"] = {"Li": "ccecp"}
    new = gto.M(**kw)
    return how, new


def neighbours(rng, names=("H2", "HeH+", "H3+", "LiH"), n=4, bases=("sto-3g", "6-31g"), open_shell=False):
    """A series of molecules that differ little from each other: (label, mole).  Molecule objects may be altered in place between
    items (as in scans of the geometry), so each is to be used before the next one is asked for."""
    from pyscf import gto

    name = str(rng.choice(list(names)))
    cur = mol(name, bases[0], b=float(MOLS[name][1] * rng.uniform(0.9, 1.3)))
    base = cur
    yield "first", cur
    for _ in range(n - 1):
        how = str(rng.choice(["in-place", "in-place", "copy", "unit", "basis", "back", "element", "twin"] + (["charge"] if open_shell else [])))
        sym = [base.atom_symbol(i) for i in range(base.natm)]
        if how == "in-place":
            cur.set_geom_(cur.atom_coords() * float(rng.uniform(1.03, 1.25)), unit="Bohr")
        elif how == "copy":
            cur = cur.copy()
            cur.set_geom_(cur.atom_coords() * float(rng.uniform(0.85, 0.97)) + rng.normal(size=3) * 0.2, unit="Bohr")
        elif how == "unit":
            # the same text in the other unit
            xyz = base.atom_coords() * 0.75
            cur = gto.M(atom=[(s, tuple(x)) for s, x in zip(sym, xyz)], basis=bases[0], charge=base.charge, spin=base.spin, verbose=0,
                        unit=str(rng.choice(["Angstrom", "Bohr"])))
        elif how == "basis":
            cur = gto.M(atom=[(s, tuple(x)) for s, x in zip(sym, cur.atom_coords())], basis=bases[-1], charge=base.charge, spin=base.spin,
                        verbose=0, unit="Bohr")
        elif how == "element":
            if len(sym) != 2:
                continue
            el = {"H2": ("He", "H", 1), "HeH+": ("H", "H", 0), "LiH": ("H", "H", 0)}.get(name, ("H", "H", 0))
            cur = gto.M(atom=[(s, tuple(x)) for s, x in zip(el, cur.atom_coords())], basis=bases[0], charge=el[2], verbose=0, unit="Bohr")
        elif how == "charge":
            if base.natm != 3:
                continue
            cur = gto.M(atom=[(s, tuple(x)) for s, x in zip(sym, cur.atom_coords())], basis=bases[0], charge=0, spin=1, verbose=0, unit="Bohr")
        elif how == "twin":
            cur = gto.M(atom=[(cur.atom_symbol(i), tuple(x)) for i, x in enumerate(cur.atom_coords())], basis=cur.basis, charge=cur.charge,
                        spin=cur.spin, verbose=0, unit="Bohr")
        else:
            cur = base
        yield how, cur


def rotation(rng):
    q = rng.normal(size=4)
    q /= np.linalg.norm(q)
    w, x, y, z = q
    return np.array([
        [1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
        [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
        [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])


def rand_modes(rng, nmodes, gmin=0.01, gmax=0.2, wmin=0.1, wmax=1.0, axis=None):
    """(omega, vec): vec[k] = lambda_k * unit vector"""
    omega = rng.uniform(wmin, wmax, nmodes)
    v = rng.normal(size=(nmodes, 3))
    if axis is not None:
        v[:] = 0
        v[:, axis] = 1
    v /= np.linalg.norm(v, axis=1)[:, None]
    lam = rng.uniform(gmin, gmax, nmodes)
    return omega, v * lam[:, None]


def cplx(rng, *shape):
    return rng.normal(size=shape) + 1j * rng.normal(size=shape)


def herm(rng, n, scale=1.0, real=True):
    a = rng.normal(size=(n, n)) if real else cplx(rng, n, n)
    return scale * 0.5 * (a + a.conj().T)


def sym_eri(rng, n, nchol, scale=0.3):
    L = rng.normal(size=(nchol, n, n)) * scale
    L = 0.5 * (L + L.transpose(0, 2, 1))
    return L, np.einsum("gpq,grs->pqrs", L, L)


def plain_kernels():
    """import the estimator and propagator kernels uncompiled (the compiled ones are exercised by P12-P14, P16 and P21);
    saves the compilation in every worker process"""
    try:
        import numba
    except ImportError:
        return
    keep = numba.njit, numba.prange

    def njit(*a, **k):
        return a[0] if a and callable(a[0]) else (lambda f: f)
    numba.njit, numba.prange = njit, range
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            import openms.qmc.afqmc  # noqa
    finally:
        numba.njit, numba.prange = keep


def fresh(modname):
    """a second instance of a module of the code under test, executed with whatever compiler is installed"""
    import importlib.util

    spec = importlib.util.find_spec(modname)
    m = importlib.util.module_from_spec(spec)
    m.__name__ = modname
    with contextlib.redirect_stdout(io.StringIO()):
        spec.loader.exec_module(m)
    return m
