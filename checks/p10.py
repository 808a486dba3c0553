"""P10 QED coupled-cluster amplitude equations against the dense similarity-transformed Hamiltonian."""
import importlib
import itertools
import types
import numpy as np
from harness.vp import Family, Skip
from harness import ccoracle as O

ASSUMPTIONS = ["real Hermitian coupling (g = h), coherent-state basis (no linear boson term); amplitudes symmetric in the boson indices and "
               "antisymmetric in the electrons",
               "two-photon singles (U12) are judged for the reference equations only; two-photon doubles (U22) are not judged"]
BUDGET = {"quick": 200, "thorough": 1500}

IMPL = {"reference": ("openms.mqed.qedcc_equations", "qedccsd_sn_u2n"),
        "rewritten": ("openms.mqed.myqedcc_equations", "new_qedccsd_sn_u2n"),
        "optimised": ("openms.mqed.myqedcc_equations_opt", "new_qedccsd_sn_u2n")}


def system(rng, no, nv, nm):
    n = no + nv
    F = rng.normal(size=(n, n))
    F = F + F.T
    V = rng.normal(size=(n,) * 4)
    V = V - V.transpose(1, 0, 2, 3)
    V = V - V.transpose(0, 1, 3, 2)
    V = V + V.transpose(2, 3, 0, 1)
    g = rng.normal(size=(nm, n, n))
    return F, V, rng.uniform(0.2, 1, nm), g + g.transpose(0, 2, 1)


def blocks(x, no, rank):
    sl = {"o": slice(0, no), "v": slice(no, None)}
    ns = types.SimpleNamespace()
    for t in itertools.product("ov", repeat=rank):
        pre = (slice(None),) if x.ndim > rank else ()
        setattr(ns, "".join(t), x[pre + tuple(sl[c] for c in t)].copy())
    return ns


def anti(t):
    t = t - t.swapaxes(-4, -3)
    return t - t.swapaxes(-1, -2)


def symb(x, k):
    return sum(x.transpose(tuple(p) + tuple(range(k, x.ndim))) for p in itertools.permutations(range(k)))


def amplitudes(rng, no, nv, nm, nf1, nf2, u2, scale=1.0):
    r = lambda *s: scale * rng.normal(size=s)
    return (r(nv, no), anti(r(nv, nv, no, no)), [symb(r(*(nm,) * (k + 1)), k + 1) for k in range(nf1)],
            [symb(r(*(nm,) * (k + 1), nv, no), k + 1) for k in range(nf2)],
            [symb(anti(r(*(nm,) * (k + 1), nv, nv, no, no)), k + 1) if u2 else None for k in range(nf2)])


def dup(a):
    if isinstance(a, (list, tuple)):
        return type(a)(dup(x) for x in a)
    return None if a is None else a.copy()


def claimed(impl, nm, nf2, u2):
    s = {"T1", "T2", "S1", "S2", "U11"}
    if impl == "reference":
        s.add("U12")
    if nf2 == 1:
        s.add("U21")
    return s


SHAPES = [(2, 2, 1), (2, 2, 2), (2, 2, 3), (3, 2, 1), (2, 3, 2), (1, 3, 2), (3, 2, 2), (2, 4, 1), (1, 2, 3)]


def case(c, nf1, nf2, u2):
    rng = c.rng
    no, nv, nm = SHAPES[int(rng.integers(len(SHAPES)))]
    if nf2 == 2 and nm > 2:
        nm = 2
    if nf2 == 2 and no + nv > 5:
        no, nv = 2, 2
    if nf2 == 2 and u2 and nm > 1:
        no, nv, nm = 2, 2, 2      # two-photon doubles are written for one mode: other shapes do not broadcast
    scale = float(rng.choice([1.0, 0.1]))
    F, V, w, g = system(rng, no, nv, nm)
    a = amplitudes(rng, no, nv, nm, nf1, nf2, u2, scale)
    if rng.random() < 0.2:
        a[0][:] = 0.0
    if rng.random() < 0.2:
        g[:, :no, :no] *= 0
    c.desc(no=no, nv=nv, nm=nm, nfock1=nf1, nfock2=nf2, doubles=u2, scale=scale)
    c.cls(f"o{no}v{nv}m{nm}", f"nf1={nf1}", f"nf2={nf2}", "U2" if u2 else "noU2")
    sp = O.Space(no, nv, nm, max(nf1, nf2) + 1)
    _, r1, r2, rs, ru1, ru2 = sp.residuals(sp.hamiltonian(F, V, w, g), sp.cluster(*a), nf1, nf2, u2)
    ref = {"T1": r1, "T2": r2}
    for k in range(nf1):
        ref[f"S{k + 1}"] = rs[k]
    for k in range(nf2):
        ref[f"U1{k + 1}"] = ru1[k]
        if u2:
            ref[f"U2{k + 1}"] = ru2[k]
    for impl, (mod, fn) in IMPL.items():
        f = getattr(importlib.import_module(mod), fn)
        bF, bI, bg = blocks(F, no, 2), blocks(V, no, 4), blocks(g, no, 2)
        keep = dup(a)
        use = dup(a)
        o = f(bF, bI, w.copy(), bg, bg, np.zeros(nm), np.zeros(nm), nf1, nf2, use)
        got = {"T1": o[0], "T2": o[1]}
        for k in range(nf1):
            got[f"S{k + 1}"] = o[2][k]
        for k in range(nf2):
            got[f"U1{k + 1}"] = o[3][k]
            if u2:
                got[f"U2{k + 1}"] = o[4][k]
        for q in sorted(claimed(impl, nm, nf2, u2) & set(ref)):
            x = got[q]
            c.ok(x is not None and np.shape(x) == ref[q].shape, f"{impl}-{q}", "missing or misshapen residual")
            c.close(x, ref[q], f"{impl}-{q}", atol=1e-9 * (1 + np.abs(ref[q]).max()))
            c.events += 1
        flat = lambda t: [y for z in t for y in (flat(z) if isinstance(z, (list, tuple)) else [z])]
        c.ok(all(x is None or np.array_equal(x, y) for x, y in zip(flat(keep), flat(use))), "amplitudes-untouched")
        c.ok(all(np.array_equal(getattr(bI, k), v) for k, v in vars(blocks(V, no, 4)).items())
             and all(np.array_equal(getattr(bF, k), v) for k, v in vars(blocks(F, no, 2)).items()), "integrals-untouched")


def fam(nf1, nf2, u2):
    return lambda c: case(c, nf1, nf2, u2)


MON = ["amplitudes-untouched", "integrals-untouched"] + [f"{i}-{q}" for i in IMPL for q in ("T1", "T2", "S1", "U11")]
FAMILIES = [
    Family("singles", fam(1, 1, False), 24, 240, monitors=MON, chunk=4),
    Family("two-photon", fam(2, 1, False), 16, 160, monitors=MON + ["reference-S2"], chunk=4),
    Family("coupled-doubles", fam(1, 1, True), 16, 160, monitors=MON + ["reference-U21", "rewritten-U21", "optimised-U21"], chunk=4),
    Family("second-order", fam(2, 2, False), 12, 80, monitors=MON + ["reference-U12"], chunk=3),
    Family("two-photon-doubles", fam(2, 1, True), 8, 80, monitors=MON + ["reference-U21", "rewritten-U21", "optimised-U21"], chunk=2),
    Family("second-order-doubles", fam(2, 2, True), 8, 60, monitors=MON + ["reference-U12", "reference-S2"], chunk=2),
]
