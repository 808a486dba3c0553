"""Random FDTD set-ups shared by the checks of the FDTD library."""
import numpy as np
from harness import fdtdref as R

LATS = [(8, 8, 8), (10, 10, 10), (8, 12, 10), (10, 5, 10), (12, 8, 6), (16, 8, 8), (6, 9, 12)]
UNIT = 5e-7      # metres per lattice constant of dispersive media


def grid(rng, per=None, parity=(0, 0, 0), zones=None, cells=(9, 16), pml=None, wide=False, even=False):
    lat = LATS[rng.integers(len(LATS))]
    n = [int(rng.integers(*(cells[d] if np.ndim(cells) == 2 else cells))) for d in range(3)]
    if any(parity) or even:
        n = [q + q % 2 for q in n]
    if per and per[0] and rng.random() < 2:
        n[0] += n[0] % 2
    zs = []
    if zones is None:
        zones = rng.random() < 0.4 and not parity[2]
    if zones:
        h = n[2] // 2
        cuts = sorted(rng.choice(np.arange(1, n[2] - 1), size=2 if n[2] < 12 or rng.random() < 0.6 else 4, replace=False))
        for a, b in zip(cuts[::2], cuts[1::2]):
            m = int(rng.choice([lat[2] * 2, lat[2] * 3, lat[2] // 2 if lat[2] % 2 == 0 and (b - a) % 2 == 0 else lat[2] * 2]))
            zs.append((a / lat[2] - 0.5 * n[2] / lat[2], b / lat[2] - 0.5 * n[2] / lat[2], m))
    size = [n[d] / lat[d] for d in range(3)]
    if pml is None:
        pml = [int(x) for x in rng.integers(0 if rng.random() < 0.3 else 1, 4, size=6)]
    kw = {}
    if rng.random() < 0.5:
        kw = dict(order=tuple(np.round(rng.uniform(2, 4.5, 6), 3)), smax=tuple(np.round(rng.uniform(0.4, 2, 6), 3)),
                  kappa=tuple(np.round(rng.uniform(1, 2, 3), 3)))
    back = float(np.round(rng.choice([1.0, rng.uniform(1, 4)]), 3))
    g = R.Grid(size, lat, pml, 1.0, zones=zs, parity=parity, per=per or (0, 0, 0.0, 0.0), back=back, **kw)
    inv = np.sqrt(1 / g.dx ** 2 + 1 / g.dy ** 2 + 1 / min(g.full_dz) ** 2)
    g.S = float(np.round(inv * rng.uniform(1.3, 3.0) + 0.005, 3))
    g.dt = 1.0 / (R.C0 * g.S)
    order = list(g.zones)
    rng.shuffle(order)
    g.zones_given = [tuple(z) for z in order]
    return g


def setup(g):
    return g.script([(float(a), float(b), int(m)) for a, b, m in g.zones_given])


def objects(rng, g, n=None):
    out = []
    for _ in range(int(rng.integers(0, 3)) if n is None else n):
        s = g.size
        c = [float(rng.uniform(-0.3, 0.3) * s[d]) for d in range(3)]
        r = [float(rng.uniform(0.2, 0.6) * s[d]) for d in range(3)]
        e = float(rng.uniform(1.2, 12))
        k = rng.integers(4)
        if k == 0:
            out.append("object block - %.6g %.6g %.6g %.6g %.6g %.6g %.6g" % (*c, *r, e))
        elif k == 1:
            out.append("object rod - %.6g %.6g %.6g %.6g %.6g 0 %.6g" % (*c, r[0] / 2, r[2], e))
        elif k == 2:
            out.append("object sphere - %.6g %.6g %.6g %.6g 0 0 %.6g" % (*c, min(r) / 2, e))
        else:
            out.append("euler block %.6g %.6g %.6g %.6g %.6g %.6g %.6g %.6g %.6g %.6g" % (*c, *r, *rng.uniform(0, 180, 3), e))
    return out


def metals(rng, g, p=0.6, pec=True):
    out = []
    if rng.random() > p:
        return out
    for _ in range(int(rng.integers(1, 3))):
        s = g.size
        c = [float(rng.uniform(-0.35, 0.35) * s[d]) for d in range(3)]
        r = [float(rng.uniform(0.2, 0.6) * s[d]) for d in range(3)]
        f = g.dx * g.lat[0] / UNIT / g.dt
        wp, gam = rng.uniform(0.05, 0.8) * f, rng.choice([0.0, rng.uniform(0.001, 0.3) * f])
        eb = float(rng.uniform(1, 9))
        if pec and rng.random() < 0.25:
            eb, wp, gam = 1000.0, 0.0, 0.0
        sh = ["block", "rod", "sphere"][rng.integers(3)]
        z = {"block": r, "rod": (r[0] / 2, r[2], 0), "sphere": (min(r) / 2, 0, 0)}[sh]
        out.append("drude %s %.6g %.6g %.6g %.6g %.6g %.6g %.6g %.9g %.9g %.9g" % (sh, *c, *z, eb, wp, gam, UNIT))
    return out


def seed_fields(rng, g, per=8, box=None):
    """Random values at random nodes: script lines and [(component, ijk, value)]."""
    lines, pts = [], []
    for c in R.COMPS:
        sc = 1.0 if c[0] == "E" else 2.6e-3
        for _ in range(per):
            ijk = tuple(int(rng.integers(1, p)) if box is None else int(rng.integers(*box[d])) for d, p in enumerate(g.p))
            v = complex(rng.normal(), rng.normal() if g.complex else 0) * sc
            v = complex(np.float32(v.real), np.float32(v.imag))
            lines.append("set %s %d %d %d %.9g" % (c, *ijk, v.real))
            if g.complex:
                lines.append("set i%s %d %d %d %.9g" % (c, *ijk, v.imag))
            pts.append((c, ijk, v if g.complex else v.real))
    return lines, pts


def materials(a):
    return [a["epsilon" + x] for x in "xyz"], a["mepsilon"], a["momega"], a["mgamma"]


def got(b, c, g):
    return b[c] + 1j * b["i" + c] if g.complex else b[c]
