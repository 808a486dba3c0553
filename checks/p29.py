"""P29 FDTD structures: material maps follow the objects, layer maps follow the zones."""
import numpy as np
from harness import vp
from harness.vp import Family, Skip
from harness import fdtdsim as X, fdtdref as R, fdtdgen as G, fdtdobs as O

ASSUMPTIONS = ["the library is compiled with clang under ASan+UBSan and MSan with a stand-in for GSL's generator",
               "nodes whose cell corners lie within 4e-4 cells of a surface are not judged"]
BUDGET = {"quick": 300, "thorough": 1200}
SNAPPED = ["rod", "donut", "ellipse", "cone", "block", "contour"]     # usable in stretched layers
FREE = ["rodX", "rodY", "sphere", "shell", "ellipsoidal"]


def prepare(tier):
    X.build("asan")
    X.build("msan")


def num(x):
    return float("%.6g" % x)


def shape(rng, g, kinds, files, euler=False):
    k = kinds[rng.integers(len(kinds))]
    s = g.size
    c = [num(rng.uniform(-0.4, 0.4) * s[d]) for d in range(3)]
    r = sorted(num(rng.uniform(0.08, 0.45) * min(s[:2])) for _ in range(2))
    h = num(rng.uniform(0.15, 0.8) * s[2])
    mat = None
    if k in ("rod",):
        z = (r[1], h, 0.0)
    elif k == "rodX":
        z = (num(rng.uniform(0.1, 0.4) * min(s[1:])), num(rng.uniform(0.2, 0.9) * s[0]), 0.0)
    elif k == "rodY":
        z = (num(rng.uniform(0.1, 0.4) * min(s[0], s[2])), num(rng.uniform(0.2, 0.9) * s[1]), 0.0)
    elif k == "donut":
        z = (r[0], r[1], h)
    elif k == "sphere":
        z = (r[1], 0.0, 0.0)
    elif k == "shell":
        z = (r[0], r[1], 0.0)
    elif k == "ellipse":
        z = (r[1], h, num(rng.uniform(0.4, 2.0)))
    elif k == "ellipsoidal":
        z = tuple(num(rng.uniform(0.1, 0.45) * s[d]) for d in range(3))
    elif k == "cone":
        z = (num(rng.uniform(0.02, 0.4) * s[0]), num(rng.uniform(0.02, 0.4) * s[0]), h)
    elif k == "block":
        z = tuple(num(rng.uniform(0.15, 0.8) * s[d]) for d in range(3))
    else:
        col, row = (int(x) for x in rng.integers(2, 9, 2))
        mat = np.round(rng.uniform(0, 10, (col, row)), 3)
        name = f"m{len(files)}.dat"
        files[name] = "".join("\t".join("%.3f" % mat[i, j] for i in range(col)) + "\n" for j in range(row - 1, -1, -1))
        c = [num(rng.uniform(0.1, 0.9) * col), num(rng.uniform(0.1, 0.9) * row), c[2]]
        z = (num(rng.uniform(2, 9)), h, num(rng.uniform(0.6, 3)))
        return k, c, z, mat, name, None
    e = tuple(num(rng.uniform(-180, 360)) for _ in range(3)) if euler else None
    return k, c, z, mat, "-", e


def dielectric(rng, g, kinds, files, euler=False):
    k, c, z, mat, name, e = shape(rng, g, kinds, files, euler)
    eps = num(rng.uniform(1, 13))
    sh = O.Shape(g, k, c, z, eps, e, mat)
    if e is not None:
        return sh, "euler %s %.6g %.6g %.6g %.6g %.6g %.6g %.6g %.6g %.6g %.6g" % (k, *c, *z, *e, eps)
    return sh, "object %s %s %.6g %.6g %.6g %.6g %.6g %.6g %.6g" % (k, name, *c, *z, eps)


def metallic(rng, g, kinds, files):
    k, c, z, mat, name, _ = shape(rng, g, kinds, files)
    f = g.dx * g.lat[0] / G.UNIT
    wp, ga, eb = float("%.9g" % (rng.uniform(0.1, 1) * f * 1e8)), float("%.9g" % (rng.uniform(0, .2) * f * 1e8)), num(rng.uniform(1, 9))
    u = rng.random()
    if u < 0.15:
        eb, wp, ga = 1000.0, 0.0, 0.0
    elif u < 0.3:
        eb, wp, ga = 0.0, 0.0, 0.0     # eraser
    sh = O.Shape(g, k, c, z, (eb, wp / f, ga / f), None, mat)
    if k == "contour" or rng.random() < 0.4:
        return sh, "drude2 %s %s %.6g %.6g %.6g %.6g %.6g %.6g %.6g %.9g %.9g %.9g" % (k, name, *c, *z, eb, wp, ga, G.UNIT)
    return sh, "drude %s %.6g %.6g %.6g %.6g %.6g %.6g %.6g %.9g %.9g %.9g" % (k, *c, *z, eb, wp, ga, G.UNIT)


def any_grid(c, zones):
    rng = c.rng
    per, par = None, (0, 0, 0)
    u = rng.random()
    if u < 0.25:
        per = (int(rng.integers(2)), 1, 0.1, -0.2)
    elif u < 0.5:
        par = [0, 0, 0]
        par[rng.integers(2 if zones else 3)] = int(rng.choice([-1, 1]))
        par = tuple(par)
    return G.grid(rng, per=per, parity=par, zones=zones)


def judge_eps(c, g, a, shapes):
    for d, x in enumerate("xyz"):
        want, tol, ok = O.epsilon_map(g, shapes, g.back, d, tuple(g.m))
        have = a["epsilon" + x]
        err = np.where(ok, np.abs(have - want) - tol - 1e-4 * want, 0)
        c.ok(err.max() <= 0, "permittivity-follows-objects",
             f"eps_{x} at {np.unravel_index(err.argmax(), err.shape)}: {have.ravel()[err.argmax()]:.6g}, expected {want.ravel()[err.argmax()]:.6g}")
        c.events += int(ok.sum())
        c.worst["permittivity-follows-objects"] = max(c.worst.get("permittivity-follows-objects", 0), float((np.abs(have - want) * ok / (tol + 1e-4 * want)).max()))


def judge_metal(c, g, a, shapes):
    want, ok = O.metal_map(g, shapes, tuple(g.m))
    for q, nm in enumerate(("mepsilon", "momega", "mgamma")):
        w, h = want[..., q], a[nm]
        err = np.where(ok, np.abs(h - w) - 1e-5 * np.abs(w), 0)
        c.ok(err.max() <= 0, "metal-follows-objects", f"{nm} at {np.unravel_index(err.argmax(), err.shape)}: {h.ravel()[err.argmax()]:.6g}, expected {w.ravel()[err.argmax()]:.6g}")
        c.events += int(ok.sum())


def build(c, zones, kinds, euler=False, metal=False, rounds=1, kind="asan"):
    rng = c.rng
    g = any_grid(c, zones)
    files, lines, steps = {}, [], []
    for r in range(rounds):
        objs = [dielectric(rng, g, kinds, files, euler and rng.random() < 0.8) for _ in range(int(rng.integers(1, 4)))]
        lines += [ln for _, ln in objs] + ["make_epsilon"]
        mets = []
        if metal:
            mets = [metallic(rng, g, kinds, files) for _ in range(int(rng.integers(1, 4)))]
            lines += [ln for _, ln in mets] + ["make_metal"]
        lines.append(f"dump s{r}")
        steps.append(([s for s, _ in objs], [s for s, _ in mets]))
    c.desc(n=g.n, m=g.m, lat=list(map(int, g.lat)), zones=g.zones_given, per=g.per, parity=g.parity, back=g.back, lines=lines)
    c.cls(*(s.kind for st in steps for p in st for s in p))
    with X.session() as s:
        r = s.run(G.setup(g) + lines, kind, files)
        c.ok(r.sane, "sanitizers-silent", r.report())
        for q, (objs, mets) in enumerate(steps):
            a = r.arrays(f"s{q}")
            judge_eps(c, g, a, objs)
            if metal:
                judge_metal(c, g, a, mets)


def shapes_uniform(c):
    build(c, False, SNAPPED + FREE)


def shapes_layered(c):
    build(c, True, SNAPPED)


def rotated(c):
    build(c, False, ["rod", "ellipse", "ellipsoidal", "block"], euler=True)


def metals(c):
    z = c.rng.random() < 0.3
    build(c, bool(z), SNAPPED if z else SNAPPED + FREE, metal=True)


def again(c):
    build(c, False, SNAPPED + FREE, metal=True, rounds=2)


def memory(c):
    build(c, False, SNAPPED + FREE, metal=bool(c.rng.random() < 0.5), kind="msan")


def untouched(c):
    """no objects: the background everywhere"""
    g = any_grid(c, None)
    c.desc(n=g.n, back=g.back)
    with X.session() as s:
        r = s.run(G.setup(g) + (["make_epsilon"] if c.rng.random() < 0.5 else []) + ["make_metal", "dump s0"])
        c.ok(r.sane, "sanitizers-silent", r.report())
        a = r.arrays("s0")
        for x in "xyz":
            c.close(a["epsilon" + x], np.full(tuple(g.m), g.back), "background-everywhere", atol=0, rtol=1e-6)
        c.ok(not a["mepsilon"].any() and not a["momega"].any(), "background-everywhere", "metal without objects")
        c.events += a["mepsilon"].size


def scattered(c):
    """randomly placed objects: inside their window, without overlap, reproducible"""
    rng = c.rng
    while True:
        g = G.grid(rng, zones=False, cells=(20, 26), pml=[0] * 6)
        if len(set(map(int, g.lat))) == 1:      # radii are in cells of the first axis
            break
    k = ["rod", "sphere"][rng.integers(2)]
    r = num(rng.uniform(0.12, 0.25))
    w = [(-0.3 * s, 0.3 * s) for s in g.size]
    vol = np.prod([b - a for a, b in w[:2 if k == "rod" else 3]])
    n = max(1, min(5, int(0.22 * vol / (np.pi * r * r if k == "rod" else 4.2 * r ** 3))))
    h = num(0.5 * g.size[2])
    seed = int(rng.integers(1, 10 ** 6))
    ln = "random_object %s %.6g %.6g 9 " % (k, r, h) + " ".join("%.6g %.6g" % p for p in w) + f" {n} {seed}"
    c.desc(n=g.n, lat=list(map(int, g.lat)), line=ln)
    c.cls(k, f"n{n}")
    with X.session() as s:
        q = [s.run(G.setup(g)[:-1] + ["background 1", "shift 0", ln, "make_epsilon", "dump s0"]) for _ in range(2)]
        for r_ in q:
            c.ok(r_.sane, "sanitizers-silent", r_.report())
        a, b = (x.arrays("s0") for x in q)
        e = a["epsilonz"]
        c.ok(np.array_equal(e, b["epsilonz"]), "random-objects", "a repeated seed places the objects differently")
        cells = (e - 1) / 8
        if k == "rod":
            lo = O.Zmap(g).index(0.0)[0]
            one = cells[:, :, lo].sum() / (g.lat[0] * g.lat[1])
            full = n * np.pi * r * r
        else:
            one = cells.sum() / np.prod([float(x) for x in g.lat])
            full = n * 4 / 3 * np.pi * r ** 3
        c.ok(abs(one / full - 1) < 0.1, "random-objects", f"filled measure {one:.4g}, {n} separate objects have {full:.4g}")
        # every filled cell within reach of the window
        idx = np.argwhere(cells > 0.02)
        for d in range(2 if k == "rod" else 3):
            x = idx[:, d] / g.lat[d] - 0.5 * g.size[d] + (0.5 / g.lat[d] if d == 2 else 0)
            c.ok(x.min() >= w[d][0] - r - 1.01 / g.lat[d] and x.max() <= w[d][1] + r + 1.01 / g.lat[d], "random-objects", f"axis {d}: filled from {x.min():.3g} to {x.max():.3g}, window {w[d]}")
        c.events += e.size


def layers(c):
    """coordinates and layer indices of stretched grids, zones declared in any order"""
    rng = c.rng
    g = G.grid(rng, zones=True, cells=(10, 24))
    zm = O.Zmap(g)
    sc, ask = [], []
    for q in range(24):
        z = float("%.6g" % rng.uniform(-0.5 * g.size[2], 0.5 * g.size[2]))
        i, t = zm.index(z)
        if t < 2e-3:
            continue
        ask.append((f"a{q}", i))
        sc.append(f"z2i {z:.6g} a{q}")
    at = sorted(set(int(x) for x in rng.integers(0, g.n[2], 16)) | {0, g.n[2] - 1})
    sc += [f"i2z {i} b{i}" for i in at]
    c.desc(n=g.n, lat=list(map(int, g.lat)), zones=g.zones_given)
    c.cls(f"zones{len(g.zones)}", "shuffled" if list(g.zones) != list(g.zones_given) else "sorted")
    with X.session() as s:
        r = s.run(G.setup(g) + sc + ["info", "dump s0"])
        c.ok(r.sane, "sanitizers-silent", r.report())
        for k, i in ask:
            c.ok(int(r.val[k]) == i, "layer-map", f"coordinate lies in layer {i}, library says {r.val[k]:.0f}")
        for i in at:
            c.close(r.val[f"b{i}"], zm.z(i), "layer-map", atol=2e-6 * g.size[2] + 1e-6, rtol=0, msg=f"height of layer {i}")
        c.ok(int(r.val["ksize"]) == zm.total, "layer-map", "number of layers")
        dz = r.arrays("s0")["ds_nz"].ravel()
        c.close(dz, g.dz, "layer-map", atol=0, rtol=1e-6, msg="layer thickness")
        # thickness and heights tell the same story
        hs = np.array([zm.z(i) for i in range(len(dz))])
        c.close(dz[1:], np.diff(hs) * g.dx * g.lat[0], "layer-map", atol=1e-3, rtol=1e-4, msg="thickness from heights")
        c.events += len(dz) + len(ask)


S, E, Mt = "sanitizers-silent", "permittivity-follows-objects", "metal-follows-objects"
NATIVE = True
FAMILIES = [
    Family("shapes", shapes_uniform, 60, 450, monitors=[S, E], chunk=4),
    Family("layered", shapes_layered, 36, 250, monitors=[S, E], chunk=4),
    Family("rotated", rotated, 36, 250, monitors=[S, E], chunk=4),
    Family("metals", metals, 60, 450, monitors=[S, E, Mt], chunk=4),
    Family("again", again, 16, 120, monitors=[S, E, Mt], chunk=4),
    Family("memory", memory, 12, 80, monitors=[S, E], chunk=4),
    Family("background", untouched, 8, 40, monitors=[S, "background-everywhere"], chunk=4),
    Family("random", scattered, 12, 100, monitors=[S, "random-objects"], chunk=4),
    Family("layers", layers, 24, 200, monitors=[S, "layer-map"], chunk=4),
]
