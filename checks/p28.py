"""P28 FDTD time stepping: fields follow Maxwell's equations, and memory stays intact."""
import numpy as np
from harness import vp
from harness.vp import Family, Skip
from harness import fdtdsim as X, fdtdref as R, fdtdgen as G

ASSUMPTIONS = ["the library is compiled with clang under ASan+UBSan and MSan with a stand-in for GSL's generator",
               "the unfinished molecular update and the unused convolutional absorbing layer are not exercised"]
BUDGET = {"quick": 420, "thorough": 1500}
TOL = 2e-5


def prepare(tier):
    try:
        X.build("asan")
        X.build("msan")
    except X.BuildError as e:
        print("build failed:", e)
        raise


def sane(c, r):
    c.ok(r.sane, "sanitizers-silent", r.report())


def launch(c, s, g, before, seeds, after, n, tri=False, kind="asan", cuts=None):
    cuts = cuts or [n]
    sc = before + ["coefficient", "field_init", "info", "set_t 0"] + seeds + ["dump d0"] + after
    done = 0
    for q, m in enumerate(cuts):
        sc += [f"run{'_tri' if tri else ''} {m - done}", f"dump d{q + 1}"]
        done = m
    r = s.run(sc, kind)
    sane(c, r)
    return r


def constants(c, g, r, a):
    for k, v in zip(("misize", "mjsize", "mksize", "isize", "jsize", "ksize"), list(g.m) + list(g.n)):
        c.ok(int(r.val[k]) == v, "grid-constants", f"{k} is {r.val[k]:.0f}, expected {v}")
    c.close(r.val["dt"], g.dt, "grid-constants", atol=0, rtol=1e-5, msg="time step")
    c.close([r.val["ds_x"], r.val["ds_y"]], [g.dx, g.dy], "grid-constants", atol=0, rtol=1e-6, msg="spacing")
    c.close(a["ds_nz"].ravel(), g.dz, "grid-constants", atol=0, rtol=1e-6, msg="vertical spacing")
    c.ok(np.array_equal(a["position"] > 0, g.position), "grid-constants", "extent of the absorbing layers")


def follow(c, g, y, r, cuts, name="fields-follow-maxwell", inject=None):
    n = 0
    for q, m in enumerate(cuts):
        while n < m:
            if inject:
                inject(y, n)
            y.step()
            n += 1
        b = r.arrays(f"d{q + 1}")
        for grp in "EH":
            mx = max(np.abs(y.F[grp + x]).max() for x in "xyz")
            if not np.isfinite(mx):
                raise Skip()
            for x in "xyz":
                d = np.abs(G.got(b, grp + x, g) - y.F[grp + x])
                c.ok(d.max() <= TOL * mx * (1 + n / 30), name,
                     f"{grp}{x} after {n} steps off by {d.max():.3g} of {mx:.3g} at {np.unravel_index(d.argmax(), d.shape)}")
                c.worst[name] = max(c.worst.get(name, 0), float(d.max() / (TOL * mx * (1 + n / 30)) if mx else 0))
                c.events += d.size
    return b


def cuts_of(c):
    a = int(c.rng.integers(2, 6))
    b = a + int(c.rng.integers(10, 25))
    return [a, b, b + int(c.rng.integers(5, 30))]


def evolve(c, per=None, parity=(0, 0, 0), tri=False, kind="asan"):
    g = G.grid(c.rng, per=per, parity=parity, zones=None)
    if tri:
        g_n = g.n[0]
        if g_n % 2:
            raise Skip()
    objs, mets = G.objects(c.rng, g), G.metals(c.rng, g)
    if parity != (0, 0, 0):
        mets = [m for m in mets if " 1000 " not in m]
    lines, pts = G.seed_fields(c.rng, g)
    cuts = cuts_of(c)
    before = G.setup(g) + objs + (["make_epsilon"] if objs else []) + mets + (["make_metal"] if mets else [])
    c.desc(n=g.n, lat=list(map(int, g.lat)), pml=g.pml_in, S=g.S, zones=g.zones_given, per=per, parity=parity, objs=objs, mets=mets, cuts=cuts, tri=tri)
    c.cls("zones" if g.zones else "uniform", "metal" if mets else "dielectric", "complex" if g.complex else "real",
          *(f"layer{min(p, 1)}" for p in g.pml_in))
    with X.session() as s:
        r = launch(c, s, g, before, lines, [], None, tri, kind, cuts)
        a = r.arrays("d0")
        constants(c, g, r, a)
        y = R.Yee(g, *G.materials(a), tri)
        for q, ijk, v in pts:
            y.F[q][ijk] = v
        follow(c, g, y, r, cuts)


def open_box(c):
    evolve(c)


def wavevec(c):
    q = c.rng.integers(4)
    k = [float(np.round(x, 4)) for x in c.rng.uniform(-0.5, 0.5, 2)]
    if q == 0:
        k = [0.0, 0.0]
    on = [(1, 0), (0, 1), (1, 1), (1, 1)][c.rng.integers(4)]
    if not on[0]:
        k[0] = 0.0
    if not on[1]:
        k[1] = 0.0
    return (*on, *k)


def bloch(c):
    evolve(c, per=wavevec(c))


def triangular(c):
    k = [float(np.round(x, 4)) for x in c.rng.uniform(-0.5, 0.5, 2)] if c.rng.random() < 0.75 else [0.0, 0.0]
    evolve(c, per=(1, 1, *k), tri=True)


def mirrors(c):
    while True:
        p = tuple(int(x) for x in c.rng.integers(-1, 2, 3))
        if any(p):
            break
    evolve(c, parity=p)


def half_periodic(c):
    """a mirror along one axis and a periodic cell along another"""
    per = wavevec(c)
    if per[0] and per[1]:
        per = (1, 0, per[2], 0.0)
    free = 1 if per[0] else 0
    p = [0, 0, 0]
    p[free if c.rng.random() < 0.6 else 2] = int(c.rng.choice([-1, 1]))
    if c.rng.random() < 0.3:
        p[2] = int(c.rng.choice([-1, 1]))
    evolve(c, per=per, parity=tuple(p))


def uninitialised(c):
    q = c.rng.integers(3)
    if q == 0:
        evolve(c, kind="msan")
    elif q == 1:
        evolve(c, per=wavevec(c), kind="msan")
    else:
        evolve(c, parity=(int(c.rng.choice([-1, 1])), 0, 0), kind="msan")


def folded(c):
    """a mirrored half domain evolves like the full symmetric one until the far walls are felt"""
    d = int(c.rng.integers(3))
    p = int(c.rng.choice([-1, 1]))
    par = [0, 0, 0]
    par[d] = p
    gh = G.grid(c.rng, parity=tuple(par), zones=False, cells=(14, 19), pml=[0] * 6)
    import copy
    gf = R.Grid(gh.size, gh.lat, [0] * 6, gh.S, back=gh.back)
    gf.zones_given = []
    n = gh.n[d]
    h = n // 2
    box = [(5, gh.n[q] - 5) for q in range(3)]
    box[d] = (5, h + 1)
    if box[d][1] <= box[d][0]:
        raise Skip()
    steps = 5
    lh, pts = G.seed_fields(c.rng, gh, box=box)
    # reflect: E along the axis and H across it sit half a cell off the nodes
    lf, seen = [], {}
    for q, ijk, v in pts:
        seen[(q, ijk)] = v
    lines_h, lines_f = [], []
    for (q, ijk), v in seen.items():
        along = "xyz".index(q[1]) == d
        half = along == (q[0] == "E")
        sgn = p if half else -p
        m = list(ijk)
        m[d] = n - ijk[d] - (1 if half else 0)
        if half and ijk[d] > h - 1:
            continue
        if not half and ijk[d] == h and sgn == -1:
            continue
        lines_h.append("set %s %d %d %d %.9g" % (q, *ijk, v))
        lines_f.append("set %s %d %d %d %.9g" % (q, *ijk, v))
        if tuple(m) != ijk:
            lines_f.append("set %s %d %d %d %.9g" % (q, *m, sgn * v))
        if half and ijk[d] == h - 1:      # keep the mirrored node of the half domain consistent
            mm = list(ijk)
            mm[d] = h
            lines_h.append("set %s %d %d %d %.9g" % (q, *mm, sgn * v))
    c.desc(n=gh.n, axis=d, parity=p, back=gh.back, S=gh.S)
    c.cls(f"axis{d}", f"parity{p}")
    with X.session() as s:
        rh = launch(c, s, gh, G.setup(gh), lines_h, [], steps)
        rf = launch(c, s, gf, G.setup(gf), lines_f, [], steps)
        a, b = rh.arrays("d1"), rf.arrays("d1")
        sl = [slice(None)] * 3
        sl[d] = slice(0, h)
        sl = tuple(sl)
        for grp in "EH":
            mx = max(np.abs(b[grp + x]).max() for x in "xyz")
            for x in "xyz":
                e = np.abs(a[grp + x][sl] - b[grp + x][sl]).max()
                c.ok(e <= TOL * mx, "mirror-is-full-domain", f"{grp}{x} differs by {e:.3g} of {mx:.3g}")
                c.events += a[grp + x][sl].size


def supercell(c):
    """a cell at a rational wave vector evolves like the repeated cell of the larger period"""
    N = int(c.rng.integers(2, 4))
    d = int(c.rng.integers(2))
    m = int(c.rng.integers(0, N))
    other = bool(c.rng.random() < 0.5)
    ko = float(np.round(c.rng.uniform(-0.5, 0.5), 3)) if other else 0.0
    k = [0.0, 0.0]
    k[d] = m / N
    k[1 - d] = ko
    on = [1, 1] if other else [int(d == 0), int(d == 1)]
    g1 = G.grid(c.rng, per=(*on, *k), cells=(6, 10), zones=False)
    size = list(g1.size)
    size[d] *= N
    k2 = list(k)
    k2[d] = float(m)
    g2 = R.Grid(size, g1.lat, g1.pml_in, g1.S, per=(*on, *k2), back=g1.back, order=g1.order, smax=g1.smax, kappa=g1.kappa)
    g2.zones_given = []
    # the copies across the cell boundary are only filled by the first step
    lines, pts = G.seed_fields(c.rng, g1, box=[(2, g1.n[q]) for q in range(2)] + [(1, g1.p[2])])
    n = g1.n[d]
    big = []
    for q, ijk, v in {(q, ijk): (q, ijk, v) for q, ijk, v in pts}.values():
        for t in range(N):
            ph = np.exp(2j * np.pi * k[d] * t)
            w = v * ph
            i2 = list(ijk)
            i2[d] += t * n
            if not g2.complex and abs(np.imag(w)) > 1e-9:
                raise Skip()
            big.append("set %s %d %d %d %.9g" % (q, *i2, np.real(w)))
            if g2.complex:
                big.append("set i%s %d %d %d %.9g" % (q, *i2, np.imag(w)))
    steps = int(c.rng.integers(8, 25))
    c.desc(n=g1.n, axis=d, N=N, k=k, on=on, steps=steps)
    c.cls(f"N{N}", f"axis{d}", "complex" if g1.complex else "real")
    with X.session() as s:
        r1 = launch(c, s, g1, G.setup(g1), lines, [], steps)
        r2 = launch(c, s, g2, G.setup(g2), big, [], steps)
        a, b = r1.arrays("d1"), r2.arrays("d1")
        for t in range(N):
            ph = np.exp(2j * np.pi * k[d] * t)
            s1, s2 = [slice(1, p) for p in g1.p], [slice(1, p) for p in g1.p]
            s1[d] = slice(1, n + 1)
            s2[d] = slice(1 + t * n, 1 + (t + 1) * n)
            for grp in "EH":
                mx = max(np.abs(G.got(a, grp + x, g1)).max() for x in "xyz")
                for x in "xyz":
                    e = np.abs(G.got(a, grp + x, g1)[tuple(s1)] * ph - G.got(b, grp + x, g2)[tuple(s2)]).max()
                    c.ok(e <= 5 * TOL * mx, "bloch-is-supercell", f"{grp}{x} of copy {t} differs by {e:.3g} of {mx:.3g}")
                    c.events += 1


def conserve(c):
    """lossless closed boxes keep the discrete electromagnetic energy"""
    g = G.grid(c.rng, pml=[0] * 6)
    objs = G.objects(c.rng, g)
    lines, _ = G.seed_fields(c.rng, g)
    n1, n2 = int(c.rng.integers(3, 30)), int(c.rng.integers(60, 200))
    cuts = [0, 1, n1, n1 + 1, n2, n2 + 1]
    c.desc(n=g.n, lat=list(map(int, g.lat)), S=g.S, zones=g.zones_given, objs=objs, cuts=cuts)
    c.cls("zones" if g.zones else "uniform", "objects" if objs else "empty")
    with X.session() as s:
        r = launch(c, s, g, G.setup(g) + objs + (["make_epsilon"] if objs else []), lines, [], None, cuts=cuts)
        D = [r.arrays(f"d{q + 1}") for q in range(6)]
        wE = np.ones(g.m)
        w = np.zeros(g.m[2])
        w[1:] = 0.5 * (g.dz[1:] + g.dz[:-1])
        mask = np.zeros(g.m)
        mask[1:-1, 1:-1, 1:-1] = 1
        hz = g.dz[None, None, :]
        U = []
        for q in (0, 2, 4):
            u = 0.0
            for x in "xyz":
                # Ex, Ey and Hz sit on integer z nodes, Ez, Hx and Hy between them
                ve, vh = (w, g.dz) if x != "z" else (g.dz, w)
                u += R.EO * np.sum(mask * ve * D[q]["epsilon" + x] * D[q]["E" + x] * D[q + 1]["E" + x])
                u += R.UO * np.sum(mask * vh * D[q]["H" + x] ** 2)
            U.append(u)
        c.events += int(n2)
        for v in U[1:]:
            c.close(v / U[0], 1.0, "energy-conserved", atol=2e-4, rtol=0, msg="electromagnetic energy of a closed lossless box")


def absorb(c):
    """waves leave through the absorbing layers: nothing stays, nothing blows up"""
    L = 10
    lat = G.LATS[c.rng.integers(2)]
    n = [int(x) for x in c.rng.integers(34, 40, 3)]
    per = (0, 0, 0.0, 0.0)
    u = c.rng.random()
    if u < 0.4:
        per = (0, 1, 0.0, 0.0) if u < 0.2 else (1, 0, 0.0, 0.0)
        n[1 if per[1] else 0] = 6
    g = R.Grid([n[d] / lat[d] for d in range(3)], lat, [L] * 6, 1.0, per=per)
    g.S = 2.0
    g.dt = 1 / (R.C0 * g.S)
    g.zones_given = []
    f = lat[0] / 9.0
    comp = "Ex Ey Ez".split()[c.rng.integers(3)]
    if per[0] or per[1]:
        comp = "Ey" if per[1] else "Ex"       # line current: no static charge
    c.desc(n=n, per=per, comp=comp)
    c.cls(comp, "periodic" if any(per) else "open")
    if any(per):
        src = f"source line_gauss {comp} 0 0 {f} 0 40 12"
        src = [f"source dipole_gauss {comp} {0 if not per[0] else (i - n[0] / 2) / lat[0]} {0 if not per[1] else (i - n[1] / 2) / lat[1]} 0 {f} 0 40 12" for i in range(1, 7)]
    else:
        src = [f"source dipole_gauss {comp} 0 0 0 {f} 0 40 12"]
    with X.session() as s:
        r = launch(c, s, g, G.setup(g), [], src, None, cuts=[45, 330])
        d1, d2 = r.arrays("d1"), r.arrays("d2")
        pos = g.position

        def u(d):
            return sum(np.sum(pos * d["H" + x] ** 2) for x in "xyz")
        a, b = u(d1), u(d2)
        c.events += 330
        c.ok(a > 0 and b < 2e-4 * a, "layers-absorb", f"magnetic energy {b:.3g} left of {a:.3g}")


def ampl(kind, t, f, ph, to, td, g, imag=False):
    w = 2 * R.PI * f / (g.S * g.dx * g.lat[0])
    if kind == "gauss":
        if not to - 3 * td < t < to + 3 * td:
            return 0.0
        arg, env = w * t + ph, np.exp(-((t - to) / td) ** 2)
    else:
        arg = w * (t - to) + ph
        if td == 0:
            env = 1.0
        elif to <= t < to + 8 * td:
            env = np.exp(-(t - to) / td)
        else:
            return 0.0
    return (-np.cos(arg) if imag else np.sin(arg)) * env


def put(y, g, comp, ijk, val):
    """spread a nodal excitation over the field samples around the node"""
    if comp.startswith("-"):
        raise AssertionError
    d = "xyz".index(comp[1])
    if comp[0] == "E":
        shifts = [(0, 0, 0), tuple(-1 if q == d else 0 for q in range(3))]
    else:
        a, b = [q for q in range(3) if q != d]
        shifts = [tuple(-((q == a) * u + (q == b) * v) for q in range(3)) for u in (0, 1) for v in (0, 1)]
    for s in shifts:
        i = tuple(np.array(ijk) + s)
        y.F[comp][i] += val / len(shifts)


def sources(c):
    rng = c.rng
    per = wavevec(c) if rng.random() < 0.5 else None
    g = G.grid(rng, per=per, zones=False)
    kind = ["gauss", "lorentz"][rng.integers(2)]
    f = float(np.round(rng.uniform(0.2, 1.5), 3))
    srcs = []
    for _ in range(int(rng.integers(1, 4))):
        comp = ("-" if rng.random() < 0.3 else "") + R.COMPS[rng.integers(6)]
        ijk = [int(rng.integers(2, p - 1)) for p in g.p]
        ph = float(np.round(rng.uniform(0, 6), 3))
        td = int(rng.integers(3, 15)) if kind == "gauss" or rng.random() < 0.7 else 0
        to = int(rng.integers(0, 30)) if td else 0
        srcs.append((comp, ijk, ph, to, td))
    cuts = cuts_of(c)
    c.desc(n=g.n, per=per, kind=kind, f=f, srcs=srcs, cuts=cuts)
    c.cls(kind, "complex" if g.complex else "real", *(s[0] for s in srcs))
    after = []
    for comp, ijk, ph, to, td in srcs:
        x = [ijk[d] / g.lat[d] - 0.5 * g.size[d] for d in range(3)]
        after.append("source dipole_%s %s %.8g %.8g %.8g %.9g %.9g %d %d" % (kind, comp, *x, f, ph, to, td))

    def inject(y, t):
        for comp, ijk, ph, to, td in srcs:
            sg = -1 if comp[0] == "-" else 1
            v = ampl(kind, t, f, ph, to, td, g)
            if g.complex:
                v = v + 1j * ampl(kind, t, f, ph, to, td, g, True)
            put(y, g, comp.lstrip("-"), ijk, sg * v)

    with X.session() as s:
        r = launch(c, s, g, G.setup(g), [], after, None, cuts=cuts)
        y = R.Yee(g, *G.materials(r.arrays("d0")))
        n = 0
        for q, m in enumerate(cuts):
            while n < m:
                inject(y, n)
                y.step()
                n += 1
            b = r.arrays(f"d{q + 1}")
            # only vanishing drives: compare relative to the natural unit of E and H
            # rounding of the unit drives themselves (a magnetic drive of one is 377 in units of E)
            noise = 3e-7 * (380 if any(q[0].lstrip("-")[0] == "H" for q in srcs) else 1)
            for grp, unit in (("E", 1.0), ("H", 2.6e-3)):
                mx = max(max(np.abs(y.F[grp + x]).max() for x in "xyz"), 1e-4 * unit)
                for x in "xyz":
                    d = np.abs(G.got(b, grp + x, g) - y.F[grp + x]).max()
                    c.ok(d <= 5e-5 * mx + noise * unit, "sources-drive-fields", f"{grp}{x} after {n} steps off by {d:.3g} of {mx:.3g}")
                    c.events += 1


def signed(rng, grp, axes="xyz"):
    return ("-" if rng.random() < 0.35 else "") + grp + axes[rng.integers(len(axes))]


def extended(c):
    """plane waves, beams, lines and externally supplied amplitudes"""
    rng = c.rng
    what = ["plane", "beam", "line", "ext_point", "ext_plane"][rng.choice(5, p=[0.3, 0.25, 0.3, 0.07, 0.08])]
    kind = ["gauss", "lorentz"][rng.integers(2)]
    per = None
    if what in ("plane", "beam", "line") and rng.random() < 0.45:
        per = wavevec(c)
        if what == "line":
            per = (per[0], per[1], per[2], 0.0)
    g = G.grid(rng, zones=False, pml=[2] * 6, per=per)
    if what == "plane" and per:
        # the wave vector belongs to the period and to the lattice constant: one lattice constant per period
        for _ in range(400):
            if all(not k or g.n[d] == g.lat[d] for d, k in enumerate(per[2:])):
                break
            g = G.grid(rng, zones=False, pml=[2] * 6, per=per, cells=((5, 17), (5, 17), (9, 16)))
        else:
            raise Skip()
    f = float(np.round(rng.uniform(0.3, 1.2), 3))
    td = int(rng.integers(6, 15))
    to = int(rng.integers(2, 10))
    t0 = to + int(rng.integers(0, td))
    E, H = signed(rng, "E"), signed(rng, "H")
    if kind == "lorentz" and what != "line" and rng.random() < 0.2:
        td = 0                              # continuous wave
    kz = int(rng.integers(4, g.p[2] - 3))
    z = kz / g.lat[2] - 0.5 * g.size[2]
    c.desc(what=what, kind=kind, n=g.n, per=per, f=f, to=to, td=td, t0=t0, E=E, H=H, kz=kz)
    c.cls(what, kind, "complex" if g.complex else "real", E, H)
    want = {q: np.zeros(g.m, complex) for q in R.COMPS}
    unit = np.sqrt(R.EO / R.UO)

    def amp(ph):
        v = ampl(kind, t0, f, ph, to, td, g)
        return v + 1j * ampl(kind, t0, f, ph, to, td, g, True) if g.complex else v

    def add(comp, ijk, v, hunit=unit):
        sg = -1 if comp[0] == "-" else 1
        q = comp.lstrip("-")
        d = "xyz".index(q[1])
        if q[0] == "E":
            sh = [(0, 0, 0), tuple(-1 if e == d else 0 for e in range(3))]
        else:
            a, b = [e for e in range(3) if e != d]
            sh = [tuple(-((e == a) * u + (e == b) * w) for e in range(3)) for u in (0, 1) for w in (0, 1)]
        for s_ in sh:
            i = tuple(np.array(ijk) + s_)
            if min(i) >= 0:
                want[q][i] += sg * v / len(sh) * (1.0 if q[0] == "E" else hunit)

    free = None
    if what == "plane":
        kx, ky = (per[2], per[3]) if per else (0.0, 0.0)
        lines = [f"once plane_{kind} {E} {H} {z:.8g} {f} {to} {td}"]
        for i in range(g.m[0]):
            for j in range(g.m[1]):
                v = amp(2 * R.PI * (kx * i / g.lat[0] + ky * j / g.lat[1]))
                for q in (E, H):
                    add(q, (i, j, kz), v)
    elif what == "beam":
        ci, cj = (int(rng.integers(3, g.p[d] - 2)) for d in (0, 1))
        x, y = ci / g.lat[0] - 0.5 * g.size[0], cj / g.lat[1] - 0.5 * g.size[1]
        zc = float(z + rng.choice([-1, 1]) * rng.uniform(0.3, 2))
        wo, nn = float(rng.uniform(0.3, 1.0)), float(rng.uniform(1, 2))
        lines = [f"once beam_{kind} {E} {H} {x:.8g} {y:.8g} {z:.8g} {zc:.8g} {wo:.8g} {nn:.8g} {f} {to} {td}"]
        zo = R.PI * wo ** 2 * f * nn
        s_ = zc - z
        for i in range(g.m[0]):
            for j in range(g.m[1]):
                r2 = ((i - ci) / g.lat[0]) ** 2 + ((j - cj) / g.lat[1]) ** 2
                w = wo * np.sqrt(1 + (s_ / zo) ** 2)
                Rz = s_ * (1 + (zo / s_) ** 2)
                ph = -(2 * R.PI * s_ * f * nn - np.arctan(s_ / zo) + r2 * 2 * R.PI * f * nn / (2 * Rz))
                for q in (E, H):
                    add(q, (i, j, kz), wo / w * np.exp(-r2 / w ** 2) * amp(ph))
    elif what == "line":
        q = (E, H)[rng.integers(2)]
        if q.lstrip("-")[0] == "H":
            free = q.lstrip("-")            # the amplitude unit of H is the caller's business: shape and phase are judged
        i = int(rng.integers(3, g.p[0] - 2))
        ph = float(np.round(rng.uniform(0, 6), 3))
        lines = [f"once line_{kind} {q} {i / g.lat[0] - 0.5 * g.size[0]:.8g} {z:.8g} {f} {ph} {to} {td}"]
        for j in range(g.m[1]):
            add(q, (i, j, kz), amp(ph))
    elif what == "ext_point":
        A = float(np.round(rng.normal(), 4))
        ijk = [int(rng.integers(2, p - 1)) for p in g.p]
        x = [ijk[d] / g.lat[d] - 0.5 * g.size[d] for d in range(3)]
        lines = ["once ext_point Ex %.8g %.8g %.8g %.9g" % (*x, A)]
        add("Ex", ijk, A)
    else:
        A = float(np.round(rng.normal(), 4))
        lines = [f"once ext_plane Ex Hy {z:.8g} {A:.9g}"]
        for i in range(g.m[0]):
            for j in range(g.m[1]):
                want["Ex"][i, j, kz] += A / 2
                want["Hy"][i, j, kz] += A / 8 * unit
                if i:
                    want["Ex"][i - 1, j, kz] += A / 2
                    want["Hy"][i - 1, j, kz] += A / 8 * unit
    with X.session() as s:
        sc = G.setup(g) + ["coefficient", "field_init", f"set_t {t0}"] + lines + ["dump d1"]
        r = s.run(sc)
        sane(c, r)
        b = r.arrays("d1")
        inn = (slice(1, -2),) * 3
        for q in R.COMPS:
            w, h = want[q][inn], G.got(b, q, g)[inn]
            if q == free:
                n = np.vdot(w, w).real
                if n < 1e-12:
                    continue
                k = np.vdot(w, h) / n
                c.ok(0.5 < k.real < 2 / unit and abs(k.imag) < 2e-4 * k.real, "extended-sources", f"{what}: {q} is {k} times the drive")
                w = w * k.real
            mx = max(np.abs(w).max(), 1e-2 if q[0] == "E" else 2.6e-5)
            d = np.abs(h - w).max()
            c.ok(d <= 2e-4 * mx, "extended-sources", f"{what}: {q} off by {d:.3g} of {mx:.3g}")
            c.events += want[q].size


def scattered(c):
    """a cloud of dipoles at random places with random phases"""
    rng = c.rng
    g = G.grid(rng, zones=False, pml=[2] * 6, per=wavevec(c) if rng.random() < 0.3 else None)
    comp = signed(rng, "E")
    q = comp.lstrip("-")
    d = "xyz".index(q[1])
    f = float(np.round(rng.uniform(0.3, 1.2), 3))
    td = int(rng.integers(8, 20))
    lo = [float(rng.uniform(-0.4, -0.1) * n) for n in g.size]
    hi = [float(rng.uniform(0.1, 0.4) * n) for n in g.size]
    seeds = [int(x) for x in rng.integers(1, 10 ** 6, 6)]
    many = int(rng.integers(2, 40))
    ts = sorted(int(x) for x in rng.choice(np.arange(2 * td, 4 * td), 3, replace=False))
    c.desc(n=g.n, per=g.per, comp=comp, f=f, td=td, lo=lo, hi=hi, seeds=seeds, many=many, ts=ts)
    c.cls(comp, "complex" if g.complex else "real")
    box = " ".join("%.8g %.8g" % (lo[e], hi[e]) for e in range(3))
    sc = G.setup(g) + ["coefficient"]
    for k, sd in enumerate(seeds):
        for m in ts:
            sc += ["field_init", f"set_t {m}", f"random_dipole {comp} {f} {td} {box} 1 {sd}", f"dump s{k}_{m}"]
    sc += ["field_init", f"set_t {ts[0]}", f"random_dipole {comp} {f} {td} {box} {many} {seeds[0]}", "dump m0"]
    sc += ["field_init", f"set_t {ts[0]}", f"random_dipole {comp} {f} {td} {box} {many} {seeds[0]}", "dump m1"]
    a = [np.floor(0.5 + (lo[e] + 0.5 * g.size[e]) * g.lat[e] - 1e-4) for e in range(3)]
    b = [np.floor(0.5 + (hi[e] + 0.5 * g.size[e]) * g.lat[e] + 1e-4) for e in range(3)]
    w = 2 * R.PI * f / (g.S * g.dx * g.lat[0])
    with X.session() as s:
        r = s.run(sc)
        sane(c, r)
        seen = set()
        for k in range(len(seeds)):
            A = [G.got(r.arrays(f"s{k}_{m}"), q, g) for m in ts]
            tot = np.array([x.sum() for x in A])
            env = np.array([np.exp(-((m - 3 * td) / td) ** 2) for m in ts])
            mask = sum(np.abs(x) for x in A) > 1e-7
            idx = np.argwhere(mask)
            sh = np.zeros(3, int)
            sh[d] = 1
            ok = len(idx) == 2 and np.array_equal(idx[1] - idx[0], sh)
            c.ok(ok, "scattered-dipoles", f"a single dipole drives {idx.tolist()}")
            if not ok:
                continue
            n = idx[1]
            seen.add(tuple(n))
            c.ok(all(a[e] <= n[e] <= b[e] for e in range(3)), "scattered-dipoles", f"dipole at {n} outside its box {a} {b}")
            for x in A:
                u, v = x[tuple(idx[0])], x[tuple(idx[1])]
                c.ok(abs(u - v) <= 1e-6 + 1e-5 * abs(u), "scattered-dipoles", f"halves {u} and {v}")
            # one phase for the whole history
            M = np.array([[np.sin(w * m), np.cos(w * m)] for m in ts]) * env[:, None]
            x, *_ = np.linalg.lstsq(M, tot.real, rcond=None)
            c.ok(np.abs(M @ x - tot.real).max() < 2e-4, "scattered-dipoles", f"drive {tot} is no oscillation at the frequency")
            if abs(np.linalg.det(M[:2])) > 0.05 * env[0] * env[1]:
                c.ok(abs(x @ x - 1) < 5e-3, "scattered-dipoles", f"squared amplitude {x @ x}")
            if g.complex:
                c.ok(np.abs(np.abs(tot) - env).max() < 2e-4, "scattered-dipoles", f"complex drive {np.abs(tot)}, envelope {env}")
            c.events += len(ts)
        if (b[0] - a[0] + 1) * (b[1] - a[1] + 1) * (b[2] - a[2] + 1) > 60:
            c.ok(len(seen) > 2, "scattered-dipoles", f"{len(seeds)} seeds give the places {seen}")
        A, B = (G.got(r.arrays(x), q, g) for x in ("m0", "m1"))
        c.ok(np.array_equal(A, B), "scattered-dipoles", "the same seed gives another cloud")
        idx = np.argwhere(np.abs(A) > 1e-7)
        c.ok(all(a[e] - (e == d) <= n[e] <= b[e] for n in idx for e in range(3)), "scattered-dipoles", "dipoles outside their box")
        c.ok(len(idx) >= 2 and len(idx) <= 2 * many, "scattered-dipoles", f"{many} dipoles drive {len(idx)} samples")
        c.ok(np.abs(A).sum() <= many * np.exp(-((ts[0] - 3 * td) / td) ** 2) * (1.001 if not g.complex else 1.001), "scattered-dipoles",
             f"drive of {many} dipoles {np.abs(A).sum()}")
        for p_ in R.COMPS:
            if p_ != q:
                c.ok(np.abs(G.got(r.arrays("m0"), p_, g)).max() < 1e-12, "scattered-dipoles", f"{p_} is driven")


def incoherent(c):
    """point dipoles that keep direction and phase for random lifetimes"""
    rng = c.rng
    g = G.grid(rng, zones=False, pml=[2] * 6, per=wavevec(c) if rng.random() < 0.4 else None, cells=(7, 10))
    kind = ["Gauss", "Lorentz"][rng.integers(2)]
    f = float(np.round(rng.uniform(0.3, 1.2), 3))
    T = int(rng.integers(40, 70))
    td, to = (int(rng.integers(T // 3, T)), T // 2) if kind == "Gauss" else (int(rng.choice([0, 40])), 0)
    mu, sd = float(rng.uniform(6, 14)), float(rng.uniform(0, 1.2))
    nd = int(rng.integers(1, 4))
    at = []
    while len(at) < nd:
        n = tuple(int(rng.integers(3, p - 2)) for p in g.p)
        if all(max(abs(x - y) for x, y in zip(n, m)) > 1 for m in at):
            at.append(n)
        elif rng.random() < 0.02:
            break
    nd = len(at)
    c.desc(n=g.n, per=g.per, kind=kind, f=f, T=T, td=td, to=to, mu=mu, sd=sd, at=at)
    c.cls(kind, "complex" if g.complex else "real", nd)
    sc = G.setup(g) + ["coefficient"]
    for m in range(T):
        sc += ["field_init", f"set_t {m}"]
        for n in at:
            x = [n[e] / g.lat[e] - 0.5 * g.size[e] for e in range(3)]
            sc.append("once incoherent %s %.8g %.8g %.8g %.9g %d %d %.8g %.8g" % (kind, *x, f, to, td, mu, sd))
        sc.append(f"dump d{m}")
    with X.session() as s:
        r = s.run(sc)
        sane(c, r)
        J = np.zeros((T, nd, 3), complex)
        for m in range(T):
            A = r.arrays(f"d{m}")
            for e in range(3):
                q = "E" + "xyz"[e]
                F = np.array(G.got(A, q, g), complex)
                for k, n in enumerate(at):
                    l = list(n)
                    l[e] -= 1
                    u, v = F[n], F[tuple(l)]
                    c.ok(abs(u - v) <= 1e-6 + 1e-5 * abs(u), "incoherent-dipoles", f"halves {u}, {v} of {q} at {m}")
                    J[m, k, e] = u + v
                    F[n] = F[tuple(l)] = 0
                c.ok(np.abs(F).max() < 1e-12, "incoherent-dipoles", f"{q} driven elsewhere at {m}")
            c.events += nd
        low = "gauss" if kind == "Gauss" else "lorentz"
        S_ = np.array([ampl(low, m, f, 0.0, to, td, g) for m in range(T)])
        C_ = np.array([ampl(low, m, f, np.pi / 2, to, td, g) for m in range(T)])
        live = S_ ** 2 + C_ ** 2 > 1e-3
        dirs = []
        for k in range(nd):
            m0 = 0
            spans = []
            while m0 < T:
                # the longest span from here on that is one rank-one oscillation of unit strength
                m1 = m0 + 1
                fit = None
                while m1 <= T:
                    M = np.stack([S_[m0:m1], C_[m0:m1]], 1)
                    x, *_ = np.linalg.lstsq(M, J[m0:m1, k].real, rcond=None)
                    if np.abs(M @ x - J[m0:m1, k].real).max() > 1e-4:
                        break
                    fit = x
                    m1 += 1
                spans.append((m0, m1 - 1, fit))
                m0 = m1 - 1
                if fit is None:
                    break
            c.ok(spans[-1][2] is not None, "incoherent-dipoles", "drive is no oscillation")
            for m0, m1, x in spans[:-1]:
                if m1 - m0 >= 3 and live[m0:m1].all() and x is not None:
                    sv = np.linalg.svd(x)[1]
                    # rank one: one phase, one direction; strength one
                    c.ok(sv[1] < 0.05 * sv[0] and abs(sv[0] - 1) < 0.02, "incoherent-dipoles", f"span {m0}-{m1}: singular values {sv}")
                    dirs.append(np.linalg.svd(x)[2][0])
                    c.events += 1
            if g.complex:
                env = np.sqrt(S_ ** 2 + C_ ** 2)
                c.ok(np.abs(np.sqrt((np.abs(J[:, k]) ** 2).sum(1)) - env).max() < 1e-3, "incoherent-dipoles", "complex drive does not follow the envelope")
            # lifetimes: whole steps around the mean (undetectable redraws in dead spans are left out)
            edges = [m1 for m0, m1, _ in spans[:-1] if live[max(m1 - 3, 0):min(m1 + 3, T)].all()]
            gaps = [v - u for u, v in zip(edges, edges[1:]) if live[u:v].all()]
            c.ok(all(mu - 6 * sd - 2 <= x <= mu + 6 * sd + 2 for x in gaps), "incoherent-dipoles", f"lifetimes {gaps} of mean {mu} and width {sd}")
            c.ok(not live.all() or len(edges) >= 1 or T < mu + 6 * sd + 2, "incoherent-dipoles", "never drawn again")
        if len(dirs) >= 2:
            D = np.array(dirs)
            c.ok(np.abs(np.abs(D @ D.T) - 1)[np.triu_indices(len(D), 1)].max() > 1e-3, "incoherent-dipoles", "all directions are the same")


def fresh_start(c):
    """zeroing the fields and starting over repeats the run; runs are deterministic"""
    g = G.grid(c.rng, per=wavevec(c) if c.rng.random() < 0.4 else None, zones=None, pml=[0] * 6 if c.rng.random() < 0.5 else None)
    mets = G.metals(c.rng, g, 0.5, pec=False) if max(g.pml_in) == 0 else []
    lines, _ = G.seed_fields(c.rng, g)
    n = int(c.rng.integers(5, 20))
    c.desc(n=g.n, mets=mets, steps=n)
    base = G.setup(g) + mets + (["make_metal"] if mets else []) + ["coefficient"]
    with X.session() as s:
        r = s.run(base + ["field_init", "set_t 0"] + lines + [f"run {n}", "dump d1", "field_init", "dump d2", "set_t 0"] + lines + [f"run {n}", "dump d3"])
        sane(c, r)
        a, z, b = r.arrays("d1"), r.arrays("d2"), r.arrays("d3")
        for q in R.COMPS:
            c.ok(np.all(G.got(z, q, g) == 0), "restart-repeats", f"{q} not cleared")
            c.ok(np.array_equal(G.got(a, q, g), G.got(b, q, g)), "restart-repeats", f"{q} differs after a fresh start")
            c.events += a[q].size


M = ["sanitizers-silent", "grid-constants", "fields-follow-maxwell"]
NATIVE = True
FAMILIES = [
    Family("open", open_box, 60, 500, monitors=M, chunk=4),
    Family("bloch", bloch, 40, 350, monitors=M, chunk=4),
    Family("triangular", triangular, 24, 200, monitors=M, chunk=4),
    Family("mirrors", mirrors, 40, 350, monitors=M, chunk=4),
    Family("mixed", half_periodic, 24, 200, monitors=M, chunk=4),
    Family("uninitialised", uninitialised, 16, 150, monitors=M, chunk=4),
    Family("folded", folded, 24, 200, monitors=["sanitizers-silent", "mirror-is-full-domain"], chunk=4),
    Family("supercell", supercell, 24, 200, monitors=["sanitizers-silent", "bloch-is-supercell"], chunk=4),
    Family("energy", conserve, 24, 200, monitors=["sanitizers-silent", "energy-conserved"], chunk=4),
    Family("absorb", absorb, 6, 40, monitors=["sanitizers-silent", "layers-absorb"], chunk=1),
    Family("sources", sources, 48, 400, monitors=["sanitizers-silent", "sources-drive-fields"], chunk=4),
    Family("extended", extended, 72, 900, monitors=["sanitizers-silent", "extended-sources"], chunk=4),
    Family("scattered", scattered, 16, 200, monitors=["sanitizers-silent", "scattered-dipoles"], chunk=2),
    Family("incoherent", incoherent, 16, 200, monitors=["sanitizers-silent", "incoherent-dipoles"], chunk=2),
    Family("restart", fresh_start, 12, 100, monitors=["sanitizers-silent", "restart-repeats"], chunk=4),
]
