"""P30 FDTD observables: field values, energies, fluxes and output files follow the field samples."""
import numpy as np
from harness import vp
from harness.vp import Family, Skip
from harness import fdtdsim as X, fdtdref as R, fdtdgen as G, fdtdobs as O

ASSUMPTIONS = ["the library is compiled with clang under ASan+UBSan and MSan with a stand-in for GSL's generator",
               "whole-domain sums are judged in non-periodic domains only; polarisation currents are not judged on mirror planes"]
BUDGET = {"quick": 300, "thorough": 1200}


def prepare(tier):
    X.build("asan")
    X.build("msan")


def scene(c, per=None, parity=(0, 0, 0), zones=None, cells=(9, 15), cubic=False, pml=None, metal=0.6):
    """a grid with materials and fields that have evolved for a few steps"""
    rng = c.rng
    while True:
        g = G.grid(rng, per=per, parity=parity, zones=zones, cells=cells, pml=pml)
        if not cubic or all(q % 5 == 0 for q in g.lat):
            break
    objs = G.objects(rng, g)
    mets = [m for m in G.metals(rng, g, metal) if parity == (0, 0, 0) or " 1000 " not in m]
    lines, _ = G.seed_fields(rng, g, per=25)
    W = float(np.round(rng.uniform(0.2, 1.0), 3))
    a_nm = float(np.round(rng.uniform(200, 900), 2))
    pre = G.setup(g) + objs + (["make_epsilon"] if objs else []) + mets + (["make_metal"] if mets else [])
    t = int(rng.integers(3, 12))
    pre += [f"real_space {a_nm} {W}", "coefficient", "field_init", "set_t 0"] + lines + [f"run {t}"]
    c.desc(n=g.n, lat=list(map(int, g.lat)), pml=g.pml_in, zones=g.zones_given, per=per, parity=parity, objs=objs, mets=mets, W=W, t=t)
    c.cls("metal" if mets else "dielectric", "layers" if g.zones else "uniform", "complex" if g.complex else "real")
    return g, pre, W, a_nm, t


def setting(c):
    """open, mirrored or periodic"""
    rng = c.rng
    u = rng.random()
    if u < 0.4:
        return {}
    if u < 0.7:
        p = [int(x) for x in rng.integers(-1, 2, 3)]
        if not any(p):
            p[rng.integers(3)] = 1
        return dict(parity=tuple(p))
    k = [float(np.round(x, 3)) for x in rng.uniform(-.5, .5, 2)]
    on = [(1, 0), (0, 1), (1, 1)][rng.integers(3)]
    if rng.random() < 0.25:
        k = [0.0, 0.0]
    return dict(per=(*on, k[0] * on[0], k[1] * on[1]))


def pos(g, d, i):
    return i / g.lat[d] - 0.5 * g.size[d]


def zpos(g, k):
    return O.Zmap(g).z(k)


def near(c, have, want, monitor, scale, msg, rel=3e-5):
    have, want = np.atleast_1d(np.asarray(have, float)), np.atleast_1d(np.asarray(want, float))
    if have.shape != want.shape:
        c.fail(monitor, f"{msg}: shape {have.shape}, expected {want.shape}")
        return
    err = np.abs(have - want)
    bad = ~(err <= rel * np.abs(want) + rel * scale)
    inf = ~np.isfinite(want)
    bad[inf] = ~(have[inf] == want[inf])
    c.ok(not bad.any(), monitor, f"{msg}: got {have[bad].ravel()[:3]} expected {want[bad].ravel()[:3]}")
    c.events += have.size


def near_comp(c, N, comp, have, want, monitor, msg, rel=2e-5):
    """compare values of a field component; logarithms only down to where rounding of the fields decides"""
    if not comp.startswith("Log"):
        near(c, have, want, monitor, scale_of(N, comp), msg, rel)
        return
    have, want = np.asarray(have, float), np.asarray(want, float)
    if np.isnan(have).any() or (have == np.inf).any():
        c.fail(monitor, f"{msg}: not a number")
        return
    top = scale_of(N, comp[3:])
    floor = np.log10(top) - 8 if top > 0 else np.inf
    near(c, np.maximum(have, floor), np.maximum(want, floor), monitor, 0.03, msg, 1e-3)


def scale_of(N, comp, phase=None):
    g = N.g
    e = max(np.abs(N.get("E" + x)).max() for x in "xyz")
    h = max(np.abs(N.get("H" + x)).max() for x in "xyz")
    if g.complex:
        e += max(np.abs(N.get("iE" + x)).max() for x in "xyz")
        h += max(np.abs(N.get("iH" + x)).max() for x in "xyz")
    if comp.startswith("Log"):
        return 1.0
    if comp[0] == "E" and len(comp) == 2:
        return e
    if comp[0] == "H" and len(comp) == 2:
        return h
    if comp[0] == "J" and len(comp) == 2:
        return max(np.abs(N.get("J" + x)).max() for x in "xyz") + 1e-30
    if comp == "J.E":
        return e * max(np.abs(N.get("J" + x)).max() for x in "xyz") + 1e-30
    if comp[0] == "S":
        return e * h
    if "Energy" in comp:
        v = N.value(comp)
        v = np.abs(v[np.isfinite(v)])
        return max(v.max(), R.EO * e * e)
    return e * e if comp[0] == "E" else h * h


def pick(c, N, J=True):
    q = O.COMPONENTS[c.rng.integers(len(O.COMPONENTS))]
    if q[0] == "J" and any(N.parity) and not J:
        return pick(c, N, J)
    return q


def clear_of_mirror(g, i):
    return all(not p or x != n // 2 for p, x, n in zip(g.parity, i, g.n))


def values(c, kind="asan"):
    st = setting(c)
    g, pre, W, a_nm, t = scene(c, **st)
    last = [n - 1 + (1 if d < 2 and g.per[d] else 0) for d, n in enumerate(g.n)]
    ask = []
    for q, comp in enumerate(O.COMPONENTS * 3):
        i = [int(c.rng.integers(1, L + 1)) for L in last]
        if comp[0] == "J" and not clear_of_mirror(g, i):
            continue
        ask.append((f"v{q}", comp, tuple(i)))
    at = [tuple(int(c.rng.integers(1, L + 1)) for L in last) for _ in range(30)]
    sc = ["gv %s %d %d %d %s" % (comp, *i, nm) for nm, comp, i in ask] + ["eps %d %d %d e%d" % (*i, q) for q, i in enumerate(at)]
    with X.session() as s:
        r = s.run(pre + ["dump d"] + sc, kind)
        c.ok(r.sane, "sanitizers-silent", r.report())
        N = O.Nodes(g, r.arrays("d"), W)
        for nm, comp, i in ask:
            w = N.value(comp)[i]
            near_comp(c, N, comp, r.val[nm], w, "node-values", f"{comp} at {i}")
        for q, i in enumerate(at):
            near(c, r.val[f"e{q}"], N.eps()[i], "node-values", 0, f"permittivity at {i}")


def rows(r, name):
    return np.array(r.table(name))


def image(g, v, plane, idx, dz, last):
    """rows top to bottom, layers repeated by their relative thickness"""
    rng = [slice(1, L + 1) for L in last]
    if plane == "z":
        return v[rng[0], rng[1], idx].T[::-1]
    w = (v[idx, rng[1], rng[2]] if plane == "x" else v[rng[0], idx, rng[2]]).T     # [k, other]
    rep = [int(dz[k]) for k in range(1, last[2] + 1)]
    return np.repeat(w, rep, axis=0)[::-1]


def planes(c):
    st = setting(c)
    g, pre, W, a_nm, t = scene(c, **st)
    last = [n - 1 + (1 if d < 2 and g.per[d] else 0) for d, n in enumerate(g.n)]
    jobs, sc = [], []
    nc = len(O.COMPONENTS)
    for q in range(15):
        u = 15 * c.index + q
        comp = O.COMPONENTS[u // 3 % nc]
        plane = "xyz"[u % 3]
        d = "xyz".index(plane)
        i = int(c.rng.integers(1, g.n[d]))
        if comp[0] == "J" and any(g.parity):
            comp = "Sx"
        v = pos(g, d, i) if d < 2 else zpos(g, i)
        last_name = f".p{q}" + ("x" * int(c.rng.integers(0, 60)) if c.rng.random() < 0.3 else "")
        if q % 5 == 4 and c.rng.random() < 0.7:
            jobs.append(("eps", plane, i, last_name))
            sc.append(f"out_epsilon {plane} {v:.8g} {last_name}")
        else:
            jobs.append((comp, plane, i, "%07d" % t + last_name))
            sc.append(f"out_plane {comp} {plane} {v:.8g} {last_name}")
    with X.session() as s:
        r = s.run(pre + ["dump d"] + sc)
        c.ok(r.sane, "sanitizers-silent", r.report())
        N = O.Nodes(g, r.arrays("d"), W)
        dz = N.dz()
        for comp, plane, i, nm in jobs:
            if not r.exists(nm):
                c.fail("output-files", f"{nm} not written")
                continue
            if comp == "eps":
                me = N.metal()[0]
                v = np.where(me == 0, N.eps(), me)
                near(c, rows(r, nm), image(g, v, plane, i, dz, last), "output-files", 0, f"permittivity image {plane}{i}")
            else:
                v = N.value(comp)
                near_comp(c, N, comp, rows(r, nm), image(g, v, plane, i, dz, last), "output-files", f"{comp} image {plane}{i}")
            c.cls(plane, comp)


def bloch_planes(c):
    """images of several periods carry the phase of the wave vector"""
    k = [float(np.round(x, 3)) for x in c.rng.uniform(-.5, .5, 2)]
    if c.rng.random() < 0.2:
        k = [0.0, 0.0]
    g, pre, W, a_nm, t = scene(c, per=(1, 1, *k))
    jobs, sc = [], []
    nc = len(O.COMPONENTS)
    for q in range(24):       # every component on every plane, in the course of a few cases
        u = 24 * c.index + q
        comp = O.COMPONENTS[u // 3 % nc]
        plane = "xyz"[u % 3]
        d = "xyz".index(plane)
        i = int(c.rng.integers(1, g.n[d]))
        v = pos(g, d, i) if d < 2 else zpos(g, i)
        mh, mv = (int(x) for x in c.rng.integers(1, 4, 2))
        if q % 8 == 7 and c.rng.random() < 0.5:
            jobs.append(("eps", plane, i, mh, mv, f"eps{q}.b"))
            sc.append(f"out_epsilon_periodic {plane} {v:.8g} eps{q}.b {mh} {mv}")
            continue
        jobs.append((comp, plane, i, mh, mv, "%07d.b%d" % (t, q)))
        sc.append(f"out_plane_periodic {comp} {plane} {v:.8g} .b{q} {mh} {mv}")
    with X.session() as s:
        r = s.run(pre + ["dump d"] + sc)
        c.ok(r.sane, "sanitizers-silent", r.report())
        a = r.arrays("d")
        for comp, plane, i, mh, mv, nm in jobs:
            have = rows(r, nm)
            # whether the closing column of a period is repeated is a matter of convention
            for ext in (0, 1):
                last = [g.n[0] - 1 + ext, g.n[1] - 1 + ext, g.n[2] - 1]
                w = last[0] if plane in "yz" else last[1]
                if have.shape[1] == mh * w:
                    break
            N = O.Nodes(g, a, W)
            if comp == "eps":
                me = N.metal()[0]
                one = image(g, np.where(me == 0, N.eps(), me), plane, i, N.dz(), last)
                near(c, have, np.tile(one, (mv, mh)), "periodic-images", 0, f"permittivity {plane}{i} {mh}x{mv}")
                c.cls(plane, comp)
                continue
            if plane != "z":
                mv = 1
            want = []
            for v in range(mv):
                row = []
                for h in range(mh):
                    ph = 2 * np.pi * {"x": h * k[1], "y": h * k[0], "z": h * k[0] + v * k[1]}[plane]
                    row.append(image(g, N.value(comp, ph), plane, i, N.dz(), last))
                want.append(np.concatenate(row, axis=1))
            near_comp(c, N, comp, have, np.concatenate(want), "periodic-images", f"{comp} {plane}{i} {mh}x{mv}", 3e-5)
            c.cls(plane, comp)


def averaged(c):
    """time averages of planes, with the surface projections"""
    st = setting(c)
    g, pre, W, a_nm, t0 = scene(c, **st)
    last = [n - 1 + (1 if d < 2 and g.per[d] else 0) for d, n in enumerate(g.n)]
    plane = "xyz"[c.rng.integers(3)]
    d = "xyz".index(plane)
    i = int(c.rng.integers(1, g.n[d]))
    comp = ["Ex", "Ey", "Hz", "E^2", "H^2", "Sx", "Sy", "Sz", "E_Energy", "EM_Energy", "Ex2Ey2"][c.rng.integers(11)]
    v = pos(g, d, i) if d < 2 else zpos(g, i)
    n = int(c.rng.integers(2, 7))
    start = t0 + int(c.rng.integers(0, 3))
    c.cls(plane, comp, f"n{n}")
    sc = []
    for t in range(t0, start + n + 2):
        sc += [f"out_plane_avg {comp} {plane} {v:.8g} {start} {start + n} .avg", f"out_plane_avg_proj {comp} +z {start} {start + n} .avgp SHIFT",
               f"dump d{t}", "run 1"]
    shift = int(c.rng.integers(0, 3))
    sc = [x.replace("SHIFT", str(shift)) for x in sc]
    sc += [f"out_plane_proj {comp} +z .proj {shift}", "out_epsilon_proj +z surf.eps", "dump dd"]
    with X.session() as s:
        r = s.run(pre + sc)
        c.ok(r.sane, "sanitizers-silent", r.report())
        acc, sc_, mean = 0.0, 0.0, 0.0
        for t in range(start + 1, start + n + 1):
            N = O.Nodes(g, r.arrays(f"d{t}"), W)
            mean = mean + N.value(comp) / n
            acc = acc + image(g, N.value(comp), plane, i, N.dz(), last)
            sc_ = max(sc_, scale_of(N, comp))
        near(c, rows(r, "%07d.avg" % start), acc / n, "time-averages", sc_, f"{comp} {plane}{i} over {n} steps")
        N = O.Nodes(g, r.arrays("dd"), W)
        e, me, val = N.eps(), N.metal()[0], N.value(comp)
        K = g.n[2] - 1
        se, sv, sm, judged = [], [], [], []
        for j in range(last[1], 0, -1):
            re_, rv, rm, ok = [], [], [], []
            for x in range(1, last[0] + 1):
                k, sure = 0, True
                for m in range(K - 1, 0, -1):
                    dif = abs(e[x, j, m] - e[x, j, K])
                    if me[x, j, m] == 0 and abs(dif - 0.1) < 1e-4:
                        sure = False
                    if me[x, j, m] != 0 or dif > 0.1:
                        k = m - 1
                        break
                sure &= k >= 1      # the lowest layer has no interpolated value
                re_.append(me[x, j, k] if me[x, j, k] != 0 else e[x, j, k])
                sure_v = sure and k + shift <= K
                rv.append(val[x, j, min(k + shift, K)])
                rm.append(mean[x, j, min(k + shift, K)])
                ok.append((sure, sure_v))
            se.append(re_), sv.append(rv), sm.append(rm), judged.append(ok)
        ok = np.array(judged)
        have = rows(r, "surf.eps")
        near(c, np.where(ok[..., 0], have, 0), np.where(ok[..., 0], se, 0), "surface-projections", 0, "permittivity")
        for nm, want, what in (("%07d.proj" % (start + n + 2), sv, "values"), ("%07d.avgp" % start, sm, "averages")):
            near(c, np.where(ok[..., 1], rows(r, nm), 0), np.where(ok[..., 1], want, 0), "surface-projections", max(sc_, scale_of(N, comp)), f"{comp} {what} {shift} layers above the surface")


def blocks(c):
    """sums over blocks: energies, dissipation, peak, flux through the faces"""
    rng = c.rng
    par = (0, 0, 0)
    if rng.random() < 0.4:
        par = tuple(int(x) for x in rng.integers(-1, 2, 3))
    g, pre, W, a_nm, t = scene(c, parity=par, cells=(10, 15))
    zm = O.Zmap(g)
    sc, jobs = [], []
    files = {"E_block": "total_eEE_b.en", "E2_block": "total_eEE2_b.en", "E3_block": "total_eEE3_b.en", "EM_block": "total_eEE_uHH_b.en"}
    comps = {"E_block": "E_Energy", "E2_block": "E_Energy2", "E3_block": "E_Energy3", "EM_block": "EM_Energy"}
    for q in range(4):
        lo, hi, cen, siz = [], [], [], []
        for d in range(3):
            L = g.n[d] - 2
            a = int(rng.integers(2, L - 1))
            b = int(rng.integers(a + 1, L + 1))
            if d < 2:
                x0, x1 = (a + rng.uniform(0.25, 0.75)) / g.lat[d], (b + rng.uniform(0.25, 0.75)) / g.lat[d]
                x0, x1 = x0 - 0.5 * g.size[d], x1 - 0.5 * g.size[d]
            else:
                x0, x1 = zm.z(a), zm.z(b)
                if zm.index(x0 + 1e-4)[0] != a or zm.index(x0 - 1e-4)[0] != a or zm.index(x1 + 1e-4)[0] != b or zm.index(x1 - 1e-4)[0] != b:
                    raise Skip()
            lo.append(a), hi.append(b), cen.append(0.5 * (x0 + x1)), siz.append(x1 - x0)
        arg = "%.8g %.8g %.8g %.8g %.8g %.8g" % (*cen, *siz)
        mid = np.array([np.sort(rng.uniform(1, 12, 2))][0])
        lim = (float(mid[0]), float(mid[1])) if rng.random() < 0.5 else (0.0, 100.0)
        jobs.append((lo, hi, lim))
        sc += [f"E_thin_z {arg} %.8g %.8g thin.en" % lim, "rename Drude_E_loss.en keep.en" if q else "rename nothing nowhere",
               f"drude_loss2 {arg} {W} {G.UNIT}", f"rename Drude_E_loss.en loss2.{q}", "rename keep.en Drude_E_loss.en" if q else "rename nothing nowhere"]
        sc += [f"{x} {arg}" for x in files] + [f"max_E {arg}", f"drude_loss {arg}", f"poynting_block {arg}"]
    c.desc(blocks=jobs)
    with X.session() as s:
        r = s.run(pre + ["dump d"] + sc + ["sums", "print_energy"])
        c.ok(r.sane, "sanitizers-silent", r.report())
        N = O.Nodes(g, r.arrays("d"), W)
        dz = N.dz()
        flux = np.zeros(3)
        fscale = 0.0
        for q, (lo, hi, lim) in enumerate(jobs):
            sl = tuple(slice(a, b + 1) for a, b in zip(lo, hi))
            vol = g.dx * g.dy * dz[sl[2]]
            for x, f in files.items():
                v = N.value(comps[x])[sl]
                if not np.isfinite(v).all():
                    continue
                tab = rows(r, f)[q]
                c.ok(int(tab[0]) == t, "block-sums", f"time stamp {tab[0]}")
                near(c, tab[1], (v * vol).sum(), "block-sums", np.abs(v * vol).sum(), x, 5e-5)
            v, e = N.value("E_Energy"), N.eps()
            two = [(*sl[:2], k) for k in (lo[2], hi[2])]
            if all(np.isfinite(v[w]).all() for w in two):
                sel = np.all([(e[w] >= lim[0]) & (e[w] <= lim[1]) for w in two], axis=0)
                if not any((np.abs(e[w] - x) < 1e-4).any() for w in two for x in lim):
                    h = (zm.z(hi[2]) - zm.z(lo[2])) * g.dx * g.lat[0]
                    near(c, rows(r, "thin.en")[q][1], (0.5 * h * g.dx * g.dy * (v[two[0]] + v[two[1]]) * sel).sum(), "block-sums",
                         np.abs(v[two[0]]).sum() * h * g.dx * g.dy, "energy of a thin layer", 1e-4)
            _, mo, mg = N.metal()
            w = W * 2 * np.pi * R.C0 / (g.dx * g.lat[0])
            v = (2 * w * R.EO * mo ** 2 * mg / (w ** 3 + w * mg ** 2) * N.value("E^2"))[sl] * vol
            near(c, r.table(f"loss2.{q}")[0][1], v.sum(), "block-sums", np.abs(v).sum() + 0.1, "loss at a frequency", 5e-5)
            c.cls("lossy" if v.sum() > 1e-3 else "lossless")
            v = N.value("E_Energy")[sl]
            if np.isfinite(v).all():
                tab = rows(r, "max_detect.dat")[q]
                near(c, tab[4], v.max(), "block-sums", abs(v).max(), "peak energy")
                i = tuple(int(x) for x in tab[1:4])
                c.ok(all(a <= x <= b for a, x, b in zip(lo, i, hi)), "block-sums", f"peak outside the block at {i}")
                if all(a <= x <= b for a, x, b in zip(lo, i, hi)):
                    near(c, N.value("E_Energy")[i], v.max(), "block-sums", abs(v).max(), "energy at the reported peak")
            if not any(g.parity):
                v = N.value("J.E")[sl] * vol
                near(c, rows(r, "Drude_E_loss.en")[q][1], v.sum(), "block-sums", np.abs(v).sum() + 1e-30, "Drude loss", 5e-5)
            for d in range(3):
                S = N.value("S" + "xyz"[d])
                A = np.ones(g.n)
                A = A * {0: g.dy * dz, 1: g.dx * dz, 2: g.dx * g.dy * np.ones_like(dz)}[d][None, None, :g.n[2]]
                for side, sg in ((hi[d], 1), (lo[d], -1)):
                    w = list(sl)
                    w[d] = side
                    w = tuple(w)
                    flux[d] += sg * (S[w] * A[w]).sum()
                    fscale += np.abs(S[w] * A[w]).sum()
        near(c, [r.val["Sumx"], r.val["Sumy"], r.val["Sumz"]], flux, "fluxes", fscale, "flux through the faces of blocks", 5e-5)
        txt = r.text("VQSQ.en").replace("=", " ").split()
        val = {a: float(b) for a, b in zip(txt[::2], txt[1::2])}
        near(c, [val["Sumx"], val["Sumy"], val["Sumz"], val["VerticalLoss"]], [*flux, flux.sum()], "fluxes", fscale, "summary file", 5e-5)


def totals(c):
    """whole-domain energies and fluxes through the box around the interior"""
    rng = c.rng
    par = (0, 0, 0)
    if rng.random() < 0.4:
        par = tuple(int(x) for x in rng.integers(-1, 2, 3))
    g, pre, W, a_nm, t = scene(c, parity=par, cubic=True, cells=(14, 20), zones=False if par[2] else None)
    rng_ = []
    for d in range(3):
        m = int(0.2 * g.lat[d] + 0.5)
        lo, hi = 1 + g.pml[d][0] + m, g.n[d] - 2 - g.pml[d][1] - m
        if hi - lo < 2:
            raise Skip()
        rng_.append((lo, hi))
    zm = O.Zmap(g)
    klo, khi = sorted(int(x) for x in rng.integers(rng_[2][0], rng_[2][1] + 1, 2))
    mid, half = 0.5 * (zm.z(klo) + zm.z(khi)), 0.5 * (zm.z(khi) - zm.z(klo))
    for z, k in ((mid - half, klo), (mid + half, khi)):
        if zm.index(z + 1e-4)[0] != k or zm.index(z - 1e-4)[0] != k:
            raise Skip()
    reps = int(rng.integers(1, 4))
    sc = []
    for q in range(reps):
        sc += [f"dump d{q}", "total_E_energy", "total_EM_energy", "total_E2", "poynting_total", f"poynting_side {half:.8g} {mid:.8g}", f"poynting_updown {half:.8g} {mid:.8g}", "run 1"]
    pts = []
    for q in range(6):
        th, ph = float(np.round(rng.uniform(0.1, 3), 3)), float(np.round(rng.uniform(0, 6.2), 3))
        R0 = float(np.round(rng.uniform(0.1, 0.3) * min(g.size), 4))
        z0 = float(np.round(rng.uniform(-0.1, 0.1) * g.size[2], 4))
        cmp_ = ["r", "theta", "phi"][q % 3]
        pts.append((cmp_, z0, R0, th, ph))
        sc.append(f"poynting_point {cmp_} {z0} {R0} {th} {ph} p{q}")
    c.desc(range=rng_, layers=(klo, khi), reps=reps)
    with X.session() as s:
        r = s.run(pre + sc + ["sums", "print_energy", "dump dd"])
        c.ok(r.sane, "sanitizers-silent", r.report())
        tot, side, up, dn, scl = np.zeros(3), np.zeros(2), 0.0, 0.0, 0.0
        sl = tuple(slice(a, b + 1) for a, b in rng_)
        for q in range(reps):
            N = O.Nodes(g, r.arrays(f"d{q}"), W)
            dz = N.dz()
            vol = g.dx * g.dy * dz[sl[2]]
            for f, comp in (("total_eEE.en", "E_Energy"), ("total_eEE_uHH.en", "EM_Energy"), ("total_EE.en", "E^2")):
                v = N.value(comp)[sl]
                if not np.isfinite(v).all():
                    continue
                tab = rows(r, f)[q]
                c.ok(int(tab[0]) == t + q, "domain-sums", f"{f}: time stamp {tab[0]}")
                near(c, tab[1], (v * vol).sum(), "domain-sums", np.abs(v * vol).sum(), f, 5e-5)
            S = [N.value("S" + x) for x in "xyz"]

            def face(d, ks):
                """flux through the two vertical walls of axis d within the layers ks"""
                o = 1 - d
                A = (g.dy if d == 0 else g.dx) * dz[ks]
                res, mag = 0.0, 0.0
                for at, sg in ((rng_[d][1], 1), (rng_[d][0] - 1, -1)):
                    w = S[d][at, sl[1], ks] if d == 0 else S[d][sl[0], at, ks]
                    res += sg * (w * A).sum()
                    mag += np.abs(w * A).sum()
                return res, mag
            lid = S[2][sl[0], sl[1], rng_[2][1]].sum() * g.dx * g.dy
            floor = S[2][sl[0], sl[1], rng_[2][0] - 1].sum() * g.dx * g.dy
            fx, mx = face(0, sl[2])
            fy, my = face(1, sl[2])
            tot += [fx, fy, lid - floor]
            scl += mx + my + abs(lid) + abs(floor) + np.abs(S[2][sl]).max() * g.dx * g.dy
            ks = slice(klo, khi + 1)
            side += [face(0, ks)[0], face(1, ks)[0]]
            ku, kd = slice(khi, rng_[2][1] + 1), slice(rng_[2][0], klo + 1)
            up += lid + face(0, ku)[0] + face(1, ku)[0]
            dn += -floor + face(0, kd)[0] + face(1, kd)[0]
        near(c, [r.val[x] for x in ("Sumx", "Sumy", "Sumz")], tot, "fluxes", scl, "through the interior box", 5e-5)
        near(c, [r.val["SideSumx"], r.val["SideSumy"]], side, "fluxes", scl, "through the side walls", 5e-5)
        near(c, [r.val["SumUpper"], r.val["SumLower"]], [up, dn], "fluxes", scl, "upward and downward", 5e-5)
        txt = r.text("VQSQ.en").replace("=", " ").split()
        val = {a: float(b) for a, b in zip(txt[::2], txt[1::2])}
        near(c, [val["SumUpper"], val["SumLower"], val["SideSumx"], val["SideSumy"], val["HorizontalLoss"], val["VerticalLoss"]],
             [up, dn, *side, side.sum(), tot.sum() - side.sum()], "fluxes", scl, "summary file", 5e-5)
        N = O.Nodes(g, r.arrays("dd"), W)
        S = [N.value("S" + x) for x in "xyz"]
        for q, (cmp_, z0, R0, th, ph) in enumerate(pts):
            x, y, z = R0 * np.sin(th) * np.cos(ph), R0 * np.sin(th) * np.sin(ph), R0 * np.cos(th) + z0
            u = [0.5 + (v + 0.5 * g.size[d]) * g.lat[d] for d, v in enumerate((x, y))]
            k, tie = zm.index(z)
            if tie < 1e-3 or min(abs(v - round(v)) for v in u) < 1e-3:
                continue
            i, j = int(np.floor(u[0])), int(np.floor(u[1]))
            a = [g.dy * dz[k] * S[0][i, j, k], g.dx * dz[k] * S[1][i, j, k], g.dx * g.dy * S[2][i, j, k]]
            e = {"r": (np.sin(th) * np.cos(ph), np.sin(th) * np.sin(ph), np.cos(th)),
                 "theta": (np.cos(th) * np.cos(ph), np.cos(th) * np.sin(ph), -np.sin(th)),
                 "phi": (-np.sin(ph), np.cos(ph), 0.0)}[cmp_]
            near(c, r.val[f"p{q}"], np.dot(a, e), "fluxes", max(max(np.abs(a)), 1e-4 * scl), f"{cmp_} component on a sphere", 5e-5)


def probes(c):
    """time series at points and rows of points"""
    st = setting(c)
    g, pre, W, a_nm, t0 = scene(c, **st)
    rng = c.rng
    last = [n - 1 + (1 if d < 2 and g.per[d] else 0) for d, n in enumerate(g.n)]
    comp = ["Ex", "Ey", "Ez", "Hx", "Hy", "Hz", "E^2", "Sz", "EM_Energy"][rng.integers(9)]
    i = [int(rng.integers(1, L + 1)) for L in last]
    x = [pos(g, 0, i[0]), pos(g, 1, i[1]), zpos(g, i[2])]
    ti = t0 + int(rng.integers(0, 3))
    tf = ti + int(rng.integers(1, 6))
    nx, ny = (int(v) for v in rng.integers(1, 4, 2))
    sx, sy = (int(rng.integers(1, (g.n[d] - 2) // 2)) * 2 / g.lat[d] for d in range(2))
    c.cls(comp, "row" if nx != ny else "square")
    c.desc(comp=comp, at=i, ti=ti, tf=tf, nx=nx, ny=ny, side=(sx, sy))
    sc = []
    stale = bool(rng.random() < 0.5)
    for t in range(t0, tf + 3):
        sc += [f"out_point {comp} {x[0]:.8g} {x[1]:.8g} {x[2]:.8g} {ti} {tf} pt.dat", f"out_points {comp} {x[2]:.8g} {sx:.8g} {sy:.8g} {nx} {ny} {ti} {tf} row.dat", f"dump d{t}", "run 1"]
    with X.session() as s:
        r = s.run(pre + sc, files={"pt.dat": "777\n888\n"} if stale else None)
        c.ok(r.sane, "sanitizers-silent", r.report())
        want, many, ok = [], [], None
        for t in range(ti, tf):
            N = O.Nodes(g, r.arrays(f"d{t}"), W)
            v = N.value(comp)
            want.append(v[tuple(i)])
            row, sure = [], []
            for m in range(nx + 1):
                for n in range(ny + 1):
                    u = 0.5 + (-0.5 * sx + m * sx / nx + 0.5 * g.size[0]) * g.lat[0]
                    w = 0.5 + (-0.5 * sy + n * sy / ny + 0.5 * g.size[1]) * g.lat[1]
                    sure.append(min(abs(u - round(u)), abs(w - round(w))) > 1e-3)
                    row.append(v[int(np.floor(u)), int(np.floor(w)), i[2]])
            many.append(row)
            ok = np.array(sure)
            sc_ = scale_of(N, comp)
        near(c, np.array(r.table("pt.dat")).ravel(), want, "time-series", sc_, f"{comp} at a point")
        have = np.array(r.table("row.dat"))
        near(c, have[:, ok], np.array(many)[:, ok], "time-series", sc_, f"{comp} on a row of points")


def parameters(c):
    """the parameter file converts the units consistently"""
    g, pre, W, a_nm, t = scene(c, zones=None)
    with X.session() as s:
        r = s.run(pre + [f"period {W} period"])
        c.ok(r.sane, "sanitizers-silent", r.report())
        ln = [x for x in r.text("Real_Space_Param.dat").splitlines() if "=" in x and not x.startswith("==") or x.startswith("x")]
        v, fixed = [], []                                  # values in fixed notation carry six decimals
        for x in ln:
            for part in x.split(",") if "pml" in x else [x]:
                k, _, y = part.partition("=")
                tok = y.split()[0] if "=" in part else x[1:]
                v.append(float(tok))
                fixed.append("e" not in tok.lower())
        q = g.dx * g.lat[0]
        fine = min(g.full_dz)
        want = [*g.size, *(g.size * a_nm), *g.pml_in, R.C0, g.S, g.S * q / (a_nm * 1e-9), g.dx, g.dy, fine,
                a_nm / g.lat[0], a_nm / g.lat[1], a_nm * fine / q, a_nm * 1e-9 / (R.C0 * g.S * q), g.lat[0] / W, W / (g.S * q), g.S * q / W, g.S * q]
        near(c, v, want, "unit-conversion", 0.03 * np.array(fixed, float), "Real_Space_Param.dat", 2e-5) if len(v) == len(want) else c.fail("unit-conversion", f"{len(v)} entries")
        c.ok(abs(r.val["period"] - g.S * q / W) <= 1.0 + 1e-4 * g.S * q / W, "unit-conversion", f"{r.val['period']:.0f} updates per period of {g.S * q / W:.3f}")


def memory(c):
    values(c, "msan")


S = "sanitizers-silent"
NATIVE = True
FAMILIES = [
    Family("values", values, 40, 300, monitors=[S, "node-values"], chunk=4),
    Family("planes", planes, 32, 250, monitors=[S, "output-files"], chunk=4),
    Family("bloch-planes", bloch_planes, 24, 200, monitors=[S, "periodic-images"], chunk=4),
    Family("averages", averaged, 24, 200, monitors=[S, "time-averages", "surface-projections"], chunk=4),
    Family("blocks", blocks, 32, 250, monitors=[S, "block-sums", "fluxes"], chunk=4),
    Family("totals", totals, 32, 250, monitors=[S, "domain-sums", "fluxes"], chunk=4),
    Family("probes", probes, 24, 200, monitors=[S, "time-series"], chunk=4),
    Family("parameters", parameters, 8, 60, monitors=[S, "unit-conversion"], chunk=4),
    Family("memory", memory, 8, 60, monitors=[S, "node-values"], chunk=4),
]
