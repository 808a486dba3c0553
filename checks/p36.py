"""P36 FDTD far fields: recorded near fields, momentum-space patterns, radiation patterns and polar maps."""
import os
import numpy as np
from harness import vp
from harness.vp import Family, Skip
from harness import fdtdsim as X, fdtdobs as O
from checks import p30

ASSUMPTIONS = ["the library is compiled with clang under ASan+UBSan and MSan",
               "padded arrays are powers of two at least as large as the grid and the window of ten light-cone radii fits into them",
               "polar maps are judged at the centre and beyond 0.02 radians from it"]
BUDGET = {"quick": 200, "thorough": 900}
NATIVE = True
COMP = ("Ex", "Ey", "Hx", "Hy")
ETA0 = 377.0
S = "sanitizers-silent"


def prepare(tier):
    X.build("asan")
    X.build("msan")


def near(c, have, want, monitor, scale, msg, rel=2e-4, floor=0.0):
    p30.near(c, have, want, monitor, scale + floor / rel, msg, rel)


# ---------------------------------------------------------------- reference
def spectrum(A, NROW, Nfree, k):
    """E, H: complex NROW x NROW arrays -> shrunk N, L (index [i][j])"""
    hs = int(np.float32(5) * np.float32(Nfree) * np.float32(k))
    h = NROW // 2
    out = {}
    for q in COMP:
        F = np.fft.fft2(A[q]) / NROW ** 2
        idx = np.mod(np.arange(-hs, hs + 1), NROW)
        out[q] = F[np.ix_(idx, idx)]
    return hs, (-out["Hy"], out["Hx"]), (out["Ey"], -out["Ex"])


def patterns(hs, N, L, Nfree, k):
    eta = ETA0 / Nfree
    u, v = np.meshgrid(np.arange(-hs, hs + 1.0), np.arange(-hs, hs + 1.0), indexing="ij")
    rho = np.hypot(u, v)
    cone = rho < Nfree * k
    with np.errstate(all="ignore"):
        cp, sp = np.where(cone, u / rho, 0), np.where(cone, v / rho, 0)
    ct = np.where(cone, np.sqrt(np.maximum(1 - (rho / (Nfree * max(k, 1e-9))) ** 2, 0)), 0)
    cp[hs, hs] = sp[hs, hs] = np.sqrt(0.5)
    ct[hs, hs] = 1
    Nt, Np = (N[0] * cp + N[1] * sp) * ct, -N[0] * sp + N[1] * cp
    Lt, Lp = (L[0] * cp + L[1] * sp) * ct, -L[0] * sp + L[1] * cp
    a, b = Nt + Lp / eta, Np - Lt / eta
    P = {}
    P["rad_Et_"], P["rad_Ep_"] = abs(a) ** 2 * cone, abs(b) ** 2 * cone
    P["rad_tot_"] = P["rad_Et_"] + P["rad_Ep_"]
    P["rad_Ex_"] = abs(-b * sp + a * ct * cp) ** 2 * cone
    P["rad_Ey_"] = abs(b * cp + a * ct * sp) ** 2 * cone
    w = np.where(cone & (ct > 0), 1 / np.where(ct > 0, ct, 1), 0)
    P["P_tot_"], P["P_the_"], P["P_phi_"] = ((P[x] * w).sum() for x in ("rad_tot_", "rad_Et_", "rad_Ep_"))
    P["FFT_E_int2_"] = abs(L[0]) ** 2 + abs(L[1]) ** 2
    P["FFT_H_int2_"] = abs(N[0]) ** 2 + abs(N[1]) ** 2
    m = int(np.float32(Nfree) * np.float32(k)) - 1
    P["window"] = slice(hs - m, hs + m + 1) if m >= 0 else slice(0, 0)
    return P


def judge(c, r, P, mm, monitor, rel=2e-4):
    """all files of one far-field transform"""
    ext = ".ri%02d" % mm
    for q in "EH":
        v = P[f"FFT_{q}_int2_"]
        top = v.max()
        if not top > 0:
            continue
        have = np.array(r.table(f"FFT_{q}_int2_" + ext))
        near(c, have, (v / top).T[::-1], monitor, 1.0, f"FFT_{q}_int2_", rel)
        have = np.array(r.table(f"FFT_{q}_log_" + ext))
        c.ok(not np.isnan(have).any(), monitor, "logarithm is not a number")
        with np.errstate(divide="ignore"):
            near(c, np.maximum(have, -3), np.maximum(np.log10(v / top), -3).T[::-1], monitor, 0.0, f"FFT_{q}_log_", 0.02, 0.02)
    w = P["window"]
    top = P["rad_tot_"].max()
    for x in ("rad_tot_", "rad_Et_", "rad_Ep_", "rad_Ex_", "rad_Ey_"):
        have = np.array(r.table(x + ext))
        want = P[x][w, w].T[::-1]
        if want.size == 0:
            c.ok(have.size == 0, monitor, f"{x}: pattern outside the light cone")
            continue
        near(c, have, want, monitor, top, x, rel)
    for x in ("P_tot_", "P_the_", "P_phi_"):
        near(c, float(r.text(x + ext).split()[0]), P[x], monitor, P["P_tot_"], x, 3 * rel)


def field_files(A, mm, fmt="%.9g"):
    out = {}
    for q in COMP:
        for part, v in (("real", A[q].real), ("imag", A[q].imag)):
            out["%s_%s.ri%02d" % (q, part, mm)] = "\n".join("\t".join(fmt % x for x in row) for row in v.T[::-1]) + "\n"
    return out


def draw_cone(c, sizes=(32, 64, 64, 128), kmin=0):
    """array size, lattice, frequency and index with a window that fits and no rounding ties"""
    rng = c.rng
    while True:
        NROW = int(rng.choice(sizes))
        Nfree = float(rng.choice([1.0, 1.0, 1.5, 2.0, round(rng.uniform(1.0, 3.0), 2)]))
        k = int(rng.integers(kmin, max(kmin + 1, int(NROW / (10 * Nfree)) + 1)))
        if 10 * Nfree * k > NROW - 2:
            continue
        lat = int(rng.choice([6, 8, 10, 12, 16]))
        W = float(np.float32((k + rng.uniform(0.1, 0.9)) * lat / NROW))
        r2 = (float(np.float32(Nfree)) * k) ** 2
        n2 = np.add.outer(np.arange(40.0) ** 2, np.arange(40.0) ** 2)
        if Nfree not in (1.0, 1.5, 2.0) and (abs(n2 - r2) < 1e-3).any():
            continue
        return NROW, Nfree, k, lat, W


def pre(lat, omega):
    return ["structure_size 2 2 2", f"lattice_size {lat} {lat} {lat}", "pml_size 1 1 1 1 1 1", "set_default 3",
            "specn %d" % len(omega), "omega " + " ".join("%.9g" % w for w in omega)]


# ---------------------------------------------------------------- families
def spectra(c, kind="asan"):
    """arbitrary complex near fields, transformed"""
    rng = c.rng
    NROW, Nfree, k, lat, W = draw_cone(c, sizes=(16, 32, 64) if kind == "msan" else (16, 32, 64, 64, 128))
    mm = int(rng.choice([0, 1, 7, 10]))
    A = {}
    style = ["noise", "sparse", "one-component", "real"][rng.integers(4)]
    for q in COMP:
        sc = 1.0 if q[0] == "E" else 1 / ETA0
        a = rng.normal(size=(NROW, NROW)) + 1j * rng.normal(size=(NROW, NROW))
        if style == "sparse":
            a = a * (rng.random((NROW, NROW)) < 0.02)
        if style == "real":
            a = a.real + 0j
        if style == "one-component" and q != COMP[c.index % 4]:
            a = a * 0
        A[q] = np.round(a * sc, 7)
    files = field_files(A, mm)
    hole = bool(rng.random() < 0.3)
    if hole:                                    # undefined samples count as zero
        q, part = COMP[rng.integers(4)], ("real", "imag")[rng.integers(2)]
        nm = "%s_%s.ri%02d" % (q, part, mm)
        rows = [ln.split("\t") for ln in files[nm].splitlines()]
        i, j = (int(x) for x in rng.integers(0, NROW, 2))
        rows[j][i] = "nan"
        files[nm] = "\n".join("\t".join(x) for x in rows) + "\n"
        v = A[q][i, NROW - 1 - j]
        A[q][i, NROW - 1 - j] = 1j * v.imag if part == "real" else v.real
    c.desc(NROW=NROW, Nfree=Nfree, k=k, W=W, mm=mm, style=style)
    c.cls(f"N{NROW}", f"k{k}", style, "vacuum" if Nfree == 1 else "medium", "hole" if hole else "full", "odd" if int(10 * Nfree * k) % 2 else "even")
    om = [0.0] * mm + [W]
    cmd = [f"far_fft {NROW} 1.0 {Nfree} {mm}"]
    with X.session() as s:
        r = s.run(pre(lat, om) + cmd + ["heap h1"] + cmd + ["heap h2"], kind, files=files)
        c.ok(r.sane, S, r.report())
        c.ok(r.val["h2"] - r.val["h1"] < 1000, "no-leak", f"{r.val['h2'] - r.val['h1']:.0f} bytes lost in one transform")
        hs, N, L = spectrum(A, NROW, Nfree, k)
        judge(c, r, patterns(hs, N, L, Nfree, k), mm, "patterns")


def waves(c):
    """plane waves: each appears in its own direction and polarisation only"""
    rng = c.rng
    NROW, Nfree, k, lat, W = draw_cone(c, sizes=(32, 64, 64), kmin=1)
    eta, R = ETA0 / Nfree, Nfree * k
    x, y = np.meshgrid(np.arange(NROW), np.arange(NROW), indexing="ij")
    A = {q: np.zeros((NROW, NROW), complex) for q in COMP}
    m = int(np.float32(Nfree) * np.float32(k)) - 1
    want = {q: np.zeros((2 * m + 1, 2 * m + 1)) for q in ("rad_Et_", "rad_Ep_", "rad_tot_")}
    power = 0.0
    used = set()
    n = int(rng.integers(1, 5))
    for _ in range(n):
        up = bool(rng.random() < 0.7)
        a, b = (int(q) for q in rng.integers(-m, m + 1, 2))
        rho = np.hypot(a, b)
        if rho > 0.97 * R or (a, b) in used:
            continue
        used.add((a, b))
        ph = np.arctan2(b, a) if rho else np.pi / 4
        ct = np.sqrt(1 - (rho / R) ** 2)
        st = rho / R
        rh = np.array([st * np.cos(ph), st * np.sin(ph), ct if up else -ct])
        phi = np.array([-np.sin(ph), np.cos(ph), 0])
        the = np.cross(phi, rh)
        amp = (rng.normal(size=2) + 1j * rng.normal(size=2)) * np.array([[1, 0], [0, 1], [1, 1]][rng.integers(3)])
        E = amp[0] * the + amp[1] * phi
        H = np.cross(rh, E) / eta
        w = np.exp(2j * np.pi * (a * x + b * y) / NROW)
        for q, v in zip(COMP, (E[0], E[1], H[0], H[1])):
            A[q] += v * w
        if up:
            f = (2 * ct / eta) ** 2
            want["rad_Et_"][a + m, b + m] = f * abs(amp[0]) ** 2
            want["rad_Ep_"][a + m, b + m] = f * abs(amp[1]) ** 2
            power += f * (abs(amp) ** 2).sum() / ct
        c.cls("up" if up else "down", "axis" if not rho else "oblique")
    want["rad_tot_"] = want["rad_Et_"] + want["rad_Ep_"]
    c.desc(NROW=NROW, Nfree=Nfree, k=k, waves=sorted(used))
    c.cls("vacuum" if Nfree == 1 else "medium")
    if not used:
        raise Skip()
    with X.session() as s:
        r = s.run(pre(lat, [W]) + [f"far_fft {NROW} 1.0 {Nfree} 0"], files=field_files(A, 0))
        c.ok(r.sane, S, r.report())
        top = (np.abs(A["Ex"]).max() + np.abs(A["Ey"]).max()) ** 2 / eta ** 2
        for q, v in want.items():
            near(c, r.table(q + ".ri00"), v.T[::-1], "plane-waves", top, q)
        near(c, float(r.text("P_tot_.ri00").split()[0]), power, "plane-waves", 10 * top, "radiated power")


def polar(r_, um, tnum):
    """bilinear interpolation at the direction of each pixel"""
    R = um.shape[0] // 2
    tr = tnum // 2
    i, j = np.meshgrid(np.arange(tnum) - tr, np.arange(tnum) - tr, indexing="ij")
    d = np.hypot(i, j)
    th = d * np.pi / 2 / max(tr, 1)
    with np.errstate(all="ignore"):
        p, q = R * np.sin(th) * np.where(d > 0, i / d, 0), R * np.sin(th) * np.where(d > 0, j / d, 0)
    inside = i * i + j * j - (tr - 1) ** 2 <= 0
    p, q = np.where(inside, p, 0) + R, np.where(inside, q, 0) + R
    f, g = np.clip(np.floor(p).astype(int), 0, max(2 * R - 1, 0)), np.clip(np.floor(q).astype(int), 0, max(2 * R - 1, 0))
    F, G = np.minimum(f + 1, 2 * R), np.minimum(g + 1, 2 * R)
    a = um[f, g] + (p - f) * (um[F, g] - um[f, g])
    b = um[f, G] + (p - f) * (um[F, G] - um[f, G])
    out = np.where(inside, a + (q - g) * (b - a), 0.0)
    return out, ~inside | (d == 0) | (th >= 0.0201)


def maps(c, kind="asan"):
    """polar maps of patterns and their sums over frequencies"""
    rng = c.rng
    n = int(rng.integers(1, 5))
    tnum = int(rng.integers(3, 70))
    name = ["rad_tot_", "rad_Et_", "rad_Ex_", "FFT_E_int2_"][rng.integers(4)]
    files, pats = {}, []
    for mm in range(n):
        s = 2 * int(rng.integers(0, 12)) + 1
        um = np.round(rng.random((s, s)) * 10 ** rng.uniform(-3, 3), 6)
        pats.append(um)
        files["%s.ri%02d" % (name, mm)] = "\n".join("\t".join("%.7g" % x for x in row) + "\t" for row in um.T[::-1]) + "\n"
    c.desc(n=n, tnum=tnum, name=name, sizes=[len(p) for p in pats])
    c.cls(f"n{n}", "even" if tnum % 2 == 0 else "odd", "point" if any(len(p) == 1 for p in pats) else "pattern")
    cmd = [f"transform 64 {tnum} {name} {mm}" for mm in range(n)] + [f"add_far {tnum} {name}"]
    with X.session() as s:
        r = s.run(pre(8, [0.3] * n) + cmd + ["heap h1"] + cmd + ["heap h2"], kind, files=files)
        c.ok(r.sane, S, r.report())
        c.ok(r.val["h2"] - r.val["h1"] < 1000, "no-leak", f"{r.val['h2'] - r.val['h1']:.0f} bytes lost in the maps")
        tot, ok = 0.0, True
        for mm, um in enumerate(pats):
            w, k = polar(None, um, tnum)
            have = np.array(r.table("%s.sas%02d" % (name, mm)))
            if have.shape != (tnum, tnum):
                c.fail("polar-maps", f"map of shape {have.shape}")
                return
            near(c, np.where(k, have.T[:, ::-1], 0), np.where(k, w, 0), "polar-maps", um.max(), f"{name} {mm}", 1e-4)
            tot, ok = tot + have, ok & k
        near(c, np.array(r.table(name + "sum.sas")), tot, "frequency-sums", tot.max(), "sum of the maps", 2e-5)


def recorded(c, kind="asan"):
    """running sums over a simulation, their files, and the patterns made of them"""
    rng = c.rng
    st = p30.setting(c)
    big = rng.random() < 0.6
    pml = [int(x) for x in rng.integers(0, 4, size=6)]
    cells = ((24, 34), (24, 34), (8, 12)) if big else ((9, 20), (9, 20), (9, 14))
    g, sc, W, a_nm, t0 = p30.scene(c, cells=cells, pml=pml, metal=0.3, **st)
    n = int(rng.integers(1, 4))
    om = [float(np.float32(rng.uniform(0.05, 0.6))) for _ in range(n)]
    sc = ["specn %d" % n if x == "specn 1" else x for x in sc]
    kz = int(rng.integers(1, g.n[2]))
    z = p30.zpos(g, kz)
    zm = O.Zmap(g)
    if zm.index(z + 1e-4)[0] != kz or zm.index(z - 1e-4)[0] != kz:
        raise Skip()
    steps = int(rng.integers(1, 6))
    later = int(rng.integers(0, 2)) * 400          # phases are those of the absolute time
    NROW = 32 if max(g.n[0], g.n[1]) <= 34 and rng.random() < 0.5 else 64
    NROW = 64 if max(g.n[0], g.n[1]) - 2 > NROW else NROW
    mm = int(rng.integers(n))
    sc += ["omega " + " ".join("%.9g" % w for w in om)]
    if later:
        sc += [f"set_t {t0 + later}"]
    loop = []
    times = []
    for q in range(steps):
        loop += [f"far_once {z:.8g}", f"dump d{q}", "run 1"]
        times.append(t0 + later + q)
    if rng.random() < 0.5:                          # detection inside the loop
        loop = [f"far_on {z:.8g}"]
        for q in range(steps):
            loop += ["run 1", f"dump d{q}"]
        loop += ["far_off", "run 1"]
    Nfree = float(rng.choice([1.0, 1.5]))
    via = ["direct", "padded"][rng.integers(2)]
    k = int(np.floor(np.float32(np.float32(NROW) * np.float32(om[mm])) / g.lat[0]))
    far = 10 * Nfree * k <= NROW - 2
    tail = ["dump_far far", f"print_ap {mm}", f"print_ri {mm}"]
    tail += [f"print_2n {NROW} {mm}" if via == "direct" else f"make_2n {NROW} {mm}"]
    if far:
        tail += [f"far_fft {NROW} 1.0 {Nfree} {mm}"]
    c.desc(omega=om, layer=kz, steps=steps, NROW=NROW, via=via, mm=mm, Nfree=Nfree, later=later)
    c.cls(via, f"n{n}", "far" if far and k else "near", "late" if later else "early", "loop" if "far_off" in loop else "once")
    c.cls("trimmed" if g.n[0] - 2 > 20 + sum(g.pml[0]) and g.n[1] - 2 > 20 + sum(g.pml[1]) else "small")
    with X.session() as s:
        r = s.run(sc + loop + tail, kind)
        c.ok(r.sane, S, r.report())
        ref = {q: np.zeros((g.n[0], g.n[1], n), complex) for q in COMP}
        mag = {q: 0.0 for q in COMP}
        for q, t in enumerate(times):
            N = O.Nodes(g, r.arrays(f"d{q}"), W)
            ph = 2 * np.pi * np.array(om) * t / (g.S * g.dx * g.lat[0])
            for x in COMP:
                v = N.value(x)[:g.n[0], :g.n[1], kz]
                ref[x] += v[:, :, None] * np.exp(1j * ph)
                mag[x] += p30.scale_of(N, x)      # a component may vanish on a plane by symmetry
        F = r.arrays("far")
        core = (slice(1, g.n[0] - 1), slice(1, g.n[1] - 1))
        for x in COMP:
            near(c, F[x + "_cos"][core], ref[x].real[core], "running-sums", mag[x], f"{x} cosine", 5e-5)
            near(c, F[x + "_sin"][core], ref[x].imag[core], "running-sums", mag[x], f"{x} sine", 5e-5)
        # the files hold the library's own sums
        have = {x: F[x + "_cos"][:, :, mm] + 1j * F[x + "_sin"][:, :, mm] for x in COMP}
        i, j = np.arange(g.n[0]), np.arange(g.n[1])
        win = (((i >= g.pml[0][0]) & (i <= g.n[0] - g.pml[0][1]))[:, None] & ((j >= g.pml[1][0]) & (j <= g.n[1] - g.pml[1][1]))[None, :])
        A = {}
        for x in COMP:
            v = np.where(win, have[x], 0)[core]
            img = v.T[::-1]
            eps_ = 1e-6
            near(c, r.table("t%s_real.ri%02d" % (x, mm)), img.real, "near-field-files", 0, f"{x} real", 1e-6, eps_)
            near(c, r.table("t%s_imag.ri%02d" % (x, mm)), img.imag, "near-field-files", 0, f"{x} imag", 1e-6, eps_)
            near(c, r.table("j%s_amp.ap%02d" % (x, mm)), abs(img), "near-field-files", 0, f"{x} amplitude", 1e-6, eps_)
            ang = np.array(r.table("j%s_phase.ap%02d" % (x, mm)))
            sure = abs(img) > 1e-4 * max(abs(img).max(), 1e-30)
            dif = np.angle(np.exp(1j * (ang + np.angle(img))))
            near(c, np.where(sure, dif, 0), np.zeros(dif.shape), "near-field-files", 0, f"{x} phase", 1e-6, 3e-6)
            # padding
            want = np.zeros((NROW, NROW), complex)
            if via == "direct":
                lo = [(NROW - (g.n[d] - 2)) // 2 + (sum(g.pml[d]) + 20) // 2 for d in (0, 1)]
                off = [g.pml[d][0] + 10 for d in (0, 1)]
                ia, ja = (np.arange(lo[d], NROW - lo[d]) for d in (0, 1))
                if len(ia) and len(ja):
                    want[np.ix_(ia, ja)] = have[x][np.ix_(ia - lo[0] + off[0], ja - lo[1] + off[1])]
            else:
                lo = [(NROW - (g.n[d] - 2)) // 2 for d in (0, 1)]
                want[lo[0]:lo[0] + g.n[0] - 2, lo[1]:lo[1] + g.n[1] - 2] = v
            A[x] = want
            re, im = (np.array(r.table("%s_%s.ri%02d" % (x, p, mm))) for p in ("real", "imag"))
            near(c, re, want.real.T[::-1], "padded-arrays", 0, f"{x} real", 1e-6, 2e-6)
            near(c, im, want.imag.T[::-1], "padded-arrays", 0, f"{x} imag", 1e-6, 2e-6)
            if re.shape == im.shape == want.T.shape:
                A[x] = (re + 1j * im)[::-1].T
        if far and max(np.abs(v).max() for v in A.values()) > 0:
            hs, Nn, L = spectrum(A, NROW, Nfree, k)
            judge(c, r, patterns(hs, Nn, L, Nfree, k), mm, "patterns")


def memory(c):
    (spectra, maps, recorded)[c.index % 3](c, "msan")


FAMILIES = [
    Family("spectra", spectra, 24, 1500, monitors=[S, "patterns", "no-leak"], chunk=3),
    Family("plane-waves", waves, 24, 1500, monitors=[S, "plane-waves"], chunk=3),
    Family("polar-maps", maps, 32, 2000, monitors=[S, "polar-maps", "frequency-sums", "no-leak"], chunk=4),
    Family("recorded", recorded, 32, 1600, monitors=[S, "running-sums", "near-field-files", "padded-arrays"], chunk=2),
    Family("memory", memory, 12, 500, monitors=[S], chunk=2),
]
