"""P25 Hubbard and Hubbard-Holstein models: the lattice Hamiltonian, its mean field and its integral blocks."""
import numpy as np
from harness.vp import Family, Skip
from harness import systems as S

ASSUMPTIONS = ["periodic Hubbard rings of one or two sites are a matter of convention and not judged; the exact solver of the Hubbard-Holstein model "
               "needs a module that is not part of the repository",
               "orbitals computed by the model are judged for the symmetry-broken start only"]
BUDGET = {"quick": 300, "thorough": 1500}
ONE = ["oo", "ov", "vo", "vv"]


def jw(n):
    """annihilation operators of n spin orbitals in Fock space"""
    sz, lo, out = np.diag([1.0, -1.0]), np.array([[0.0, 1.0], [0.0, 0.0]]), []
    for p in range(n):
        m = np.eye(1)
        for q in range(n):
            m = np.kron(m, sz if q < p else lo if q == p else np.eye(2))
        out.append(m)
    return out


def bonds(L, periodic):
    b = [(i, i + 1) for i in range(L - 1)]
    return b + [(L - 1, 0)] if periodic else b


def orbitals(rng, L, same=False):
    ca = np.linalg.qr(rng.normal(size=(L, L)))[0]
    return ca, (ca if same else np.linalg.qr(rng.normal(size=(L, L)))[0])


def spin_blocks(L, na, nb):
    o = list(range(na)) + list(range(L, L + nb))
    v = list(range(na, L)) + list(range(L + nb, 2 * L))
    return {"o": o, "v": v}


def big(ca, cb):
    L = len(ca)
    C = np.zeros((2 * L, 2 * L))
    C[:L, :L], C[L:, L:] = ca, cb
    return C


def trafo(V, *cs):
    for k, cc in enumerate(cs):
        V = np.moveaxis(np.tensordot(V, cc, axes=(k, 0)), -1, k)
    return V


def hub(L, U):
    """<pq|rs> of the Hubbard repulsion between unlike spins"""
    V = np.zeros((2 * L,) * 4)
    for i in range(L):
        V[i, L + i, i, L + i] = V[L + i, i, L + i, i] = U
    return V


def model(rng, c, holstein):
    L = int(rng.integers(2, 5)) if rng.random() < 0.8 else 5
    bc = "p" if rng.random() < 0.5 and (L > 2 or holstein) else None
    U = float(rng.choice([0.0, 1.0, -1.5, 4.0])) + float(rng.normal() * 0.3)
    same = rng.random() < 0.2
    ca, cb = orbitals(rng, L, same)
    if not holstein:
        from openms.models.hubbard import Hubbard1D

        N = int(rng.integers(1, 2 * L))
        h = Hubbard1D(L, N, U, bc=bc, ca=ca.copy(), cb=cb.copy())
        c.desc(L=L, N=N, U=round(U, 4), bc=bc)
        c.cls(f"L={L}", f"N={N}", f"bc={bc}")
        return h, L, (N - N // 2, N // 2), U, bc, ca, cb
    from openms.models.hh_model import HHModel

    N = 2 * int(rng.integers(1, L + 1))
    w, g = float(rng.uniform(0.2, 3)), float(rng.normal())
    gij = float(rng.normal()) if rng.random() < 0.5 else None
    shift = bool(rng.random() < 0.6)
    h = HHModel(L, L, N, U, w, g=g, bc=bc, ca=ca.copy(), cb=cb.copy(), gij=gij, shift=shift)
    c.desc(L=L, N=N, U=round(U, 4), bc=bc, w=w, g=g, gij=gij, shift=shift)
    c.cls(f"L={L}", f"N={N}", f"bc={bc}", f"shift={shift}", f"gij={gij is not None}", "holstein")
    return h, L, (N // 2, N // 2), U, bc, ca, cb


def hop(L, bc, ring2):
    t = np.zeros((L, L))
    for i, j in bonds(L, bc == "p"):
        t[i, j] -= 1
        t[j, i] -= 1
    return t


def gmat_of(L, g, gij, bc):
    G = np.zeros((L, 2 * L, 2 * L))
    if gij is not None:
        for i, j in bonds(L, bc == "p"):
            for s in (0, L):
                G[:, i + s, j + s] = G[:, j + s, i + s] = gij
    for i in range(L):
        G[i, i, i] = G[i, L + i, L + i] = g
    return G


def check_one(c, blocks, full, o, monitor):
    for tag in ONE:
        got = np.asarray(getattr(blocks, tag))
        want = full[..., o[tag[0]], :][..., o[tag[1]]]
        c.close(got, want, monitor, atol=1e-9 * (1 + np.abs(full).max(initial=0)), msg=tag)


def check_two(c, blocks, full, idx, monitor, need=()):
    n = 0
    for tag in ("".join(t) for t in np.array(np.meshgrid(*[list("vo")] * 4)).T.reshape(-1, 4)):
        got = getattr(blocks, tag, None)
        if got is None:
            continue
        n += 1
        want = full[np.ix_(*[idx[k][ch] for k, ch in enumerate(tag)])]
        c.close(np.asarray(got), want, monitor, atol=1e-9 * (1 + np.abs(full).max(initial=0)), msg=tag)
    for tag in need:
        c.ok(getattr(blocks, tag, None) is not None, monitor, f"block {tag} missing")
    return n


NEED = ["vvvv", "vvvo", "vovv", "vvoo", "vovo", "oovv", "vooo", "ooov", "oooo"]


def run(c):
    rng = c.rng
    holstein = rng.random() < 0.5
    h, L, (na, nb), U, bc, ca, cb = model(rng, c, holstein)
    C = big(ca, cb)
    sp = spin_blocks(L, na, nb)
    t = hop(L, bc, holstein)
    z = np.zeros((L, L))
    T = np.block([[t, z], [z, t]])
    c.close(h.tmatS(), t, "hopping", atol=1e-12)
    c.close(h.tmat(), T, "hopping", atol=1e-12)
    um = h.umat()
    V = hub(L, U)
    Va = V - V.transpose(0, 1, 3, 2)
    c.close(um - um.transpose(0, 1, 3, 2), Va, "repulsion", atol=1e-12)
    c.close(h.umatS(), V[:L, L:, :L, L:], "repulsion", atol=1e-12)
    pa, pb = ca[:, :na] @ ca[:, :na].T, cb[:, :nb] @ cb[:, :nb].T
    P = np.block([[pa, z], [z, pb]])
    n_i = np.diag(pa), np.diag(pb)
    eel = np.sum(t * (pa + pb)) + U * np.dot(*n_i)
    F = T + np.block([[np.diag(U * n_i[1]), z], [z, np.diag(U * n_i[0])]])
    c.close(h.fock(), F, "fock", atol=1e-9 * (1 + abs(U)))
    # mean-field derivative of the reported energy (the electronic part of it is quadratic in the density)
    if holstein:
        w = h.w
        G = gmat_of(L, h.g, h.gij, bc)
        mean = np.einsum("Ipq,pq->I", G, P)
        xi = mean / w if h.shift else 0 * mean
        c.close(np.asarray(h.gmat), G, "coupling", atol=1e-12)
        c.close(np.asarray(h.omega()), np.full(L, w), "frequencies", atol=1e-12)
        c.close(h.hf_energy(), eel - w * np.sum(xi ** 2), "mean-field-energy", atol=1e-9 * (1 + abs(eel) + w * np.sum(xi ** 2)))
        F = F - 2 * np.einsum("I,Ipq->pq", xi, G)
        m = h.mfG()
        for x in m:
            c.close(np.asarray(x), mean * (0 if h.shift else 1), "mean-coupling", atol=1e-9 * (1 + np.abs(mean).max()))
        gm = np.einsum("Ipq,pi,qj->Iij", G, C, C, optimize=True)
        c.close(np.asarray(h.gint_tot()), gm, "coupling-integrals", atol=1e-9 * (1 + np.abs(gm).max()))
        for b in h.gint():
            check_one(c, b, gm, sp, "coupling-integrals")
        e = h.energies()
        fd = np.diag(C.T @ F @ C)
        c.close(np.asarray(e[0]), fd[sp["o"]], "orbital-energies", atol=1e-9 * (1 + np.abs(fd).max()))
        c.close(np.asarray(e[1]), fd[sp["v"]], "orbital-energies", atol=1e-9 * (1 + np.abs(fd).max()))
    else:
        c.close(h.hf_energy(), eel, "mean-field-energy", atol=1e-9 * (1 + abs(eel)))
    Fm = C.T @ F @ C
    check_one(c, h.g_fock(), Fm, sp, "fock-blocks")
    ha, hb = h.u_hcore_tot()
    c.close(ha, ca.T @ t @ ca, "one-body-integrals", atol=1e-9)
    c.close(hb, cb.T @ t @ cb, "one-body-integrals", atol=1e-9)
    c.close(h.g_hcore_tot(), C.T @ T @ C, "one-body-integrals", atol=1e-9)
    if L < 5:
        full = trafo(Va, C, C, C, C)
        check_two(c, h.g_aint(), full, [sp] * 4, "two-body-blocks", NEED)
        if not holstein:
            c.close(h.g_aint_tot(), full, "two-body-integrals", atol=1e-9 * (1 + abs(U)))
            gi = h.g_int_tot()
            c.close(gi - gi.transpose(0, 1, 3, 2), full, "two-body-integrals", atol=1e-9 * (1 + abs(U)))
    if not holstein:
        sa, sb = {"o": list(range(na)), "v": list(range(na, L))}, {"o": list(range(nb)), "v": list(range(nb, L))}
        fa, fb = h.u_fock()
        check_one(c, fa, Fm[:L, :L], sa, "spin-fock-blocks")
        check_one(c, fb, Fm[L:, L:], sb, "spin-fock-blocks")
        X = V[:L, L:, :L, L:]
        fab = trafo(X, ca, cb, ca, cb)
        ia, ib, iab = h.u_aint()
        check_two(c, iab, fab, [sa, sb, sa, sb], "spin-two-body-blocks", NEED)
        check_two(c, ia, np.zeros((L,) * 4), [sa] * 4, "spin-two-body-blocks", NEED)
        check_two(c, ib, np.zeros((L,) * 4), [sb] * 4, "spin-two-body-blocks", NEED)
        ta, tb, tab = h.u_int_tot()
        c.close(tab, fab, "spin-two-body-integrals", atol=1e-9 * (1 + abs(U)))
        c.close(ta, trafo(X, ca, ca, ca, ca), "spin-two-body-integrals", atol=1e-9 * (1 + abs(U)))
        c.close(tb, trafo(X, cb, cb, cb, cb), "spin-two-body-integrals", atol=1e-9 * (1 + abs(U)))
        ta, tb, tab = h.u_aint_tot()
        c.close(tab, fab, "spin-two-body-integrals", atol=1e-9 * (1 + abs(U)))
        c.ok(np.abs(ta).max() < 1e-9 and np.abs(tb).max() < 1e-9, "spin-two-body-integrals", "same-spin repulsion after antisymmetrisation")
    c.events += 10


def many_body(c):
    """the integrals define the lattice Hamiltonian in Fock space, its determinants have the reported energy"""
    from openms.models.hubbard import Hubbard1D
    from openms.models.hh_model import HHModel

    rng = c.rng
    L = int(rng.integers(2, 4))
    bc = "p" if L > 2 and rng.random() < 0.5 else None
    U = float(rng.normal() * 3)
    holstein = rng.random() < 0.4
    N = int(rng.integers(1, 2 * L)) if not holstein else 2 * int(rng.integers(1, L + 1))
    ca, cb = orbitals(rng, L)
    h = HHModel(L, L, N, U, 1.0, g=0.0, bc=bc, ca=ca, cb=cb) if holstein else Hubbard1D(L, N, U, bc=bc, ca=ca, cb=cb)
    c.desc(L=L, N=N, U=round(U, 4), bc=bc, holstein=bool(holstein))
    c.cls(f"L={L}", f"bc={bc}", f"N={N}", f"holstein={bool(holstein)}")
    n = 2 * L
    a = jw(n)
    H0 = np.zeros((2 ** n,) * 2)
    for i, j in bonds(L, bc == "p"):
        for s in (0, L):
            x = a[i + s].T @ a[j + s]
            H0 -= x + x.T
    for i in range(L):
        H0 += U * a[i].T @ a[i] @ a[L + i].T @ a[L + i]
    T, V = h.tmat(), h.umat()
    H = np.zeros_like(H0)
    for p in range(n):
        for q in range(n):
            if T[p, q]:
                H += T[p, q] * a[p].T @ a[q]
    for p, q, r, s in zip(*np.nonzero(V)):
        H += 0.5 * V[p, q, r, s] * a[p].T @ a[q].T @ a[s] @ a[r]
    c.close(H, H0, "lattice-hamiltonian", atol=1e-10 * (1 + abs(U)))
    na, nb = (N - N // 2, N // 2)
    psi = np.zeros(2 ** n)
    psi[0] = 1.0
    for ops, cc, k in ((a[L:], cb, nb), (a[:L], ca, na)):
        for m in range(k):
            psi = sum(cc[i, m] * (ops[i].T @ psi) for i in range(L))
    c.close(h.hf_energy(), psi @ H0 @ psi, "determinant-energy", atol=1e-9 * (1 + abs(U)))
    c.events += 1


def solved(c):
    """orbitals the model computes itself"""
    from openms.models.hh_model import HHModel
    from pyscf.scf import uhf, hf

    rng = c.rng
    L = int(rng.integers(2, 7))
    N = 2 * int(rng.integers(1, L + 1))
    U = float(rng.uniform(0, 4))
    bc = str(rng.choice(["p", "o"])) == "p" and "p" or None
    w, g = float(rng.uniform(0.3, 2)), float(rng.normal() * 0.3)
    c.desc(L=L, N=N, U=round(U, 4), bc=bc)
    c.cls(f"L={L}", f"N={N}", f"bc={bc}")
    seen = []
    orig = hf.SCF.kernel

    def rec(self, *a, **k):
        out = orig(self, *a, **k)
        seen.append((self.converged, self.e_tot))
        return out

    hf.SCF.kernel = rec
    try:
        h = S.quiet(HHModel, L, L, N, U, w, g=g, bc=bc)
    finally:
        hf.SCF.kernel = orig
    for cc in (h.ca, h.cb):
        c.close(cc.T @ cc, np.eye(L), "orbitals-orthonormal", atol=1e-8)
    z = np.zeros((L, L))
    G = gmat_of(L, g, None, bc)
    P = np.block([[h.pa, z], [z, h.pb]])
    xi = np.einsum("Ipq,pq->I", G, P) / w
    c.close(h.xi, xi, "phonon-displacement", atol=1e-9)
    if seen and seen[-1][0]:
        F = h.fock()
        c.ok(np.abs(F @ P - P @ F).max() < 1e-3, "orbitals-self-consistent", f"commutator {np.abs(F @ P - P @ F).max():.2e}")
        c.close(h.hf_energy() + w * np.sum(xi ** 2), seen[-1][1], "self-consistent-energy", atol=1e-7)
    c.events += 1


def blocks(c):
    """partitioning of two-electron integrals into occupied/virtual blocks"""
    from openms.lib import ov_blocks as ob

    rng = c.rng
    no = [int(x) for x in rng.integers(0, 4, 4)]
    nv = [int(x) for x in rng.integers(0, 4, 4)]
    I = rng.normal(size=[a + b for a, b in zip(no, nv)])
    c.desc(no=no, nv=nv)
    c.cls(f"empty={sum(x == 0 for x in no + nv)}")
    arg = [x for pr in zip(no, nv) for x in pr]
    idx = [{"o": list(range(a)), "v": list(range(a, a + b))} for a, b in zip(no, nv)]
    n1 = check_two(c, ob.make_two_e_blocks(I, *arg), I, idx, "blocks-partition", NEED)
    n2 = check_two(c, ob.make_two_e_blocks_full(I, *arg), I, idx, "blocks-partition")
    c.ok(n1 >= 9 and n2 == 16, "every-block", f"{n1}, {n2}")
    A, B = rng.normal(size=(2, 3)), rng.normal(size=(int(rng.integers(1, 4)), 2))
    want = np.zeros((2 + len(B), 5))
    want[:2, :3], want[2:, 3:] = A, B
    c.close(ob.block_diag(A, B), want, "block-diagonal", atol=0)
    c.events += n1 + n2


FAMILIES = [
    Family("blocks", blocks, 60, 1000, chunk=30, monitors=["blocks-partition", "every-block", "block-diagonal"]),
    Family("mean-field", run, 120, 2500, chunk=8, monitors=["hopping", "repulsion", "fock", "mean-field-energy", "coupling", "frequencies", "mean-coupling",
                                                            "coupling-integrals", "orbital-energies", "fock-blocks", "one-body-integrals",
                                                            "two-body-blocks", "two-body-integrals", "spin-fock-blocks", "spin-two-body-blocks",
                                                            "spin-two-body-integrals"]),
    Family("many-body", many_body, 60, 800, chunk=8, monitors=["lattice-hamiltonian", "determinant-energy"]),
    Family("solved", solved, 40, 600, chunk=5, monitors=["orbitals-orthonormal", "phonon-displacement", "orbitals-self-consistent", "self-consistent-energy"]),
]
