"""P27 tiled block-sparse tensors are the dense tensors they stand for."""
import importlib.util
import os
import sys
import numpy as np
from harness import vp
from harness.vp import Family, Skip
from harness import systems as S

ASSUMPTIONS = ["storing a vanishing block over an existing one is not judged (documented as a no-op)"]
BUDGET = {"quick": 300, "thorough": 1500}
_m = None


def T():
    global _m
    if _m is None:
        spec = importlib.util.spec_from_file_location("openms_pytiles", os.path.join(vp.REPO, "utilities", "pytiles.py"))
        _m = importlib.util.module_from_spec(spec)
        sys.modules["openms_pytiles"] = _m
        spec.loader.exec_module(_m)
    return _m


def part(rng, n, like=None):
    """random tiling of n (with its sizes)"""
    t = T()
    if rng.random() < 0.4:
        k = int(rng.integers(1, n + 2))
        return t.TilePartition.uniform(n, k)
    sizes, left = [], n
    while left:
        s = int(rng.integers(1, left + 1))
        sizes.append(s)
        left -= s
    return t.TilePartition.from_sizes(sizes)


def sparse(rng, nr, rt, ct, dt):
    n = rt.N
    L = rng.normal(size=(nr, n, n))
    if dt.kind == "c":
        L = L + 1j * rng.normal(size=L.shape)
    for i in range(nr):
        for a in range(rt.ntile):
            for b in range(ct.ntile):
                u = rng.random()
                if u < 0.5:
                    L[i, rt.edges[a]:rt.edges[a + 1], ct.edges[b]:ct.edges[b + 1]] = 0
                elif u < 0.65:
                    L[i, rt.edges[a]:rt.edges[a + 1], ct.edges[b]:ct.edges[b + 1]] *= 1e-8
    return L.astype(dt)


def partition(c):
    t = T()
    rng = c.rng
    n = int(rng.integers(1, 40))
    k = int(rng.integers(1, n + 5))
    p = t.TilePartition.uniform(n, k)
    c.desc(n=n, tile=k)
    c.cls(f"n={n}", f"tile={k}")
    sz = [p.tile_size(i) for i in range(p.ntile)]
    c.ok(p.N == n and sum(sz) == n and p.ntile == -(-n // k) and all(s == k for s in sz[:-1]) and 0 < sz[-1] <= k, "uniform-tiles", f"{sz}")
    q = part(rng, n)
    got = np.concatenate([np.arange(n)[s] for _, s in q.all_slices()])
    c.ok(q.N == n and np.array_equal(got, np.arange(n)), "tiles-cover-once", f"{q.edges}")
    for i, s in q.all_slices():
        c.ok(q.tile_slice(i) == s and q.tile_size(i) == s.stop - s.start > 0, "tile-geometry", f"{i} {s}")
    for bad in ((1, 3), (0, 2, 2), (0, 3, 1), (0,)):
        c.raises(ValueError, lambda: t.TilePartition(bad), "bad-partition-rejected")
    c.raises(ValueError, lambda: t.TilePartition.from_sizes([2, 0, 1]), "bad-partition-rejected")
    c.raises(ValueError, lambda: t.TilePartition.uniform(4, 0), "bad-partition-rejected")
    c.events += q.ntile


def store(c):
    t = T()
    rng = c.rng
    n, nr = int(rng.integers(1, 13)), int(rng.integers(0, 4))
    rt, ct = part(rng, n), part(rng, n)
    dt = np.dtype(str(rng.choice(["f8", "c16", "f4"])))
    tol = float(rng.choice([0.0, 1e-6, 1e-6, 1.0]))
    L = sparse(rng, nr, rt, ct, dt)
    c.desc(n=n, nr=nr, rows=list(rt.edges), cols=list(ct.edges), dtype=str(dt), tol=tol)
    c.cls(f"nr={nr}", str(dt), f"tol={tol}")
    keep = L.copy()
    uni = rng.random() < 0.2
    if uni:
        k = int(rng.integers(1, n + 2))
        rt = ct = t.TilePartition.uniform(n, k)
        B = t.BlockSparseLtensor.from_dense_uniform(L, k, tol=tol)
    else:
        B = t.BlockSparseLtensor.from_dense(L, rt, ct, tol=tol)
    want = L.copy()
    stored = 0
    for i in range(nr):
        for a, ra in rt.all_slices():
            for b, cb in ct.all_slices():
                small = np.abs(L[i, ra, cb]).max() <= tol
                if small:
                    want[i, ra, cb] = 0
                stored += not small
                c.ok(B.has_block(i, a, b) == (not small), "stored-blocks", f"block {(i, a, b)}")
                c.ok(np.array_equal(B.get_block(i, a, b), want[i, ra, cb]), "block-values", f"block {(i, a, b)}")
    D = B.to_dense()
    c.ok(D.shape == L.shape and D.dtype == dt and np.array_equal(D, want), "dense-round-trip", f"{np.abs(D - want).max(initial=0)}")
    c.ok(np.abs(D - L).max(initial=0) <= tol, "threshold-bound", f"{np.abs(D - L).max(initial=0)}")
    for i in range(nr):
        c.ok(np.array_equal(B.dense_slice(i), want[i]), "slice-round-trip", f"slice {i}")
    st = B.memory_stats()
    vol = sum(b.size for b in B.blocks.values())
    c.ok(st["stored_blocks"] == stored and st["stored_elements"] == vol and st["total_elements"] == nr * n * n
         and st["total_possible_blocks"] == nr * rt.ntile * ct.ntile, "statistics", str(st))
    c.ok(st["approx_bytes_stored"] == vol * dt.itemsize and st["approx_bytes_dense"] == nr * n * n * dt.itemsize, "statistics", str(st))
    # stored data are copies
    if nr:
        L[:] = 7.0
        c.ok(np.array_equal(B.to_dense(), want), "stored-copies", "changing the dense tensor changed the tiled one")
    # incremental construction in random order
    B2 = t.BlockSparseLtensor(nr, rt, ct, dtype=dt, tol=tol)
    items = [(i, a, b) for i in range(nr) for a in range(rt.ntile) for b in range(ct.ntile)]
    for q in rng.permutation(len(items)):
        i, a, b = items[q]
        blk = keep[i, rt.tile_slice(a), ct.tile_slice(b)].copy()
        force = rng.random() < 0.3
        B2.add_block(i, a, b, blk, assume_nonzero=bool(force))
        blk[:] = 99
    B2.prune()
    c.ok(np.array_equal(B2.to_dense(), want) and set(B2.blocks) == set(B.blocks), "assembled-blocks", "block-wise assembly differs")
    bad = np.zeros((n + 1, n))
    if nr:
        c.raises(ValueError, lambda: B.add_block(0, 0, 0, bad), "bad-block-rejected")
        c.raises(IndexError, lambda: B.add_block(nr, 0, 0, bad), "bad-block-rejected")
        c.raises(IndexError, lambda: B.add_block(0, rt.ntile, 0, bad), "bad-block-rejected")
        c.raises(IndexError, lambda: B.dense_slice(-1), "bad-block-rejected")
    c.raises(ValueError, lambda: t.BlockSparseLtensor.from_dense(np.zeros((1, n + 1, n)), rt, ct), "bad-block-rejected")
    # tiled matrices
    m = int(rng.integers(1, 9))
    M = rng.normal(size=(n, m)).astype(dt)
    mt = part(rng, m)
    Td = t.TiledDenseMatrix.from_dense(M, rt, mt)
    Mk = M.copy()
    M[:] = 3
    c.ok(Td.shape == (n, m) and np.array_equal(Td.to_dense(), Mk), "matrix-round-trip", "")
    E = t.TiledDenseMatrix(rt, mt, dtype=dt)
    a, b = int(rng.integers(rt.ntile)), int(rng.integers(mt.ntile))
    E.set_block(a, b, Mk[rt.tile_slice(a), mt.tile_slice(b)])
    w = np.zeros((n, m), dt)
    w[rt.tile_slice(a), mt.tile_slice(b)] = Mk[rt.tile_slice(a), mt.tile_slice(b)]
    c.ok(np.array_equal(E.to_dense(), w) and np.array_equal(E.get_block(a, b), w[rt.tile_slice(a), mt.tile_slice(b)]), "matrix-round-trip", "single block")
    c.raises(ValueError, lambda: E.set_block(0, 0, np.zeros((n + 1, 1))), "bad-block-rejected")
    c.raises(ValueError, lambda: t.TiledDenseMatrix.from_dense(np.zeros((n + 1, m)), rt, mt), "bad-block-rejected")
    c.events += len(items) + 1


def product(c):
    t = T()
    rng = c.rng
    n, nr, m = int(rng.integers(1, 12)), int(rng.integers(1, 4)), int(rng.integers(1, 8))
    rt, ct = part(rng, n), part(rng, n)
    dl, db = (np.dtype(str(x)) for x in rng.choice(["f8", "c16", "f4"], 2))
    L = sparse(rng, nr, rt, ct, dl)
    tol = float(rng.choice([0.0, 1e-6]))
    A = t.BlockSparseLtensor.from_dense(L, rt, ct, tol=tol)
    eff = A.to_dense()
    side = str(rng.choice(["right", "left"]))
    out = str(rng.choice(["dense", "tiled"]))
    tiled = bool(rng.random() < 0.5)
    mt = part(rng, m)
    M = rng.normal(size=(n, m) if side == "right" else (m, n))
    M = (M + 1j * rng.normal(size=M.shape) if db.kind == "c" else M).astype(db)
    c.desc(n=n, nr=nr, m=m, side=side, out=out, tiled=tiled, dtypes=f"{dl},{db}", rows=list(rt.edges), cols=list(ct.edges))
    c.cls(side, out, f"tiled={tiled}", f"{dl}*{db}")
    if tiled:
        Bm = t.TiledDenseMatrix.from_dense(M, *((ct, mt) if side == "right" else (mt, rt)))
        drop = [k for k in Bm.blocks if rng.random() < 0.3]
        for k in drop:
            del Bm.blocks[k]
        M = Bm.to_dense()
        keys = set(Bm.blocks)
    else:
        Bm = M.copy()
    oct_ = mt if rng.random() < 0.5 else None
    kw = dict(side=side, out=out)
    if out == "tiled" and oct_ is not None and not tiled:
        kw["out_col_tiles"] = oct_
    one = [A.matmul_slice(i, Bm, **kw) for i in range(nr)]
    every = A.matmul_all(Bm, **kw)
    c.ok(len(every) == nr, "all-slices", f"{len(every)}")
    rdt = np.result_type(dl, db)
    tl = 1e-12 if min(dl.itemsize / (2 if dl.kind == "c" else 1), db.itemsize / (2 if db.kind == "c" else 1)) > 4 else 1e-4
    for i in range(nr):
        want = (eff[i].astype("c16") @ M) if side == "right" else (M.astype("c16") @ eff[i])
        for tag, r in (("slice-product", one[i]), ("all-product", every[i])):
            if out == "tiled":
                w = mt if (tiled or "out_col_tiles" in kw) else t.TilePartition.from_sizes([m])
                exp = (rt, w) if side == "right" else (w, ct)
                c.ok((r.row_tiles, r.col_tiles) == exp, "result-tiling", f"{r.row_tiles} {r.col_tiles}")
                for (a, b), blk in r.blocks.items():
                    c.ok(blk.shape == (exp[0].tile_size(a), exp[1].tile_size(b)), "result-tiling", f"block {(a, b)}: {blk.shape}")
                r = r.to_dense()
            r = np.asarray(r)
            c.ok(r.dtype == rdt, "result-type", f"{r.dtype} {rdt}")
            c.close(r.astype("c16"), want, tag, atol=tl * n * (1 + np.abs(want).max(initial=0)))
    c.ok(np.array_equal(A.to_dense(), eff), "operands-untouched", "tensor changed")
    c.ok(np.array_equal(Bm.to_dense(), M) and set(Bm.blocks) == keys if tiled else np.array_equal(Bm, M), "operands-untouched", "matrix changed")
    # wrong dimensions or tilings are refused
    bad = rng.normal(size=(n + 1, m) if side == "right" else (m, n + 1))
    c.raises(ValueError, lambda: A.matmul_slice(0, bad, **kw), "mismatch-refused")
    c.raises(ValueError, lambda: A.matmul_all(bad, side=side), "mismatch-refused")
    other = part(rng, n)
    if other.edges != (ct if side == "right" else rt).edges:
        Bo = t.TiledDenseMatrix.from_dense(M, *((other, mt) if side == "right" else (mt, other)))
        c.raises(ValueError, lambda: A.matmul_slice(0, Bo, side=side, out=out), "tiling-mismatch-refused")
    c.raises(ValueError, lambda: A.matmul_slice(0, M, side="up"), "mismatch-refused")
    c.raises(ValueError, lambda: A.matmul_slice(0, M, side=side, out="up"), "mismatch-refused")
    c.raises(IndexError, lambda: A.matmul_slice(nr, M, side=side), "mismatch-refused")
    c.events += 2 * nr


FAMILIES = [
    Family("partition", partition, 100, 10000, chunk=30, monitors=["uniform-tiles", "tiles-cover-once", "tile-geometry", "bad-partition-rejected"]),
    Family("store", store, 200, 20000, chunk=30, monitors=["stored-blocks", "block-values", "dense-round-trip", "threshold-bound", "slice-round-trip",
                                                          "statistics", "stored-copies", "assembled-blocks", "bad-block-rejected", "matrix-round-trip"]),
    Family("product", product, 400, 60000, chunk=40, monitors=["all-slices", "slice-product", "all-product", "result-tiling", "result-type",
                                                              "operands-untouched", "mismatch-refused", "tiling-mismatch-refused"]),
]
