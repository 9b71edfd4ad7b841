"""C14: symmetry-adapted tensors."""
import zlib

import numpy as np

import build
import check_c06
import check_c12
import cryst as cr
import proj
import reps

RULE = "point groups in any integer basis and order x {Cartesian vector representation in a random orientation (proper and axial), random direct sums of irreps in complex/real bases, permutation representations} x rank 1..6 (above 4 for dimension 1 and 2 only) x real/complex; non-trivial: there is an invariant tensor and the group is not trivial"
ASSUMES = ["the representation is re-verified by TLC against the multiplication table of the rotations", "tensors compared after normalisation; independence threshold 0.8%"]
TAG = "C14"
CHUNK = 400
SIZE = 128


def maxrank(d, size=None):
    r, top = 1, 6 if d <= 2 or size else 4
    while r < top and d ** (r + 1) <= (size or SIZE):
        r += 1
    return r


def vecs(tensors):
    return [reps.vec(t) for t in tensors]


def normalised(ts):
    out = []
    for t in ts:
        t = np.asarray(t)
        n = np.linalg.norm(t)
        out.append(t / n if np.isfinite(n) and n > 1e-9 else t * 0)
    return out


def triangular(ts):
    """unit vectors orthogonal to the earlier tensors and overlapping with the current one"""
    return check_c12.certificate([np.asarray(t).reshape(1, -1) for t in ts]) if ts else []


def request(rng, tier, real):
    """rotations, representation, kind"""
    u = rng.random()
    h = int(rng.integers(1, 531))
    R = check_c06.pg(h, rng)
    n = len(R)
    src = reps.Source(R, cr.mul_table(R, np.zeros((n, 3), int), np.zeros(n, int)), np.zeros((n, n), int), 1, "ordinary")
    if u < 0.5:
        L = cr.invariant_lattice(R, rng)
        C = build.cart(L, R)
        kind = "vector"
        if rng.random() < 0.2:
            C = C * np.rint(np.linalg.det(C))[:, None, None]
            kind = "axial"
        return src, C, kind
    if u < 0.62 and n <= 10:
        rep = np.zeros((n, n, n))
        for k in range(n):
            rep[k, src.mul[k], np.arange(n)] = 1
        return src, rep, "regular"
    irs = reps.irreps(src.mul, src.mu, rng)
    if real:
        # a real representation: realify sums of irreps
        pick = [irs[int(i)] for i in rng.integers(0, len(irs), int(rng.integers(1, 3)))]
        x = reps.direct_sum(pick)
        y = np.concatenate([np.concatenate([x.real, -x.imag], 2), np.concatenate([x.imag, x.real], 2)], 1)
        if y.shape[1] > 11:
            return request(rng, tier, real)
        V = reps.unitary(y.shape[1], rng, real=True)
        return src, np.einsum("ji,kjl,lm->kim", V, y, V), "realified"
    rep, mult = reps.reducible(src, irs, rng, maxd=int(rng.choice([2, 3, 4, 5, 6])), maxm=2)
    return src, rep, "sum"


def cases(tier, seed, shard, nshard):
    from spgrep.tensor import get_symmetry_adapted_tensors as f
    for q in range(170 if tier == "quick" else 420):
        rng = np.random.default_rng([seed, q, shard, zlib.crc32(TAG.encode())])
        real = bool(rng.random() < 0.45)
        src, rep, kind = request(rng, tier, real)
        d = rep.shape[1]
        if d > 11:
            continue
        rank = int(rng.integers(1, maxrank(d) + 1))
        if len(src) > 16 and rank >= 4 and rng.random() < 0.7 and tier == "quick":
            rank = 3
        st, v, w = proj.call(f, rep, src.R, rank, real=real, limit=120)
        ans = {"status": st, "tensors": [], "w": []}
        if st == "ok":
            try:
                ts = normalised(v)
                ans["tensors"] = vecs(ts)
                ans["w"] = triangular(ts) if all(t.shape == (d,) * rank and np.isfinite(t).all() for t in ts) else []
            except Exception:  # noqa: BLE001
                ans["status"] = "malformed"
        cid = "C14-%d-%d" % (shard, q)
        c = {"kind": "adapted", "id": cid, "group": True, **src.json(), "rep": proj.mats(rep), "dim": d, "rank": rank, "real": real, "ans": ans}
        yield "Tensors", c, {"id": cid, "kind": kind + ("-real" if real else ""), "order": len(src), "dim": d, "rank": rank, "found": len(ans["tensors"]), "nontrivial": len(src) > 1 and len(ans["tensors"]) > 0, "status": st if st == "ok" else "%s %s" % (st, str(v)[:80])}
