"""C15: intrinsic symmetrisation."""
import itertools
import math
import zlib

import numpy as np

import check_c14
import proj
import reps

RULE = "lists of random tensors (dependent, antisymmetric, nearly parallel, repeated, scaled 1e-3..1e3, complex), and symmetry-adapted tensors built by an independent projector or returned by the code; rank 1..6; non-trivial: two or more inputs and rank above 1"
ASSUMES = ["inputs whose symmetrised span has no clear rank (singular value between 1e-8 and 0.03) are not used", "the rank of the span and the certificates are proposed by the harness and verified by TLC"]
TAG = "C15"
CHUNK = 400


def sym(t):
    p = list(itertools.permutations(range(t.ndim)))
    return sum(np.transpose(t, x) for x in p) / len(p)


def clear(ts):
    """symmetrised unit inputs: rank is numerically clear, in every prefix"""
    if not ts:
        return True
    s = np.array([sym(t / np.linalg.norm(t)).ravel() for t in ts])
    nr = np.linalg.norm(s, axis=1)
    if ((nr > 1e-9) & (nr < 0.02)).any():
        return False
    s = np.array([x / n if n > 1e-9 else x * 0 for x, n in zip(s, nr)])
    q = np.zeros((0, s.shape[1]))
    for x, n in zip(s, nr):
        r = x - q.T @ (q.conj() @ x)
        r = r - q.T @ (q.conj() @ r)
        m = np.linalg.norm(r)
        if m < 1e-8:
            continue
        if m < 0.03 or m * n < 0.02:
            return False
        q = np.vstack([q, (r / m)[None]])
    return True


def basis(ts):
    if not ts:
        return []
    u, s, vh = np.linalg.svd(np.array([np.asarray(t).ravel() for t in ts]), full_matrices=False)
    return [v for v in vh]


def pivots(ts):
    """indices and certificates of a maximal independent list of symmetrised inputs"""
    idx, out, q = [], [], None
    for i, t in enumerate(ts):
        x = sym(t / np.linalg.norm(t)).ravel().astype(complex)
        r = x.copy()
        if q is not None:
            for _ in range(2):
                r = r - q.T @ (q.conj() @ r)
        m = np.linalg.norm(r)
        if m < 0.008 * 1.5:
            continue
        r = r / m
        q = r[None] if q is None else np.vstack([q, r[None]])
        idx.append(i + 1)
        out.append(reps.vec(r))
    return idx, out


def generic(rng, rank, d):
    """a list of tensors with dependencies planted"""
    cplx = rng.random() < 0.3
    def one():
        a = rng.standard_normal((d,) * rank)
        return a + 1j * rng.standard_normal((d,) * rank) if cplx else a
    n = int(rng.integers(1, 7))
    ts = [one() for _ in range(n)]
    for _ in range(int(rng.integers(0, 5))):
        u = rng.random()
        if u < 0.25:
            ts.append(sum(rng.integers(-2, 3) * t for t in ts) + 0 * ts[0])
        elif u < 0.4 and rank > 1:
            a = one()
            ts.append(a - np.swapaxes(a, 0, int(rng.integers(1, rank))))
        elif u < 0.6 and rank > 1:
            a = ts[int(rng.integers(len(ts)))]
            b = one()
            ts.append(a + b - np.swapaxes(b, 0, rank - 1))
        elif u < 0.75:
            ts.append(ts[int(rng.integers(len(ts)))] + float(rng.choice([0.05, 0.1, 0.3])) * one())
        elif u < 0.9 and rank > 1:
            ts.append(np.transpose(ts[int(rng.integers(len(ts)))], rng.permutation(rank)))
        else:
            a = np.zeros((d,) * rank)
            a[tuple(rng.integers(0, d, rank))] = 1
            ts.append(a)
    ts = [np.asarray(t, complex if cplx else float) for t in ts if np.linalg.norm(t) > 1e-6]
    if not cplx and rng.random() < 0.25:
        ts = [np.rint(3 * t).astype(int) for t in ts]
        return [ts[i] for i in rng.permutation(len(ts)) if ts[i].any()]
    ts = [t * 10.0 ** rng.uniform(-3, 3) if rng.random() < 0.5 else t for t in ts]
    return [ts[i] for i in rng.permutation(len(ts))]


def invariants(rep, rank):
    """orthonormal basis of the invariant tensors, by the null space of the averaging projector"""
    n, d = rep.shape[:2]
    P = np.zeros((d ** rank,) * 2, complex)
    for g in rep:
        m = g
        for _ in range(rank - 1):
            m = np.kron(m, g)
        P += m
    P /= n
    u, s, vh = np.linalg.svd(P)
    return [u[:, i].reshape((d,) * rank) for i in range(len(s)) if s[i] > 0.5]


def powers(m, rank):
    out, x = [], np.arange(len(m))
    for _ in range(rank - 1):
        x = m[np.arange(len(m)), x]
        out.append(x + 1)
    return [[int(o[g]) for o in out] for g in range(len(m))]


def case(ts, rank, d, src, rep, cid, full=True):
    from spgrep.tensor import apply_intrinsic_symmetry as f
    copy = [np.array(t, copy=True) for t in ts]
    given = [t for t in copy if t.any()]  # a vanishing tensor spans nothing
    st, v, w = proj.call(f, ts, limit=120)
    ans = {"status": st, "same": all(a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b) for a, b in zip(ts, copy)) and len(ts) == len(copy), "out": [], "w": [], "q": [], "piv": [], "pw": []}
    if st == "ok":
        try:
            out = [np.asarray(t) for t in v]
            ok = all(t.shape == (d,) * rank and np.isfinite(t).all() for t in out)
            ans["out"] = [reps.vec(t) for t in out]
            if ok:
                ans["w"] = check_c14.triangular(out)
                ans["q"] = [reps.vec(x) for x in basis(out)]
            ans["piv"], ans["pw"] = pivots(given)
        except Exception:  # noqa: BLE001
            ans["status"] = "malformed"
    c = {"kind": "intrinsic", "id": cid, "group": src is not None, "dim": d, "rank": rank, "tensors": [reps.vec(t / np.linalg.norm(t)) for t in given], "ans": ans}
    if src is not None:
        c.update(src.json())
        m = src.mul
        c["pows"] = powers(m, rank)
        c["rep"] = proj.mats(rep)
    return c, {"id": cid, "inputs": len(ts), "out": len(ans["out"]), "rank": rank, "dim": d, "nontrivial": len(ts) > 1 and rank > 1, "status": st if st == "ok" else "%s %s" % (st, str(v)[:80])}


def cases(tier, seed, shard, nshard):
    from spgrep.tensor import get_symmetry_adapted_tensors
    quick = tier == "quick"
    for q in range(200 if quick else 400):
        rng = np.random.default_rng([seed, q, shard, zlib.crc32(TAG.encode())])
        d = int(rng.integers(1, 5))
        rank = int(rng.integers(1, check_c14.maxrank(d, 256) + 1))
        ts = generic(rng, rank, d)
        if not ts or not clear(ts):
            continue
        if rng.random() < 0.2:
            ts.insert(int(rng.integers(len(ts) + 1)), ts[0] * 0)
        c, info = case(ts, rank, d, None, None, "C15-gen-%d-%d" % (shard, q))
        yield "Tensors", c, {"kind": "generic", **info}
    for q in range(90 if quick else 200):
        rng = np.random.default_rng([seed, q, shard, zlib.crc32(TAG.encode()), 1])
        real = bool(rng.random() < 0.6)
        src, rep, kind = check_c14.request(rng, tier, real)
        d = rep.shape[1]
        if d > 11:
            continue
        rank = int(rng.integers(1, check_c14.maxrank(d) + 1))
        if rng.random() < 0.5:
            st, ts, w = proj.call(get_symmetry_adapted_tensors, rep, src.R, rank, real=real, limit=120)
            if st != "ok":
                continue
            kind += "-chained"
        else:
            ts = invariants(rep, rank)
            if len(ts) > 1 and rng.random() < 0.7:
                V = reps.unitary(len(ts), rng, real=real)
                ts = [sum(V[i, j] * ts[j] for j in range(len(ts))) for i in range(len(ts))]
                if rng.random() < 0.3:
                    ts.append(ts[0] - ts[-1])
        ts = [np.array(t) for t in ts]
        if any(np.linalg.norm(t) < 1e-6 for t in ts) or not clear(ts):
            continue
        c, info = case(ts, rank, d, src, rep, "C15-ad-%d-%d" % (shard, q))
        yield "Tensors", c, {"kind": kind, "order": len(src), **info}
