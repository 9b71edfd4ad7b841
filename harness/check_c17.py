"""C17: intertwiners, equivalence, Frobenius-Schur indicators, real forms."""
import zlib

import numpy as np

import build
import proj
import reps

RULE = "irreps (ordinary, nonsymmorphic, spinor factor systems) of point groups in any basis/order, in random unitary gauges; all pairs of irreps for equivalence; (reducible) representations of +-1 factor systems for indicators; non-trivial: dimension above 1 or indicator other than 1"
ASSUMES = ["irreps are built by an independent decomposition and re-verified by TLC", "intertwiner compared at 0.6%, determinant at 0.5-5% by dimension"]
TAG = "C17"
CHUNK = 700


def gauge(ir, rng, u=None):
    d = ir.shape[1]
    u = rng.random() if u is None else u
    if u < 0.15:
        return ir
    if u < 0.3:
        return reps.conj(ir, np.diag(np.exp(2j * np.pi * rng.integers(0, 8, d) / 8)))
    if u < 0.45:
        p = rng.permutation(d)
        return ir[:, p][:, :, p]
    if u < 0.6:
        return reps.conj(ir, reps.unitary(d, rng, real=True))
    return reps.conj(ir, reps.unitary(d, rng))


def indicator(r):
    return np.einsum("kij,kji->", r, r).real / len(r)


def cases(tier, seed, shard, nshard):
    from spgrep.irreps import get_physically_irrep, is_equivalent_irrep
    from spgrep.representation import frobenius_schur_indicator, get_character, get_intertwiner
    for q in range(230 if tier == "quick" else 700):
        rng = np.random.default_rng([seed, q, shard, zlib.crc32(TAG.encode())])
        signs = bool(rng.random() < 0.5)
        kind = str(rng.choice(["ordinary", "spinor"])) if signs else None
        src = reps.source(rng, kind, maxn=48 if rng.random() < 0.3 else 24)
        irs = reps.irreps(src.mul, src.mu, rng)
        base = src.json()
        pm = bool(((2 * src.mue) % src.den == 0).all())
        if pm and rng.random() < 0.5:
            # an equivalent factor system is again +-1 for real multipliers: D -> s(g) D
            s = rng.choice([1, -1], len(src))
            e = int(np.argmax([np.array_equal(r, np.eye(3)) for r in src.R]))
            s[e] = 1
            mu = np.rint(src.mu.real) * s[:, None] * s[None, :] * s[src.mul]
            src = reps.Source(src.R, src.mul, np.where(mu < 0, 1, 0), 2, src.kind + "-twisted")
            irs = [x * s[:, None, None] for x in irs]
            base = src.json()

        def out(kind, tag, nontrivial, rep1, rep2, ans, extra, **info):
            cid = "C17-%d-%d-%s" % (shard, q, tag)
            c = {"kind": kind, "id": cid, **base, "rep1": proj.mats(rep1), **extra, "ans": ans}
            if rep2 is not None:
                c["rep2"] = proj.mats(rep2)
            return "Intertwine", c, {"id": cid, "kind": kind, "source": src.kind, "order": len(src), "dim": rep1.shape[1], "nontrivial": nontrivial, "status": ans["status"], **info}
        order = sorted(rng.permutation(len(irs)), key=lambda i: -irs[i].shape[1])[:2]
        for i in order:
            a, b = gauge(irs[i], rng), gauge(irs[i], rng)
            st, v, w = proj.call(get_intertwiner, a, b)
            ans = {"status": st, "u": proj.mats(np.asarray(v)[None]) if st == "ok" else {}}
            g = int(rng.integers(len(src)))
            ans["fine"] = {"g": g + 1, "x": build.fine(a[g]), "y": build.fine(b[g]), "u": build.fine(v) if st == "ok" and np.asarray(v).dtype != object else build.fine(a[g])}
            yield out("intertwiner", "int%d" % i, a.shape[1] > 1, a, b, ans, {}, detail=str(v)[:60] if st != "ok" else "")
        pairs = [(i, j) for i in range(len(irs)) for j in range(len(irs))]
        for p in rng.permutation(len(pairs))[:4]:
            i, j = pairs[p]
            if rng.random() < 0.3:
                i = j
            a, b = gauge(irs[i], rng), gauge(irs[j], rng)
            st, v, w = proj.call(lambda: is_equivalent_irrep(get_character(a), get_character(b)))
            ans = {"status": st, "eq": int(v) if st == "ok" and isinstance(v, (bool, np.bool_)) else proj.BIG}
            yield out("equivalent", "eq%d" % p, i != j, a, b, ans, {})
        if not pm:
            continue
        for t in range(3):
            u = rng.random()
            if u < 0.5:
                r = gauge(irs[int(rng.integers(len(irs)))], rng)
            elif u < 0.75 and rng.random() < 0.9:
                # a reducible real-type representation
                real = [x for x in irs if indicator(x) > 0.5]
                pick = [real[int(rng.integers(len(real)))] for _ in range(int(rng.integers(2, 4)))] if real else [irs[0], irs[0]]
                r = gauge(reps.direct_sum(pick), rng)
            else:
                r = gauge(reps.direct_sum([irs[int(rng.integers(len(irs)))] for _ in range(int(rng.integers(2, 4)))]), rng)
            if r.shape[1] > 10:
                continue
            st, v, w = proj.call(frobenius_schur_indicator, r)
            ans = {"status": st, "fs": proj.ints(v) if st == "ok" and np.ndim(v) == 0 else proj.BIG}
            yield out("indicator", "fs%d" % t, round(indicator(r)) != 1, r, None, ans, {}, value=round(float(indicator(r)), 3))
        for i in order[:2]:
            r = gauge(irs[i], rng)
            ind = int(round(indicator(r)))
            st, v, w = proj.call(get_physically_irrep, r, ind)
            ans = {"status": st, "real": proj.mats(v) if st == "ok" else {}}
            rows = src.rows()
            ans["fine"] = build.law_samples([v], rows, [src.mul[x] for x in rows], [src.mue[x] for x in rows], src.den) if st == "ok" else []
            yield out("physical", "pir%d" % i, ind != 1 or r.shape[1] > 1, r, None, ans, {"indicator": ind}, value=ind, detail=str(v)[:60] if st != "ok" else "")
