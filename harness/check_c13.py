"""C13: decomposition, direct products, characters."""
import zlib

import numpy as np

import build
import check_c12
import proj
import reps

RULE = "random (projective) direct sums with multiplicities in random bases, regular representations; exact Gaussian-integer direct products and characters; shape errors; non-trivial: more than one constituent"
ASSUMES = ["inputs are built by an independent decomposition and re-verified by TLC"]
TAG = "C13"
CHUNK = 600


def gauss(rng, n, d):
    return rng.integers(-9, 10, (n, d, d)) + 1j * rng.integers(-9, 10, (n, d, d))


def exact(a):
    n, d = a.shape[:2]
    return {"n": n, "d": [d, a.shape[2]], "re": np.array(proj.ints(np.real(a))).reshape(n, -1).tolist(), "im": np.array(proj.ints(np.imag(a))).reshape(n, -1).tolist()}


def cases(tier, seed, shard, nshard):
    from spgrep.irreps import decompose_representation
    from spgrep.representation import get_character, get_direct_product
    big = 5 if tier == "quick" else 25
    for q in range(520 + big if tier == "quick" else 1200 + big):
        rng = np.random.default_rng([seed, q, shard, zlib.crc32(TAG.encode())])
        src, irs, rep, mult, kind = check_c12.large(rng) if q < big else check_c12.request(rng, 48 if rng.random() < 0.2 else 24, 9 if tier == "quick" else 14)
        st, v, w = proj.call(decompose_representation, rep)
        ans = {"status": st, "irreps": build.irreps_json(v) if st == "ok" else []}
        cid = "C13-%d-%d" % (shard, q)
        rows = src.rows()
        ans["fine"] = build.law_samples(ans["irreps"].raw, rows, [src.mul[a] for a in rows], [src.mue[a] for a in rows], src.den) if st == "ok" and hasattr(ans["irreps"], "raw") else []
        yield "Projection", {"kind": "decompose", "id": cid, **src.json(), "rep": proj.mats(rep), "ans": ans}, {
            "id": cid, "kind": src.kind + "-" + kind, "order": len(src), "dim": rep.shape[1], "mult": [m for m in mult if m], "nontrivial": sum(mult) > 1, "status": st if st == "ok" else "%s %s" % (st, str(v)[:80])}
    for q in range(100 if tier == "quick" else 150):
        rng = np.random.default_rng([seed, q, shard, 78])
        n, d1, d2 = int(rng.integers(1, 7)), int(rng.integers(1, 5)), int(rng.integers(1, 5))
        x, y = gauss(rng, n, d1), gauss(rng, n, d2)
        if rng.random() < 0.3:
            x = np.real(x)
        if rng.random() < 0.3:
            y = np.real(y)
        if rng.random() < 0.25:
            x, y = np.real(x).astype(int), np.real(y).astype(int)
        base = {"ops": []}
        cid = "C13-prod-%d-%d" % (shard, q)
        st, v, w = proj.call(get_direct_product, x, y)
        ans = {"status": st, "p": {"n": 0, "d": [0, 0], "re": [], "im": []}}
        if st == "ok":
            try:
                ans["p"] = exact(np.asarray(v))
            except Exception:  # noqa: BLE001
                pass
        yield "Projection", {"kind": "product", "id": cid, **base, "x": exact(x), "y": exact(y), "ans": ans}, {"id": cid, "kind": "product", "nontrivial": True, "status": str(st)}
        st, v, w = proj.call(get_character, x)
        cid = "C13-char-%d-%d" % (shard, q)
        ans = {"status": st, "ch": []}
        if st == "ok":
            try:
                ans["ch"] = [list(t) for t in zip(proj.ints(np.real(v)), proj.ints(np.imag(v)))]
            except Exception:  # noqa: BLE001
                pass
        yield "Projection", {"kind": "character", "id": cid, **base, "x": exact(x), "ans": ans}, {"id": cid, "kind": "character", "nontrivial": d1 > 1, "status": str(st)}
        if q < 4:
            a, b = x, gauss(rng, n + 1 + int(rng.integers(2)), d2)
            if rng.random() < 0.5:
                a, b = b, a
            st, v, w = proj.call(get_direct_product, a, b)
            cid = "C13-err-%d-%d" % (shard, q)
            yield "Projection", {"kind": "error", "id": cid, **base, "ans": {"status": st}}, {"id": cid, "kind": "error", "nontrivial": False, "status": str(st)}
