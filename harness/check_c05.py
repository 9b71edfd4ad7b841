"""C05: reduction to a primitive cell."""
import zlib
from fractions import Fraction as F

import numpy as np

import cryst as cr
import proj

RULE = "530 Hall numbers (matrix, illegal numbers) ; transforms by rational matrices with non-unit determinant ; first-occurrence deduplication of centred groups, magnetic groups and synthetic interleaved lists in random order; non-trivial: more than one operation"
ASSUMES = ["Hall settings are those of spglib's database"]
TAG = "C05"
CHUNK = 3000


def unique_case(cid, f, G, pass_th, ncent, rng, ints=False):
    args = (G.R, G.t) + ((G.S if rng.random() < 0.7 else G.S.astype(bool),) if pass_th else ())
    st, v, w = proj.call(f, *args)
    ans = {"status": st, "R": [], "t": [], "map": []}
    if st == "ok":
        try:
            n = len(v[0])
            ans.update(R=np.array(proj.ints(v[0])).reshape(n, 9).tolist(), t=proj.num(v[1], G.D, 1e-7), map=proj.idx1(v[2]))
        except Exception:  # noqa: BLE001
            ans["status"] = "malformed"
    ops = G.json() if pass_th else [[a, b, 0] for a, b, _ in G.json()]
    return "Primitive", {"kind": "dedup", "id": cid, "ops": ops, "Dt": int(G.D), "ncent": ncent, "ans": ans}, {"id": cid, "kind": "dedup", "order": len(G), "nontrivial": len(G) > 1, "status": str(st)}


def transform_case(cid, f, P, Dp, q, G, k, Dk):
    """P numerators over Dp"""
    st, v, w = proj.call(f, P / Dp, G.R, G.t, k / Dk)
    ans = {"status": st, "R": [], "t": [], "k": []}
    if st == "ok":
        try:
            n = len(G)
            ans.update(R=np.array(proj.ints(v[0])).reshape(n, 9).tolist(), t=proj.num(v[1], q * G.D, 1e-7), k=proj.num(v[2], Dp * Dk, 1e-7))
        except Exception:  # noqa: BLE001
            ans["status"] = "malformed"
    return "Primitive", {"kind": "transform", "id": cid, "ops": G.json(), "Dt": int(G.D), "P": P.ravel().tolist(), "Dp": int(Dp), "q": int(q), "k": [int(x) for x in k], "Dk": int(Dk), "ans": ans}, {
        "id": cid, "kind": "transform", "order": len(G), "nontrivial": len(G) > 1, "status": str(st)}


def cases(tier, seed, shard, nshard):
    from spgrep import transform as tf
    for h in range(1 + shard, 531, nshard):
        rng = np.random.default_rng([seed, h, zlib.crc32(TAG.encode())])
        R, T = cr.hall_ops(h)
        cents = [t.tolist() for r, t in zip(R, T) if (r == cr.I3).all()]
        st, v, w = proj.call(tf.get_primitive_transformation_matrix, h)
        ans = {"status": st, "P": []}
        if st == "ok":
            ans["P"] = np.ravel(proj.num(v, 6, 1e-9)).tolist()
            if len(ans["P"]) != 9:
                ans["P"] = [proj.BIG] * 9
        yield "Primitive", {"kind": "matrix", "id": "C05-h%d-P" % h, "cents": cents, "Dt": cr.DT, "ans": ans}, {"id": "C05-h%d-P" % h, "kind": "matrix", "nontrivial": len(cents) > 1, "status": str(st)}
        G = cr.Group(R, T)
        for rep in range(4 if tier == "quick" else 30):
            # the real primitive transformation, times a random unimodular matrix
            P, Rp, Tp = cr.prim_hall(h)
            Pn = np.array([[int(x * 24) for x in row] for row in P]) @ cr.rand_unimodular(rng, int(rng.integers(0, 4)))
            (k, D), = cr.sample_kpoints(rng, 1)
            perm = rng.permutation(len(G))
            T2 = T + cr.DT * rng.integers(-2, 3, T.shape)
            if rng.random() < 0.5:
                H = cr.Group(R[perm], T2[perm])
                yield transform_case("C05-h%d-%d-prim" % (h, rep), tf.transform_symmetry_and_kpoint, Pn, 24, 1 * 24, H, k, D)
            else:
                # go back from the primitive to a bigger cell: integer matrix
                B = np.array([[int(x) for x in r] for r in cr.finv(P)])
                H = cr.Group(Rp, Tp + cr.DT * rng.integers(-2, 3, Tp.shape))
                U = B @ cr.rand_unimodular(rng, 2)
                U = U * int(rng.choice([1, 1, 2, 3])) if rng.random() < 0.4 else U
                d = abs(int(round(np.linalg.det(U))))
                if cr.I3 is not None and all((np.rint(np.linalg.inv(U) @ r @ U * 1) - np.linalg.inv(U) @ r @ U < 1e-9).all() for r in Rp):
                    yield transform_case("C05-h%d-%d-conv" % (h, rep), tf.transform_symmetry_and_kpoint, U, 1, d, H, k, D)
            # deduplication of the centred group in primitive coordinates, any order
            Pi = cr.finv(P)
            Tn = np.array([[int(sum(a * F(int(b)) for a, b in zip(row, t))) for row in Pi] for t in T2])
            Rn = np.array([cr.fint(cr.fmul(cr.fmul(Pi, r.tolist()), P)) for r in R])
            H = cr.Group(Rn[perm], Tn[perm])
            yield unique_case("C05-h%d-%d-uniq" % (h, rep), tf.unique_primitive_symmetry, H, False, len(cents), rng)
    todo = list(range(1 + shard, 1652, nshard))
    for u in todo:
        rng = np.random.default_rng([seed, u, zlib.crc32((TAG + "m").encode())])
        R, T, S = cr.mag_ops(u)
        perm = rng.permutation(len(R))
        P = cr.prim_mag(u)[0]
        Pi = cr.finv(P)
        Rn = np.array([cr.fint(cr.fmul(cr.fmul(Pi, r.tolist()), P)) for r in R])
        Tn = np.array([[int(sum(a * F(int(b)) for a, b in zip(row, t))) for row in Pi] for t in T])
        nc = sum((r == cr.I3).all() and s == 0 for r, s in zip(R, S))
        yield unique_case("C05-u%d-uniq" % u, tf.unique_primitive_symmetry, cr.Group(Rn[perm], Tn[perm], S[perm]), True, int(nc), rng)
    # synthetic: arbitrary lists with repetitions
    for q in range(100 if tier == "quick" else 200):
        rng = np.random.default_rng([seed, q, shard, 5])
        pool = cr.hall_ops(int(rng.integers(1, 531)))[0]
        m = int(rng.integers(1, 30))
        pick = rng.integers(0, len(pool), m)
        H = cr.Group(pool[pick], rng.integers(-60, 60, (m, 3)), rng.integers(0, 2, m))
        yield unique_case("C05-syn%d-%d" % (shard, q), tf.unique_primitive_symmetry, H, bool(rng.random() < 0.6), 0, rng)
    if shard == 0:
        for h in [0, -1, -5, 531, 532, 600, 10**6, -530]:
            for nm in ["get_primitive_transformation_matrix", "get_crystal_system"]:
                st, v, w = proj.call(getattr(tf, nm), h)
                yield "Primitive", {"kind": "error", "id": "C05-bad%d-%s" % (h, nm), "ans": {"status": st}}, {"id": "C05-bad%d-%s" % (h, nm), "kind": "error", "nontrivial": False, "status": str(st)}
