"""C16: multiplication tables, inverses, orders, closure, coset pairing."""
import zlib

import numpy as np

import check_c06
import cryst as cr
import proj

RULE = "point groups and magnetic point groups of all settings in random bases and orders; sets with one element dropped, replaced or added; coset pairing for 1651 magnetic groups (primitive, conventional and type I) in random order with random lattice representatives; non-trivial: order above 1"
ASSUMES = []
TAG = "C16"
CHUNK = 1500


def bits(f, *a, **k):
    st, v, w = proj.call(f, *a, **k)
    return st, (int(bool(v)) if st == "ok" else 0)


def cases(tier, seed, shard, nshard):
    from spgrep import group as g
    per = 5 if tier == "quick" else 30
    for h in range(1 + shard, 531, nshard):
        rng = np.random.default_rng([seed, h, zlib.crc32(TAG.encode())])
        for q in range(per):
            R = check_c06.pg(h, rng)
            n = len(R)
            S = np.zeros(n, int)
            args = (R,)
            if rng.random() < 0.4 and n <= 24:
                u = int(rng.integers(1, 1652))
                _, R, _, S = cr.prim_mag(u)
                perm = rng.permutation(len(R))
                R, S = R[perm], S[perm]
                n = len(R)
                args = (R, S if rng.random() < 0.7 else S.astype(bool))
            Z = np.zeros((n, 3), int)
            G = cr.Group(R, Z, S)
            st, t, w = proj.call(g.get_cayley_table, *args)
            ans = {"status": st, "table": [], "identity": 0, "inverse": [], "order": []}
            if st == "ok":
                t = np.asarray(t)
                ans["table"] = (np.array(proj.ints(t)) + 1).tolist()

                def rest():
                    return g.get_identity_index(t), [g.get_inverse_index(t, i) for i in range(n)], [g.get_order(t, i) for i in range(n)]

                st2, v, w = proj.call(rest, limit=20)
                ans["status"] = st2
                if st2 == "ok":
                    ans.update(identity=proj.idx1([v[0]])[0], inverse=proj.idx1(v[1]), order=proj.ints(v[2]))
            mul = [[x + 1 for x in r] for r in cr.mul_table(R, Z, S)]
            cid = "C16-h%d-%d-table" % (h, q)
            yield "Tables", {"kind": "table", "id": cid, "ops": G.json(), "Dt": cr.DT, "mul": mul, "ans": ans}, {"id": cid, "kind": "table", "order": n, "nontrivial": n > 1, "mag": bool(S.any()), "status": str(st)}
            for w in range(3):
                R = check_c06.pg(h, rng)
                n = len(R)
                u = rng.random()
                if u < 0.25:
                    M = R
                elif u < 0.5 and n > 1:
                    M = np.delete(R, rng.integers(n), axis=0)
                elif u < 0.6:
                    # a random subset
                    M = R[rng.permutation(n)[: int(rng.integers(1, n + 1))]]
                elif u < 0.75:
                    # union of two cyclic subgroups
                    M = []
                    for _ in range(2):
                        x = R[rng.integers(n)]
                        y = x.copy()
                        for _ in range(6):
                            M.append(tuple(y.ravel()))
                            y = y @ x
                    M = np.array(sorted(set(M))).reshape(-1, 3, 3)
                elif u < 0.85:
                    M = R.copy()
                    V = cr.rand_unimodular(rng, 2)
                    M[rng.integers(n)] = V
                    M = np.unique(M.reshape(-1, 9), axis=0).reshape(-1, 3, 3)
                else:
                    U = cr.rand_unimodular(rng, 3)
                    M = np.unique(np.concatenate([R, [cr.int_inv(U) @ R[rng.integers(n)] @ U]]).reshape(-1, 9), axis=0).reshape(-1, 3, 3)
                if rng.random() < 0.12:
                    # repeated members do not form a group
                    M = np.concatenate([M, M[rng.integers(0, len(M), int(rng.integers(1, 3)))]]) if rng.random() < 0.6 else np.concatenate([M, M])
                M = M[rng.permutation(len(M))]
                if np.abs(M).max() > 200:
                    continue
                st, b = bits(g.is_matrix_group, M)
                cid = "C16-h%d-%d-ismg%d" % (h, q, w)
                yield "Tables", {"kind": "ismg", "id": cid, "ops": cr.Group(M, np.zeros((len(M), 3), int)).json(), "Dt": cr.DT, "mul": [], "ans": {"status": st, "value": b}}, {
                    "id": cid, "kind": "ismg", "order": len(M), "nontrivial": len(M) > 1, "status": str(st), "value": b}
    for u in range(1 + shard, 1652, nshard):
        rng = np.random.default_rng([seed, u, zlib.crc32((TAG + "x").encode())])
        for q in range(per):
            if rng.random() < 0.65:
                _, R, T, S = cr.prim_mag(u)
            else:
                R, T, S = cr.mag_ops(u)
                if len(R) > 96:
                    _, R, T, S = cr.prim_mag(u)
            G, _ = cr.random_frame(cr.Group(R, T, S), np.zeros(3, int), 1, rng, strong=rng.random() < 0.8, fine=True)
            if len(G) <= 24 and rng.random() < 0.3 and G.D < 1000:
                # supercells: many translations, a small fraction of the cell apart
                W = cr.supergroup(G, cr.hnf_cell(rng, int(rng.integers(2, min(48, 96 // len(G)) + 1))))
                if W.S.any() == G.S.any():
                    o = rng.permutation(len(W))
                    G = cr.Group(W.R[o], W.T[o], W.S[o], W.D)
            tt = G.t
            if rng.random() < 0.5 and (G.T % G.D == 0).all():
                tt = G.T // G.D  # integers
            st, v, w = proj.call(g.decompose_by_maximal_space_subgroup, G.rot, tt, G.S)
            ans = {"status": st, "none": 0, "xsg": [], "tri": [], "a0": 0}
            if st == "ok":
                try:
                    if v is None:
                        ans["none"] = 1
                    else:
                        ans.update(xsg=proj.idx1(v[0]), tri=proj.idx1(v[1]), a0=proj.idx1([v[2]])[0])
                except Exception:  # noqa: BLE001
                    ans["status"] = "malformed"
            cid = "C16-u%d-%d-xsg" % (u, q)
            yield "Tables", {"kind": "xsg", "id": cid, "ops": G.json(), "Dt": G.D, "mul": [], "ans": ans}, {"id": cid, "kind": "xsg", "order": len(G), "nontrivial": bool(S.any()), "status": str(st)}
