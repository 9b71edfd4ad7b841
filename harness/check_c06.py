"""C06: point-group irreps, chain generators, regular representations."""
import zlib

import numpy as np

import build
import cryst as cr
import proj

RULE = "point groups of the 530 Hall settings (conventional and primitive axes, so all arithmetic classes) in random unimodular bases and orders, both methods; chains of generators; (projective) regular representations; non-trivial: order above 1"
ASSUMES = ["fixed-point comparison (2^-13), tolerance 0.6%"]
TAG = "C06"
CHUNK = 900


def pg(h, rng, maxorder=48):
    prim = rng.random() < 0.6
    R = cr.prim_hall(h)[1] if prim else cr.hall_ops(h)[0]
    R = np.unique(R.reshape(-1, 9), axis=0).reshape(-1, 3, 3)
    if rng.random() < 0.75:
        U = cr.rand_unimodular(rng, int(rng.integers(0, 8)))
        R = np.array([cr.int_inv(U) @ r @ U for r in R])
    return R[rng.permutation(len(R))]


def tables(R, S=None):
    return [[x + 1 for x in r] for r in cr.mul_table(R, np.zeros((len(R), 3), int), np.zeros(len(R), int) if S is None else S)]


def cases(tier, seed, shard, nshard):
    from spgrep import get_crystallographic_pointgroup_irreps_from_symmetry as f
    from spgrep.pointgroup import get_pointgroup_chain_generators
    from spgrep.representation import get_projective_regular_representation, get_regular_representation
    per = 10 if tier == "quick" else 50
    for h in range(1 + shard, 531, nshard):
        rng = np.random.default_rng([seed, h, zlib.crc32(TAG.encode())])
        for q in range(per):
            R = pg(h, rng)
            n = len(R)
            Z = np.zeros((n, 3), int)
            G = cr.Group(R, Z)
            method = ["Neto", "random"][int(rng.random() < 0.35)]
            cid = "C06-h%d-%d-%s" % (h, q, method)
            st, v, w = proj.call(f, R, method=method)
            ans = {"status": st, "map": list(range(1, n + 1))}
            if st == "ok":
                ans["irreps"] = build.irreps_json(v)
            yield "SmallReps", build.smallreps(cid, G, np.zeros(3, int), 1, ans, allrows=10), {"id": cid, "kind": "irreps-" + method, "hall": h, "order": n, "nontrivial": n > 1, "status": st if st == "ok" else "%s %s" % (st, str(v)[:80])}
            mul = tables(R)
            R = pg(h, rng)
            G = cr.Group(R, Z)
            mul = tables(R)
            st, v, w = proj.call(get_pointgroup_chain_generators, R)
            ans = {"status": st, "gens": proj.idx1(v) if st == "ok" else []}
            cid = "C06-h%d-%d-chain" % (h, q)
            yield "Tables", {"kind": "chain", "id": cid, "ops": G.json(), "Dt": cr.DT, "mul": mul, "ans": ans}, {"id": cid, "kind": "chain", "hall": h, "order": n, "nontrivial": n > 1, "status": str(st)}
        if rng.random() < (0.5 if tier == "quick" else 1) and n <= 24 or rng.random() < 0.1:
            mu, den = [], 1
            if rng.random() < 0.5:
                den = int(rng.choice([2, 4, 6, 97]))
                mu = rng.integers(0, den, (n, n))
                st, v, w = proj.call(get_projective_regular_representation, R, np.exp(2j * np.pi * mu / den))
                mu = mu.tolist()
            else:
                st, v, w = proj.call(get_regular_representation, R)
            ans = {"status": st, "shape": [], "nz": []}
            if st == "ok":
                try:
                    a = np.asarray(v)
                    ans["shape"] = list(a.shape)
                    ans["nz"] = [[int(i) + 1 for i in ix] + [int(x), int(y)] for ix, x, y in zip(np.argwhere(np.abs(a) > 1e-9), proj.fx(np.real(a[np.abs(a) > 1e-9])), proj.fx(np.imag(a[np.abs(a) > 1e-9])))]
                except Exception:  # noqa: BLE001
                    ans["status"] = "malformed"
            cid = "C06-h%d-reg" % h
            yield "Tables", {"kind": "regular", "id": cid, "ops": G.json(), "Dt": cr.DT, "mul": mul, "mu": mu, "muden": den, "ans": ans}, {"id": cid, "kind": "regular", "hall": h, "order": n, "nontrivial": n > 1, "status": str(st)}
