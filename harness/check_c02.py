"""C02: completeness, irreducibility, inequivalence (primitive cell)."""
import check_c01 as base

import build
import cryst as cr
import proj
import numpy as np
import zlib

RULE = base.RULE.replace("non-trivial", "also enumerate_unitary_irreps on the co-group factor system; non-trivial")
ASSUMES = ["character inner products are integers; fixed-point error below 1/8", "irreducibility from character norms presumes the matrices form a representation (C01)"]
TAG = "C02"
WANT = dict(wantreps=True, wantlaw=False, wantcomplete=True)


def cases(tier, seed, shard, nshard):
    from spgrep import get_spacegroup_irreps_from_primitive_symmetry as f
    from spgrep.irreps import enumerate_small_representations as g
    per = 44 if tier == "quick" else 240
    for h in range(1 + shard, 531, nshard):
        rng = np.random.default_rng([seed, h, zlib.crc32(TAG.encode())])
        P, R, T = cr.prim_hall(h)
        for q, (k, D) in enumerate(cr.sample_kpoints(rng, per)):
            G, kk = cr.random_frame(cr.Group(R, T), k, D, rng, strong=rng.random() < 0.8, fine=True)
            method = ["Neto", "random"][int(rng.random() < 0.45)]
            kind = method
            if rng.random() < 0.3:
                lg = build.little(G, kk, D)
                G = cr.Group(G.R[lg], G.T[lg], None, G.D)
                st, v, w = proj.call(g, G.rot, G.t, kk / D, method=method)
                ans = {"status": st, "map": list(range(1, len(lg) + 1))}
                kind = "small-" + method
                if st == "ok":
                    ans["irreps"] = build.irreps_json(v[0])
            else:
                st, v, w = proj.call(f, G.rot, G.t, kk / D, method=method)
                ans = {"status": st}
                if st == "ok":
                    ans.update(map=proj.idx1(v[1]), irreps=build.irreps_json(v[0]))
            n = len(build.little(G, kk, D))
            cid = "%s-h%d-%d-%s" % (TAG, h, q, kind)
            yield "SmallReps", build.smallreps(cid, G, kk, D, ans, allrows=8, **WANT), {
                "id": cid, "kind": kind, "hall": h, "k": [int(x) for x in kk], "den": int(D), "order": n, "nontrivial": n > 1, "status": st if st == "ok" else "%s %s" % (st, str(v)[:80])}
