"""C01: multiplication law of small representations (primitive cell)."""
import zlib

import numpy as np

import build
import cryst as cr
import proj
import wrap

DESIGN = [{"module": "LawModel", "cfg": "LawModel.cfg", "tier": "thorough"}]
RULE = "530 Hall settings (primitive basis by independent reduction) x sampled k x random unimodular basis/origin/integer representatives/order/k+G x {Neto, random}; non-trivial: little group of order > 1"
ASSUMES = ["matrices are compared in fixed point (2^-13), tolerance 0.6%", "phases are exact rationals"]
WANT = dict(wantreps=True, wantlaw=True, wantcomplete=False)
TAG = "C01"


def requests(tier, seed, shard, nshard, per=None):
    n = per if per is not None else (36 if tier == "quick" else 200)
    for h in range(1 + shard, 531, nshard):
        rng = np.random.default_rng([seed, h, zlib.crc32(TAG.encode())])
        P, R, T = cr.prim_hall(h)
        for q, (k, D) in enumerate(cr.sample_kpoints(rng, n)):
            G, kk = cr.random_frame(cr.Group(R, T), k, D, rng, strong=rng.random() < 0.8, fine=True)
            method = ["Neto", "random"][int(rng.random() < 0.45)]
            yield h, q, G, kk, D, method, rng


def cases(tier, seed, shard, nshard):
    from spgrep import get_spacegroup_irreps_from_primitive_symmetry as f
    from spgrep.irreps import enumerate_small_representations as g
    for h, q, G, k, D, method, rng in requests(tier, seed, shard, nshard):
        kf, tolkw = wrap.nearby(rng, k / D)
        kind = method
        if rng.random() < 0.15:
            # the little group itself
            kind = "small-" + method
            lg = build.little(G, k, D)
            G = cr.Group(G.R[lg], G.T[lg], None, G.D)
            st, v, w = proj.call(g, G.rot, G.t, kf, method="Neto" if tolkw else method, **tolkw)
            v = (v[0], np.arange(len(lg))) if st == "ok" else v
        else:
            st, v, w = proj.call(f, G.rot, G.t, kf, method="Neto" if tolkw else method, **tolkw)
        ans = {"status": st}
        if st == "ok":
            try:
                ans.update(map=proj.idx1(v[1]), irreps=build.irreps_json(v[0]))
            except Exception:  # noqa: BLE001
                ans["status"] = "malformed"
        cid = "%s-h%d-%d-%s" % (TAG, h, q, kind)
        n = len(build.little(G, k, D))
        yield "SmallReps", build.smallreps(cid, G, k, D, ans, allrows=48 if tier == "thorough" else 12, fine_ok=not tolkw, **WANT), {
            "id": cid, "kind": kind, "hall": h, "k": [int(x) for x in k], "den": int(D), "order": n, "nontrivial": n > 1, "status": st if st == "ok" else "%s %s" % (st, str(v)[:80])}
