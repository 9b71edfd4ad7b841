"""C10: spinor co-representations of magnetic space and point groups."""
import zlib

import numpy as np

import build
import cryst as cr
import proj
import wrap

DESIGN = [{"module": "LawModel", "cfg": "LawModelQuick.cfg", "tier": "quick"}, {"module": "LawModel", "cfg": "LawModel.cfg", "tier": "thorough"}]
RULE = "1651 magnetic space groups (types I-IV, primitive by independent reduction) x k x frames x compatible lattices x {Neto, random}; magnetic point groups; non-trivial: the little group has a time-reversing operation"
ASSUMES = ["fixed-point comparison (2^-13), tolerance 0.6%"]
TAG = "C10"
CHUNK = 500


def one(G, kk, D, rng, u, q, tag, allrows):
    from spgrep import get_crystallographic_pointgroup_spinor_irreps_from_symmetry as fpg
    from spgrep import get_spacegroup_spinor_irreps_from_primitive_symmetry as f
    L = cr.invariant_lattice(G.R, rng, handed="left" if rng.random() < 0.25 else None)
    L, _ = cr.blurred(L, rng)
    method = ["Neto", "random"][int(rng.random() < 0.4)]
    th = G.S if rng.random() < 0.8 else G.S.astype(bool)
    pg, flg = tag == "pointgroup", tag == "little"
    if flg:
        from spgrep.corep import enumerate_spinor_small_corepresentations as fl
        lg = build.little(G, kk, D)
        G, th = cr.Group(G.R[lg], G.T[lg], G.S[lg]), th[lg]
    kf, tolkw = wrap.nearby(rng, kk / D)
    if pg:
        st, v, w = proj.call(fpg, L, G.rot, time_reversals=th, method=method)
    elif flg:
        st, v, w = proj.call(fl, L, G.rot, G.t, th, kf, method="Neto" if tolkw else method, **tolkw)
    elif not (kk % D).any() and rng.random() < 0.5:
        tag, kk, D, tolkw = "default-k", kk * 0, 1, {}
        st, v, w = proj.call(f, L, G.rot, G.t, th, method=method)
    else:
        st, v, w = proj.call(f, L, G.rot, G.t, th, kf, method="Neto" if tolkw else method, **tolkw)
    ans = {"status": st}
    lg = build.little(G, kk, D)
    if st == "ok":
        try:
            ans.update(irreps=build.irreps_json(v[0]), ind=proj.ints(v[1]) if len(v[1]) else [], z=proj.ints(v[2]), U=proj.mats(v[3]), anti=proj.ints(np.asarray(v[4]).astype(int)),
                       map=list(range(1, len(G) + 1)) if pg or flg else proj.idx1(v[5]))
        except Exception:  # noqa: BLE001
            ans["status"] = "malformed"
    cid = "%s-u%d-%s-%s-%s" % (TAG, u, q, tag, method)
    return "SmallReps", build.smallreps(cid, G, kk, D, ans, allrows=allrows, spin=True, lattice=L, wantind=True, fine_ok=not tolkw), {
        "id": cid, "kind": "%s-%s" % (tag, method), "uni": u, "k": [int(x) for x in kk], "den": int(D), "order": len(lg), "nontrivial": bool(G.S[lg].any()),
        "status": st if st == "ok" else "%s %s" % (st, str(v)[:80])}


def cases(tier, seed, shard, nshard):
    per = 6 if tier == "quick" else 48
    for u in range(1 + shard, 1652, nshard):
        rng = np.random.default_rng([seed, u, zlib.crc32(TAG.encode())])
        _, R, T, S = cr.prim_mag(u)
        for q, (k, D) in enumerate(cr.sample_kpoints(rng, per)):
            G, kk = cr.random_frame(cr.Group(R, T, S), k, D, rng, strong=True, fine=True)
            yield one(G, kk, D, rng, u, q, "little" if rng.random() < 0.15 else "space", 10)
        if rng.random() < (0.25 if tier == "quick" else 1):
            # distinct point operations only (type IV groups have R and R' : both kept)
            G, kk = cr.random_frame(cr.Group(R, T * 0, S), np.zeros(3, int), 1, rng, strong=True)
            G.T = G.T * 0
            yield one(G, kk * 0, 1, rng, u, "pg", "pointgroup", 10)
