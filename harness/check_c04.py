"""C04: irreps of crystal structures in the input cell."""
import zlib

import build
import cryst as cr
import proj
import wrap
import numpy as np

RULE = "230/530 space groups x {conventional, primitive} x {standard, random origin, sheared, supercell} cells with 2-3 general orbits x k in the dual or a supplied reciprocal basis; non-trivial: little group of order > 1"
ASSUMES = ["structures whose symmetry spglib itself does not identify at symprec 1e-5 are skipped", "generic orbits have exactly the intended symmetry"]
TAG = "C04"
CHUNK = 400
KINDS = ["conv-std", "conv-origin", "conv-shear", "conv-super", "prim-origin", "prim-shear", "prim-super", "prim-super"]


def cases(tier, seed, shard, nshard):
    from spgrep import get_spacegroup_irreps as f
    per = 8 if tier == "quick" else 40
    for h in range(1 + shard, 531, nshard):
        rng = np.random.default_rng([seed, h, zlib.crc32(TAG.encode())])
        for q in range(per):
            kind = KINDS[rng.integers(len(KINDS))]
            if len(cr.hall_ops(h)[0]) > 96 and kind.startswith("conv") and rng.random() < 0.7:
                kind = kind.replace("conv", "prim")
            L, pos, num, _, G = wrap.structure(kind, h, rng)
            kw = {}
            if rng.random() < 0.2:
                L, G, symprec = wrap.strained(L, G, rng)
                kw = {"symprec": symprec} if symprec != 1e-5 or rng.random() < 0.3 else {}
                kind += "-strain"
            if len(pos) > 400 or not wrap.identified(L, pos, num, None, G, kw.get("symprec", 1e-5)):
                continue
            for w in range(2):
                k, D = wrap.kcell(rng, G)
                kf, recip = wrap.kspec(rng, L, k, D)
                method = ["Neto", "random"][int(rng.random() < 0.35)]
                kf, tolkw = wrap.nearby(rng, kf)
                st, v, nw = proj.call(f, L, pos, num, kf, lists=recip is None, method="Neto" if tolkw else method, reciprocal_lattice=recip, **kw, **tolkw)
                ans, O = {"status": st}, G
                if st == "ok":
                    try:
                        O = build.observed(v[1], v[2], D=G.D)
                        ans.update(map=proj.idx1(v[3]), irreps=build.irreps_json(v[0]))
                    except Exception:  # noqa: BLE001
                        ans["status"], O = "malformed", G
                cid = "%s-h%d-%d-%d-%s-%s" % (TAG, h, q, w, kind, method)
                c = build.smallreps(cid, O, k, D, ans, allrows=8, truth=G, fine_ok=not tolkw)
                yield "SmallReps", c, {"id": cid, "kind": kind, "hall": h, "k": [int(x) for x in k], "den": int(D), "recip": recip is not None, "nops": len(G), "natoms": len(pos),
                                       "status": st if st == "ok" else "%s %s" % (st, str(v)[:80])}
