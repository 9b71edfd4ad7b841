"""C11: co-representations of magnetic structures in the input cell."""
import zlib

import numpy as np

import build
import cryst as cr
import proj
import wrap

RULE = "1651 magnetic space groups (type II with zero moments) realised as collinear structures in conventional/primitive/sheared/supercells x k in the dual or supplied reciprocal basis; non-trivial: the little group has a time-reversing operation"
ASSUMES = ["structures whose magnetic symmetry spglib itself does not identify are skipped", "fixed-point comparison (2^-13), tolerance 0.6%"]
TAG = "C11"
CHUNK = 300


def cases(tier, seed, shard, nshard):
    from spgrep import get_spacegroup_spinor_irreps as f
    import check_c04
    for u in range(1 + shard, 1652, nshard):
        rng = np.random.default_rng([seed, u, zlib.crc32(TAG.encode())])
        for q in range(2 if tier == "quick" else 8):
            kind = check_c04.KINDS[rng.integers(len(check_c04.KINDS))]
            if len(cr.mag_ops(u)[0]) > 64 and kind.startswith("conv") and rng.random() < 0.8:
                kind = kind.replace("conv", "prim")
            L, pos, num, mm, G = wrap.structure(kind, u, rng, maxatoms=100, mag=True)
            if len(pos) > 300 or len(G) > 400:
                continue
            opt = {}
            if rng.random() < 0.2:
                L, G, opt["symprec"] = wrap.strained(L, G, rng)
                kind += "-strain"
            k, D = wrap.kcell(rng, G)
            kf, recip = wrap.kspec(rng, L, k, D)
            kf, tolkw = wrap.nearby(rng, kf)
            method = ["Neto", "random"][int(rng.random() < 0.35)]
            karg = {"kpoint": kf}
            if not (k % D).any() and rng.random() < 0.5:
                kind, k, D, karg, tolkw, recip = kind + "-default-k", k * 0, 1, {}, {}, None

            def work():
                if not wrap.identified(L, pos, num, mm, G, **opt):
                    return None
                st, v, nw = proj.call(f, L, pos, num, mm, lists=recip is None, method="Neto" if tolkw else method, reciprocal_lattice=recip, **karg, **opt, **tolkw)
                return st, (v if st == "ok" else str(v)[:80])

            alive, res = proj.forked(work)  # spglib 2.4 crashes on some sheared cells and supercells
            if not alive or res is None:
                continue
            st, v = res
            ans, O = {"status": st}, G
            if st == "ok":
                try:
                    O = build.observed(v[4], v[5], v[6], D=G.D)
                    ans.update(map=proj.idx1(v[7]), irreps=build.irreps_json(v[0]), z=proj.ints(v[1]), U=proj.mats(v[2]), anti=proj.ints(np.asarray(v[3]).astype(int)))
                except Exception:  # noqa: BLE001
                    ans["status"], O = "malformed", G
            cid = "%s-u%d-%d-%s-%s" % (TAG, u, q, kind, method)
            lg = build.little(G, k, D)
            yield "SmallReps", build.smallreps(cid, O, k, D, ans, allrows=8, truth=G, spin=True, lattice=L, fine_ok=not tolkw), {
                "id": cid, "kind": kind, "uni": u, "k": [int(x) for x in k], "den": int(D), "recip": recip is not None, "nops": len(G), "natoms": len(pos),
                "nontrivial": bool(G.S[lg].any()), "status": st if st == "ok" else "%s %s" % (st, str(v)[:80])}
