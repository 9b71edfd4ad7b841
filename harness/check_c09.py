"""C09: spinor irreps (primitive cell, point groups, crystal structures)."""
import zlib

import numpy as np

import build
import cryst as cr
import proj
import wrap

RULE = "530 Hall settings x k x frames x random compatible lattices (orientation, handedness) via the primitive entry point; point groups; structures in conventional/primitive/sheared/supercells; non-trivial: little group of order > 1"
ASSUMES = ["fixed-point comparison (2^-13), tolerance 0.6%", "structures not identified by spglib itself are skipped"]
TAG = "C09"
CHUNK = 400


def distinct(R):
    _, i = np.unique(np.asarray(R).reshape(len(R), 9), axis=0, return_index=True)
    R = np.asarray(R)[np.sort(i)]
    return R, np.zeros((len(R), 3), int)


def prim_cases(tier, seed, shard, nshard):
    from spgrep import get_crystallographic_pointgroup_spinor_irreps_from_symmetry as fpg
    from spgrep import get_spacegroup_spinor_irreps_from_primitive_symmetry as f
    from spgrep.spinor import enumerate_spinor_small_representations as flg
    per = 16 if tier == "quick" else 90
    for h in range(1 + shard, 531, nshard):
        rng = np.random.default_rng([seed, h, zlib.crc32(TAG.encode())])
        _, R, T = cr.prim_hall(h)
        for q, (k, D) in enumerate(cr.sample_kpoints(rng, per)):
            pg = rng.random() < 0.15
            G, kk = cr.random_frame(cr.Group(R, T * 0 if pg else T), k, D, rng, strong=True, fine=not pg)
            if pg:
                G.T = G.T * 0
                kk, D = kk * 0, 1
            L = cr.invariant_lattice(G.R, rng, handed="left" if rng.random() < 0.25 else None)
            L, _ = cr.blurred(L, rng)
            method = ["Neto", "random"][int(rng.random() < 0.4)]
            kf, tolkw = wrap.nearby(rng, kk / D)
            if pg:
                kind = "pointgroup-" + method
                st, v, w = proj.call(fpg, L, G.rot, method=method)
            elif rng.random() < 0.15:
                # the little group itself; translations and k default to zero
                kind = "little-" + method
                lg = build.little(G, kk, D)
                G = cr.Group(G.R[lg], G.T[lg])
                if rng.random() < 0.2:
                    G.T, kk, D = G.T * 0, kk * 0, 1
                    G = cr.Group(*distinct(G.R))
                    st, v, w = proj.call(flg, L, G.rot, method="Neto" if tolkw else method, **tolkw)
                else:
                    st, v, w = proj.call(flg, L, G.rot, G.t, kf, method="Neto" if tolkw else method, **tolkw)
                if st == "ok":
                    st, v = ("ok", tuple(v) + (np.arange(len(G)),)) if isinstance(v, tuple) else ("malformed", v)
            elif not (kk % D).any() and rng.random() < 0.5:
                kind, kk, D, tolkw = "default-k-" + method, kk * 0, 1, {}
                st, v, w = proj.call(f, L, G.rot, G.t, method=method)
            else:
                kind = method
                st, v, w = proj.call(f, L, G.rot, G.t, kpoint=kf, method="Neto" if tolkw else method, **tolkw)
            ans = {"status": st}
            if st == "ok":
                try:
                    ans.update(irreps=build.irreps_json(v[0]), z=proj.ints(v[1]), U=proj.mats(v[2]),
                               map=list(range(1, len(G) + 1)) if pg else proj.idx1(v[3]), anti=[0] * len(build.little(G, kk, D)))
                except Exception:  # noqa: BLE001
                    ans["status"] = "malformed"
            cid = "%s-h%d-%d-%s" % (TAG, h, q, kind)
            n = len(build.little(G, kk, D))
            yield "SmallReps", build.smallreps(cid, G, kk, D, ans, allrows=12, spin=True, lattice=L, fine_ok=not tolkw), {
                "id": cid, "kind": kind, "hall": h, "k": [int(x) for x in kk], "den": int(D), "order": n, "nontrivial": n > 1,
                "status": st if st == "ok" else "%s %s" % (st, str(v)[:80])}


def wrap_cases(tier, seed, shard, nshard):
    from spgrep import get_spacegroup_spinor_irreps as f
    import check_c04
    step = 2 if tier == "quick" else 1
    for h in range(1 + shard, 531, nshard):
        if (h // nshard + seed) % step:
            continue
        rng = np.random.default_rng([seed, h, zlib.crc32((TAG + "w").encode())])
        for q in range(3 if tier == "quick" else 20):
            kind = check_c04.KINDS[rng.integers(len(check_c04.KINDS))]
            if len(cr.hall_ops(h)[0]) > 96 and kind.startswith("conv") and rng.random() < 0.7:
                kind = kind.replace("conv", "prim")
            L, pos, num, _, G = wrap.structure(kind, h, rng)
            opt = {}
            if rng.random() < 0.25:
                L, G, opt["symprec"] = wrap.strained(L, G, rng)
                kind += "-strain"
            if len(pos) > 400 or not wrap.identified(L, pos, num, None, G, **opt):
                continue
            for w in range(2):
                k, D = wrap.kcell(rng, G)
                kf, recip = wrap.kspec(rng, L, k, D)
                kf, tolkw = wrap.nearby(rng, kf)
                kw = dict(opt, **tolkw)
                if rng.random() < 0.15:
                    k, D, recip = k * 0, 1, None
                else:
                    kw["kpoint"] = kf
                method = ["Neto", "random"][int(rng.random() < 0.35)]
                st, v, nw = proj.call(f, L, pos, num, lists=recip is None, method="Neto" if tolkw else method, reciprocal_lattice=recip, **kw)
                ans, O = {"status": st}, G
                if st == "ok":
                    try:
                        O = build.observed(v[3], v[4], D=G.D)
                        ans.update(map=proj.idx1(v[5]), irreps=build.irreps_json(v[0]), z=proj.ints(v[1]), U=proj.mats(v[2]), anti=[0] * len(v[5]))
                    except Exception:  # noqa: BLE001
                        ans["status"], O = "malformed", G
                cid = "%s-h%d-%d-%d-%s-%s" % (TAG, h, q, w, kind, method)
                yield "SmallReps", build.smallreps(cid, O, k, D, ans, allrows=8, truth=G, spin=True, lattice=L, fine_ok=not tolkw), {
                    "id": cid, "kind": kind, "hall": h, "k": [int(x) for x in k], "den": int(D), "recip": recip is not None, "nops": len(G), "natoms": len(pos),
                    "status": st if st == "ok" else "%s %s" % (st, str(v)[:80])}


def cases(tier, seed, shard, nshard):
    yield from prim_cases(tier, seed, shard, nshard)
    yield from wrap_cases(tier, seed, shard, nshard)
