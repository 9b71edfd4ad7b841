"""C07: physically irreducible representations."""
import zlib

import numpy as np

import build
import cryst as cr
import proj

RULE = "530 Hall settings x k (half with 2k reciprocal) x frames x {Neto, random} x {enumerate_small_representations, space-group entry, point-group entry}; non-trivial: order above 1"
ASSUMES = ["fixed-point comparison (2^-13), tolerance 0.6%"]
TAG = "C07"
CHUNK = 700


def guess(X, n):
    out = []
    for x in X:
        try:
            c = np.einsum("kii->k", x)
            out.append({1: 1, 2: 0, 4: -1}.get(int(round((abs(c) ** 2).sum() / n)), 1))
        except Exception:  # noqa: BLE001
            out.append(1)
    return out


def cases(tier, seed, shard, nshard):
    from spgrep import get_crystallographic_pointgroup_irreps_from_symmetry as fpg
    from spgrep import get_spacegroup_irreps_from_primitive_symmetry as fsg
    from spgrep.irreps import enumerate_small_representations as fsm
    from spgrep.irreps import enumerate_unitary_irreps as fun
    per = 24 if tier == "quick" else 130
    for h in range(1 + shard, 531, nshard):
        rng = np.random.default_rng([seed, h, zlib.crc32(TAG.encode())])
        _, R, T = cr.prim_hall(h)
        for q in range(per):
            (k, D), = cr.sample_kpoints(rng, 1)
            if rng.random() < 0.55:
                k, D = rng.integers(0, 2, 3), 2
            kind = ["small", "space", "point", "unitary"][rng.choice(4, p=[0.5, 0.3, 0.1, 0.1])]
            G, kk = cr.random_frame(cr.Group(R, T), k, D, rng, strong=rng.random() < 0.8, fine=True)
            if kind in ("point", "unitary"):
                G.T, kk, D = G.T * 0, kk * 0, 1
            method = ["Neto", "random"][int(rng.random() < 0.35)]
            lg = build.little(G, kk, D)
            H = cr.Group(G.R[lg], G.T[lg], None, G.D)
            n = len(H)
            realk = ((2 * kk) % D == 0).all()
            ind = None
            if kind == "small":
                st, v, w = proj.call(fsm, H.R, H.t, kk / D, real=True, method=method)
                if st == "ok":
                    v, ind = v
            elif kind == "space":
                st, v, w = proj.call(fsg, G.rot, G.t, kk / D, real=True, method=method)
                if st == "ok":
                    v = v[0]
            elif kind == "unitary":
                st, v, w = proj.call(fun, H.R, real=True, method=method)
                if st == "ok":
                    v, ind = v
            else:
                st, v, w = proj.call(fpg, H.R, real=True, method=method)
            ans = {"status": st, "irreps": [], "isreal": [], "ind": [], "cplx": [], "fine": []}
            if st == "ok":
                try:
                    if ind is None:
                        ind = guess(v, n) if realk else [0] * len(v)
                    ans.update(irreps=build.irreps_json(v), isreal=[int(not np.iscomplexobj(x)) for x in v], ind=proj.ints(ind))
                    if not realk:
                        ans["cplx"] = build.irreps_json(fsm(H.R, H.t, kk / D, method=method)[0])
                except Exception:  # noqa: BLE001
                    ans["status"] = "malformed"
            rows = list(range(n)) if n <= 8 else cr.generators(H.R, H.T, H.S)
            mul = cr.mul_table(H.R, H.T, H.S, rows)
            if st == "ok" and ans["status"] == "ok":
                N = D * H.D
                ex = [[int(kk @ (H.T[a] + H.R[a] @ H.T[b] - H.T[mul[q2][b]])) % N for b in range(n)] for q2, a in enumerate(rows)]
                ans["fine"] = [f for f in build.law_samples(v, rows, mul, ex, N) if f["m"] in (0, 12)]
            cid = "C07-h%d-%d-%s-%s" % (h, q, kind, method)
            yield "RealReps", {"id": cid, "ops": H.json(), "Dt": H.D, "k": [int(x) for x in kk], "Dk": int(D), "rows": [r + 1 for r in rows], "mul": [[x + 1 for x in r] for r in mul], "ans": ans}, {
                "id": cid, "kind": kind + "-" + method, "hall": h, "k": [int(x) for x in kk], "den": int(D), "order": n, "nontrivial": n > 1, "real_k": bool(realk), "status": st if st == "ok" else "%s %s" % (st, str(v)[:80])}
