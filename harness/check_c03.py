"""C03: the little group is exactly the stabiliser of k."""
import zlib

import numpy as np

import build
import cryst as cr
import proj

RULE = "530 space groups and 1651 magnetic groups (primitive) x k on rational grids, on symmetry elements, displaced by 1/1009..1/1000003, shifted by reciprocal vectors x random frames; non-trivial: some operation is not selected or the order is above 1"
ASSUMES = ["k-vectors are rational, far (>= 1e-6) from or exactly on symmetry elements"]
TAG = "C03"


def kpoint(rng):
    if rng.random() < 0.5:
        (k, D), = cr.sample_kpoints(rng, 1)
        return k, D
    # slightly off a special point
    k0, D0 = cr.SPECIAL[rng.integers(len(cr.SPECIAL))]
    M = int(rng.choice([1009, 10007, 100003, 250007]))
    e = rng.integers(-1, 2, 3)
    return np.array(k0) * M + e, D0 * M


def tolerance(rng, G, kk, D):
    """(tolerance in units of 1/D, keyword): an explicit atol whose selection is a group"""
    if D <= 1000:
        return 0, {"atol": float(rng.choice([1e-5, 1e-4, 1e-3]))}
    for _ in range(5):
        tol = int(rng.integers(0, 5))
        res = np.array([(-r.T @ kk if s else r.T @ kk) - kk for r, s in zip(G.R, G.S)])
        res = (res + D // 2) % D - D // 2
        sel = np.all(np.abs(res) <= tol, axis=1)
        ops = [(r, s) for r, s in zip(G.R[sel], G.S[sel])]
        had = {(r.tobytes(), int(s)) for r, s in ops}
        if all(((a @ b).tobytes(), int(x ^ y)) in had for a, x in ops for b, y in ops):
            return tol, {"atol": (tol + 0.5) / D}
    return 0, {}


def noisy_identity(rng, G, kw):
    """the identity need be a lattice translation of zero only up to the tolerance"""
    t = np.array(G.t, float)
    e = [i for i, r in enumerate(G.R) if G.S[i] == 0 and np.array_equal(r, np.eye(3, dtype=int))][0]
    t[e] += min(0.4 * kw.get("atol", 1e-8), 2e-5) * rng.uniform(-1, 1, 3)
    return t


def cases(tier, seed, shard, nshard):
    from spgrep import get_spacegroup_irreps_from_primitive_symmetry as prim
    from spgrep import get_spacegroup_spinor_irreps_from_primitive_symmetry as mprim
    from spgrep.group import get_little_group
    per = 24 if tier == "quick" else 150
    todo = [("h", h) for h in range(1, 531)] + [("m", u) for u in range(1, 1652)]
    for typ, g in todo[shard::nshard]:
        rng = np.random.default_rng([seed, g, zlib.crc32((TAG + typ).encode())])
        if typ == "h":
            _, R, T = cr.prim_hall(g)
            S = np.zeros(len(R), int)
        else:
            _, R, T, S = cr.prim_mag(g)
        for q in range(per if typ == "h" else max(2, per // 3)):
            k, D = kpoint(rng)
            G, kk = cr.random_frame(cr.Group(R, T, S), k, D, rng, strong=rng.random() < 0.8, fine=True)
            kf = kk / D
            u = rng.random()
            lops = None
            tol, kw = 0, {}
            if u < 0.6:
                kind = typ + "-get_little_group"
                if D > 1000 and rng.random() < 0.5:
                    tol = int(rng.integers(0, 5))
                    kw = {"atol": (tol + 0.5) / D}
                    kind += "-atol"
                if typ == "h":
                    if rng.random() < 0.2 and np.all(kk % D == 0) and not kw:
                        kf = [float(x) for x in kf]
                    st, v, w = proj.call(get_little_group, G.R, G.t, kf, **kw)
                else:
                    st, v, w = proj.call(get_little_group, G.R, G.t, kf, time_reversals=G.S, **kw)
                ans = {"status": st}
                if st == "ok":
                    try:
                        m = proj.idx1(v[2])
                        rr, tt = np.asarray(v[0]), np.asarray(v[1])
                        lops = [[a, b, int(G.S[i - 1])] for a, b, i in zip(proj.ints(rr.reshape(len(rr), 9)), proj.num(tt, G.D, 1e-9), m)]
                        ans.update(map=m, lops=lops)
                    except Exception:  # noqa: BLE001
                        ans["status"] = "malformed"
            elif typ == "h":
                kind = "h-entry"
                tt = np.array(G.t, float)
                if rng.random() < 0.4:
                    # an explicit tolerance governs both k and the translation of the identity
                    kind += "-atol"
                    tol, kw = tolerance(rng, G, kk, D)
                    tt = noisy_identity(rng, G, kw)
                st, v, w = proj.call(prim, G.R, tt, kf, real=bool(rng.random() < 0.2), **kw)
                ans = {"status": st}
                if st == "ok":
                    ans["map"] = proj.idx1(v[1])
            else:
                kind = "m-entry"
                L = cr.invariant_lattice(G.R, rng)
                tt = np.array(G.t, float)
                if rng.random() < 0.4:
                    kind += "-atol"
                    tol, kw = tolerance(rng, G, kk, D)
                    tt = noisy_identity(rng, G, kw)
                st, v, w = proj.call(mprim, L, G.R, tt, G.S, kf, **kw)
                ans = {"status": st}
                if st == "ok":
                    ans["map"] = proj.idx1(v[-1])
            n = len(build.little(G, kk, D))
            cid = "%s-%s%d-%d-%s" % (TAG, typ, g, q, kind)
            yield "SmallReps", build.smallreps(cid, G, kk, D, ans, wantreps=False, wantlops="get_little_group" in kind, tol=tol), {
                "id": cid, "kind": kind, "group": g, "k": [int(x) for x in kk], "den": int(D), "order": n, "nontrivial": n > 1 or n < len(G), "status": st if st == "ok" else "%s %s" % (st, str(v)[:80])}
