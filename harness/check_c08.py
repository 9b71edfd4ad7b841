"""C08: SU(2) cover, spin factor systems, time reversal."""
import zlib

import numpy as np

import build
import check_c06
import cryst as cr
import proj

RULE = "point groups of 530 settings and magnetic point groups of 1651 types in random bases and orders x random compatible lattices (orientation, handedness, scale 1e-3..1e3, aligned and tilted axes); single rotations; non-trivial: order above 1"
ASSUMES = ["fixed-point comparison (2^-13), tolerance 0.8% on rotation entries"]
TAG = "C08"
CHUNK = 1500


def lattice(R, rng):
    for _ in range(20):
        L = cr.invariant_lattice(R, rng, handed="left" if rng.random() < 0.3 else None)
        if rng.random() < 0.35:
            # aligned orientation: axes of operations along coordinate axes
            q = np.linalg.qr(L.T)[0]
            L = L @ q @ np.eye(3)[rng.permutation(3)]
        L = L * 10.0 ** rng.integers(-3, 4)
        if abs(np.linalg.det(build.fixlat(L))) > 0.03:
            return L
    return None


def signed(R, U):
    mul = np.array(cr.mul_table(R, np.zeros((len(R), 3), int), np.zeros(len(R), int)))
    w = np.einsum("iab,jbc,ijac->ij", U, U, U[mul].conj())
    return np.where(w.real > 0, 1, -1), U


def case(cid, kind, R, S, L, call, precise=True):
    Z = np.zeros((len(R), 3), int)
    G = cr.Group(R, Z, S)
    mul = [[x + 1 for x in r] for r in cr.mul_table(R, Z, S)]
    st, v, w = proj.call(call)
    ans = {"status": st, "U": proj.mats(None), "z": [], "anti": [], "fine": []}
    if st == "ok":
        try:
            ans.update(z=proj.ints(v[0]), U=proj.mats(v[1]), anti=proj.ints(np.asarray(v[2]).astype(int)) if len(v) > 2 else [0] * len(R))
            rg = np.random.default_rng(len(R))
            for a, b in rg.integers(0, len(R), (3, 2)) if precise else ():
                ans["fine"].append({"a": int(a) + 1, "b": int(b) + 1, "x": build.fine(v[1][a]), "y": build.fine(v[1][b]), "z": build.fine(v[1][mul[a][b] - 1])})
        except Exception:  # noqa: BLE001
            ans["status"] = "malformed"
    return "SpinCover", {"kind": "group", "id": cid, "ops": G.json(), "mul": mul, "lat": proj.fx(build.fixlat(L)).ravel().tolist(),
                         "cart": proj.fx(build.cart(L, R)).reshape(len(R), 9).tolist(), "ans": ans}, {
        "id": cid, "kind": kind, "order": len(R), "nontrivial": len(R) > 1, "status": st if st == "ok" else "%s %s" % (st, str(v)[:80])}


def cases(tier, seed, shard, nshard):
    from spgrep import corep, spinor
    per = 5 if tier == "quick" else 30
    for h in range(1 + shard, 531, nshard):
        rng = np.random.default_rng([seed, h, zlib.crc32(TAG.encode())])
        for q in range(per):
            R = check_c06.pg(h, rng)
            L = lattice(R, rng)
            if L is None or np.abs(R).max() > 10:
                continue
            B, blur = cr.blurred(L, rng)
            if rng.random() < 0.25:
                # one rotation at a time: some choice of signs must make them a cover
                yield case("C08-h%d-%d-single" % (h, q), "single-blurred" if blur else "single", R, np.zeros(len(R), int), B,
                           lambda: signed(R, np.array([spinor.get_spinor_unitary_rotation(B, r) for r in R])), not blur)
            else:
                yield case("C08-h%d-%d" % (h, q), "linear-blurred" if blur else "linear", R, np.zeros(len(R), int), B, lambda: spinor.get_spinor_factor_system(B, R), not blur)
            r = R[rng.integers(len(R))]
            r = r if round(np.linalg.det(r)) == 1 else -r
            c = build.cart(L, r[None])[0]
            st, v, w = proj.call(spinor.get_rotation_angle_and_axis, c)
            ans = {"status": st, "theta": -1, "norm": 0, "q": [0] * 4}
            if st == "ok":
                try:
                    th, ax = float(v[0]), np.asarray(v[1], float)
                    ans.update(theta=int(round(th / np.pi * 1024)), norm=int(proj.fx(ax @ ax)), q=proj.fx([np.cos(th / 2)] + list(np.sin(th / 2) * ax)).tolist())
                except Exception:  # noqa: BLE001
                    ans["status"] = "malformed"
            cid = "C08-h%d-%d-axis" % (h, q)
            yield "SpinCover", {"kind": "axis", "id": cid, "ops": cr.Group(r[None], np.zeros((1, 3), int)).json(), "lat": proj.fx(build.fixlat(L)).ravel().tolist(),
                                "cart": [proj.fx(c).ravel().tolist()], "ans": ans}, {"id": cid, "kind": "axis", "nontrivial": not (r == cr.I3).all(), "status": str(st)}
    todo = list(range(1 + shard, 1652, nshard))
    for u in todo:
        rng = np.random.default_rng([seed, u, zlib.crc32((TAG + "m").encode())])
        _, R, T, S = cr.prim_mag(u)
        U = cr.rand_unimodular(rng, int(rng.integers(0, 5)))
        R = np.array([cr.int_inv(U) @ r @ U for r in R])
        perm = rng.permutation(len(R))
        R, S = R[perm], S[perm]
        L = lattice(R, rng)
        if L is None or np.abs(R).max() > 10:
            continue
        L, blur = cr.blurred(L, rng)
        yield case("C08-u%d" % u, "magnetic-blurred" if blur else "magnetic", R, S, L, lambda: corep.get_corep_spinor_factor_system(L, R, S), not blur)
