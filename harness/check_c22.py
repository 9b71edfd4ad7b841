"""C22: numeric helpers."""
import zlib

import numpy as np
import spglib

import cryst as cr
import proj

RULE = "roots at every angle m/N including next to the negative real axis, n 1..12; integer tensors of rank 1..4; all n in 2..2000 for primality; arrays clearly inside/outside of the tolerances; all 530 Hall numbers; subspaces with prescribed principal angles in random bases; non-trivial: not the identity request"
ASSUMES = ["spglib's tabulated operations are the reference for Hall numbers", "prescribed principal angles are realised by construction (orthonormal frames in a random unitary frame)"]
TAG = "C22"
CHUNK = 4000


def gints(a):
    a = np.asarray(a)
    return [list(t) for t in zip(proj.ints(np.real(a).ravel()), proj.ints(np.imag(a).ravel()))]


def frames(rng, k, l, n, angles, N, cplx):
    """two bases with the given principal angles"""
    m = min(k, l)
    th = 2 * np.pi * np.array(angles) / N
    q1, q2 = np.zeros((k, n)), np.zeros((l, n))
    for i in range(m):
        q1[i, i] = 1
        q2[i, i], q2[i, m + i] = np.cos(th[i]), np.sin(th[i])
    for i in range(m, k):
        q1[i, m + i] = 1        # rows 2m.. of the space
    for i in range(m, l):
        q2[i, m + i] = 1
    a = rng.standard_normal((n, n)) + (1j * rng.standard_normal((n, n)) if cplx else 0)
    V = np.linalg.qr(a)[0]
    return q1 @ V, q2 @ V


def cases(tier, seed, shard, nshard):
    from spgrep.transform import get_centering, get_crystal_system
    from spgrep.utils import get_symmetry_from_hall_number, grassmann_distance, is_integer_array, is_prime, mode_dot, ndarray2d_to_integer_tuple, nroot
    quick = tier == "quick"
    rng = np.random.default_rng([seed, shard, zlib.crc32(TAG.encode())])

    def out(kind, i, c, ans, nontrivial=True, **info):
        cid = "C22-%s-%d-%s" % (kind, shard, i)
        return "Numeric", {"kind": kind, "id": cid, **c, "ans": ans}, {"id": cid, "kind": kind, "nontrivial": bool(nontrivial), "status": ans["status"], **info}

    for i in range(1200 if quick else 4000):
        N = int(rng.choice([1, 2, 3, 4, 5, 6, 8, 12, 24, 97, 360, 999, 1000]))
        k = int(rng.integers(1, 13)) if rng.random() < 0.85 else int(rng.integers(13, 49))
        k = min(k, 32000 // N)
        m = int(rng.integers(-N, 2 * N + 1))
        if rng.random() < 0.25:
            m = N // 2 + int(rng.integers(-1, 2))
        q = int(rng.integers(16, 193)) if rng.random() < 0.97 else 0
        z = complex((q / 64) ** k * np.exp(2j * np.pi * ((m % N) / N)))
        if q and 4 * (m % N) % N == 0 and rng.random() < 0.7:
            z = complex((q / 64) ** k * [1, 1j, -1, -1j][4 * (m % N) // N])
        st, v, w = proj.call(nroot, np.complex128(z), k)
        good = st == "ok" and np.ndim(v) == 0
        yield out("nroot", i, {"m": m, "N": N, "k": k, "q": q}, {"status": st, "re": int(proj.fx(np.real(v))) if good else proj.BIG, "im": int(proj.fx(np.imag(v))) if good else proj.BIG}, k > 1, z=str(z), value=str(v))
    for i in range(200 if quick else 500):
        r = int(rng.integers(1, 6))
        eq = rng.random() < 0.6
        dims = [int(rng.integers(1, 5 if r < 5 else 4))] * r if eq else [int(x) for x in rng.integers(1, 4, r)]
        cols = [int(x) for x in rng.integers(1, 5 if r < 4 else 4 if r < 5 else 3, r)]
        cplx = rng.random() < 0.4

        def rnd(*s):
            a = rng.integers(-5, 6, s)
            return a + 1j * rng.integers(-5, 6, s) if cplx else a.astype(float)
        T = rnd(*dims)
        Ms = [rnd(dims[a], cols[a]) for a in range(r)]
        if rng.random() < 0.2 and not cplx:
            T, Ms = T.astype(int), [x.astype(int) for x in Ms]
        st, v, w = proj.call(mode_dot, T, Ms)
        ans = {"status": st, "shape": list(np.shape(v)) if st == "ok" else [], "flat": gints(v) if st == "ok" else []}
        yield out("mode", i, {"dims": dims, "cols": cols, "tensor": gints(T), "mats": [gints(x) for x in Ms]}, ans, r > 1)
    lo = 2 + 250 * shard if quick else 2 + 1000 * shard
    vals = []
    st = "ok"
    for x in range(lo, lo + (250 if quick else 1000)):
        st, v, w = proj.call(is_prime, x)
        vals.append(int(v) if st == "ok" and isinstance(v, (bool, np.bool_)) else proj.BIG)
        if st != "ok":
            break
    xs = [int(x) for x in rng.choice([p for p in range(2, 160) if all(p % y for y in range(2, p))], 6)]
    xs = [x * x for x in xs] + [a * b for a, b in zip(xs, xs[1:])] + [a ** 3 for a in xs if a < 26] + [int(x) for x in rng.integers(2000, 25000, 30)] + [2 ** int(rng.integers(10, 15)), 24989, 22943, 21961, 561, 1105, 1729, 2465, 6601, 8911]
    pv = []
    for x in xs:
        s2, v, w = proj.call(is_prime, x)
        pv.append(int(v) if s2 == "ok" and isinstance(v, (bool, np.bool_)) else proj.BIG)
    yield out("primes", 0, {"xs": xs}, {"status": "ok", "vals": pv})
    yield out("prime", 0, {"lo": lo}, {"status": st, "vals": vals})
    for i in range(500 if quick else 3000):
        a, r = (8, 5) if rng.random() < 0.6 else (int(rng.integers(2, 11)), int(rng.integers(3, 10)))
        vs = []
        n = int(rng.integers(1, 10))
        allin = rng.random() < 0.5
        while len(vs) < n:
            k = int(rng.integers(-10 ** int(rng.integers(0, 4)), 10 ** int(rng.integers(0, 4)) + 1))
            e = int(rng.integers(1, 13))
            s = int(rng.integers(-1, 2))
            dg = len(str(abs(k))) if k else 0
            inside = s == 0 or e >= a + 1 or (k and e >= r + 2 - dg)
            outside = s and e <= a - 1 and e <= r - dg - 1
            if (inside and (allin or rng.random() < 0.7)) or (outside and not allin):
                vs.append([k, s, e])
        x = np.array([k + s * 10.0 ** -e for k, s, e in vs])
        x = x.reshape((1, -1) if rng.random() < 0.5 else (-1, 1)) if rng.random() < 0.5 else x
        st, v, w = proj.call(is_integer_array, x) if (a, r) == (8, 5) else proj.call(is_integer_array, x, rtol=10.0 ** -r, atol=10.0 ** -a)
        yield out("intarray", i, {"values": vs, "atol": a, "rtol": r}, {"status": st, "value": int(v) if st == "ok" and isinstance(v, (bool, np.bool_)) else proj.BIG})
    for i in range(40):
        m = rng.integers(-6, 7, (int(rng.integers(1, 5)), int(rng.integers(1, 5))))
        x = m + rng.uniform(-0.4, 0.4, m.shape)
        if rng.random() < 0.3:
            x = m
        st, v, w = proj.call(ndarray2d_to_integer_tuple, x)
        ans = {"status": st, "tuples": 0, "value": []}
        if st == "ok":
            ans["tuples"] = int(isinstance(v, tuple) and all(isinstance(t, tuple) and all(isinstance(y, (int, np.integer)) for y in t) for t in v))
            ans["value"] = [[int(y) for y in t] for t in v] if ans["tuples"] else []
        yield out("tuple", i, {"value": m.tolist()}, ans)
    for h in range(1 + shard, 531, nshard):
        R, T = cr.hall_ops(h)
        ops = cr.Group(R, T % cr.DT).json()
        st, v, w = proj.call(get_symmetry_from_hall_number, h)
        ans = {"status": st, "ops": []}
        if st == "ok":
            try:
                ans["ops"] = [[r, t] for r, t in zip(np.array(proj.ints(v[0])).reshape(-1, 9).tolist(), (np.array(proj.num(v[1], cr.DT)) % cr.DT).tolist())]
            except Exception:  # noqa: BLE001
                ans["status"] = "malformed"
        yield out("hall", h, {"ops": ops}, ans, h > 1)
        st, v, w = proj.call(get_crystal_system, h)
        yield out("system", h, {"ops": ops}, {"status": st, "value": v if st == "ok" and isinstance(v, str) else "?"}, h > 1)
        sym = spglib.get_spacegroup_type(h)["hall_symbol"]
        st, v, w = proj.call(get_centering, sym)
        yield out("centering", h, {"ops": ops, "Dt": cr.DT}, {"status": st, "value": v if st == "ok" and isinstance(v, str) else "?"}, h > 1)
    for i in range(450 if quick else 4000):
        k, l = int(rng.integers(1, 5)), int(rng.integers(1, 5))
        m = min(k, l)
        n = k + l + int(rng.integers(0, 3))
        N = int(rng.choice([360, 24, 8, 4, 997]))
        ang = [int(x) for x in rng.integers(0, N // 4 + 1, m)]
        if rng.random() < 0.2:
            ang = [int(x) for x in rng.integers(0, min(3, N // 4 + 1), m)]
        b1, b2 = frames(rng, k, l, n, ang, N, rng.random() < 0.5)
        skip = rng.random() < 0.3
        if not skip:
            a1 = rng.standard_normal((k, k)) + np.eye(k) * 2
            a2 = rng.standard_normal((l, l)) + (1j * rng.standard_normal((l, l)) if np.iscomplexobj(b2) else 0) + np.eye(l) * 2
            if np.linalg.cond(a1) > 1e4 or np.linalg.cond(a2) > 1e4:
                continue
            b1, b2 = a1 @ b1, a2 @ b2
        o = str(rng.choice(["min", "projection"]))
        st, v, w = proj.call(grassmann_distance, b1, b2, ord=o, skip_orthonormalization=True) if skip else (proj.call(grassmann_distance, b1, b2) if o == "min" and rng.random() < 0.5 else proj.call(grassmann_distance, b1, b2, ord=o))
        yield out("grassmann", i, {"angles": ang, "N": N, "ord": o}, {"status": st, "value": int(proj.fx(v, 4096)) if st == "ok" and np.ndim(v) == 0 else proj.BIG}, k != l or max(ang) > 0, k=k, l=l, n=n)
