"""C21: checking predicates."""
import zlib

import numpy as np

import build
import check_c17
import cryst as cr
import proj
import reps

RULE = "true (projective, spinor, conventional-cell, non-unitary where allowed) representations and factor systems, and the same with one matrix, entry, phase, sign, multiplier or table entry altered; non-trivial: altered or order above 1"
ASSUMES = ["alterations are at least 0.4% (fixed-point resolution); exact for cocycles"]
TAG = "C21"
CHUNK = 700


def flag(st, v):
    return int(v) if st == "ok" and isinstance(v, (bool, np.bool_)) else proj.BIG


def damage(r, rng, unitary=False):
    """alter one matrix of a representation; returns (rep, what)"""
    r = r.copy()
    n, d = r.shape[:2]
    i = int(rng.integers(n))
    if rng.random() < 0.3:
        i = n - 1
    if unitary and d > 1 and rng.random() < 0.5:
        # deviations which keep norms of columns or rows, the determinant, or singular values in pairs
        t = float(rng.choice([0.01, 0.02, 0.1, 0.5])) * rng.choice([1, -1])
        p, q = (int(x) for x in rng.permutation(d)[:2])
        kind = str(rng.choice(["skew-columns", "skew-rows", "shear", "stretch", "similar"]))
        ph = np.exp(2j * np.pi * rng.random())
        X = np.eye(d, dtype=complex)
        if kind.startswith("skew"):
            X[p, p], X[q, p] = np.cos(t), np.sin(t) * ph
            r[i] = r[i] @ X if kind == "skew-columns" else X.T @ r[i]
        elif kind == "shear":
            X[p, q] = t * ph
            r[i] = r[i] @ X
        else:
            X[p, p], X[q, q] = 1 + abs(t), 1 / (1 + abs(t))
            Q = reps.unitary(d, rng)
            X = Q @ X @ Q.conj().T
            if kind == "stretch":
                r[i] = r[i] @ X
            else:
                r = np.linalg.inv(X) @ r @ X
        return r, kind
    u = rng.random()
    eps = float(rng.choice([0.01, 0.02, 0.1, 0.5])) * rng.choice([1, -1, 1j, -1j])
    if u < 0.4:
        r[i, int(rng.integers(d)), int(rng.integers(d))] += eps
        return r, "entry"
    if u < 0.55:
        r[i] = r[i] * (1 + abs(eps) * 0.5 * rng.choice([1, -1]))
        return r, "scale"
    if u < 0.7 and not unitary:
        r[i] = r[i] * np.exp(2j * np.pi * rng.choice([1 / 2, 1 / 3, 1 / 4, 1 / 24, 1 / 360, -1 / 360]))
        return r, "phase"
    if u < 0.8 and not unitary and n > 1:
        j = int(rng.integers(n))
        r[[i, j]] = r[[j, i]]
        return r, "swap"
    if u < 0.9 and not unitary:
        r[i] = reps.unitary(d, rng)
        return r, "random"
    r[i, :, int(rng.integers(d))] *= 1 + abs(eps)
    return r, "column"


def clear(dev):
    """the definition holds to rounding, or is broken by more than the fixed-point resolution"""
    return dev < 1e-9 or dev > 0.006


def unidev(a):
    return np.abs(np.einsum("kij,klj->kil", a, a.conj()) - np.eye(a.shape[1])).max()


def repdev(a, tb, f):
    return np.abs(np.einsum("aij,bjk->abik", a, a) - f[:, :, None, None] * a[tb]).max()


def cases(tier, seed, shard, nshard):
    from spgrep.group import check_cocycle_condition
    from spgrep.representation import check_spacegroup_representation, is_representation, is_unitary
    quick = tier == "quick"

    def out(kind, tag, c, ans, info):
        cid = "C21-%s-%d-%s" % (kind, shard, tag)
        return "Predicates", {"kind": kind, "id": cid, **c, "ans": ans}, {"id": cid, "kind": kind, "status": ans["status"], **info}

    for q in range(450 if quick else 900):
        rng = np.random.default_rng([seed, q, shard, zlib.crc32(TAG.encode())])
        src = reps.source(rng, maxn=12 if quick or rng.random() < 0.7 else 24)
        if q % 9 == 4:
            while len(src) < 16:
                src = reps.source(rng, maxn=48)
        irs = reps.irreps(src.mul, src.mu, rng)
        n = len(src)
        while True:
            r = check_c17.gauge(irs[int(rng.integers(len(irs)))], rng)
            if rng.random() < 0.3:
                r = check_c17.gauge(reps.direct_sum([irs[int(rng.integers(len(irs)))], irs[int(rng.integers(len(irs)))]]), rng)
            if r.shape[1] <= 4:
                break
        # unitarity
        a, what = (r, "true") if rng.random() < 0.45 else damage(r, rng, unitary=True)
        if np.abs(a).max() < 1.45 and clear(unidev(a)):
            st, v, w = proj.call(is_unitary, a)
            yield out("unitary", q, {"rep": proj.mats(a)}, {"status": st, "value": flag(st, v)}, {"nontrivial": True, "what": what, "order": n, "dim": a.shape[1]})
        # representation
        a, mue, den, tb, what = r, src.mue.copy(), src.den, src.mul.copy(), "true"
        if rng.random() < 0.25 and r.shape[1] > 1 and r.shape[1] <= 3:
            T = np.eye(r.shape[1]) + 0.25 * rng.standard_normal((r.shape[1],) * 2)
            if abs(np.linalg.det(T)) > 0.4:
                a = np.linalg.inv(T) @ r @ T
                what = "nonunitary"
        u = rng.random()
        if u < 0.3:
            a, what = damage(a, rng)
        elif u < 0.5:
            if den == 1:
                den = int(rng.choice([2, 3, 360]))
                mue = mue * 0
            i, j = int(rng.integers(n)), int(rng.integers(n))
            if rng.random() < 0.3:
                i, j = n - 1, n - 1
            mue[i, j] = (mue[i, j] + int(rng.choice([1, den // 2 or 1]))) % den
            what = "multiplier"
        elif u < 0.6 and n > 1:
            i, j = int(rng.integers(n)), int(rng.integers(n))
            tb[i, j] = int(rng.integers(n))
            what = "table"
        elif u < 0.66 and den > 1:
            mue, den, what = mue * 0, 1, "no-multipliers"
        if np.abs(a).max() < (1.95 if a.shape[1] <= 3 else 1.45) and clear(repdev(a, tb, np.exp(2j * np.pi * mue / den))):
            if den == 1 and rng.random() < 0.6:
                st, v, w = proj.call(is_representation, a, tb)
            else:
                st, v, w = proj.call(is_representation, a, tb, np.exp(2j * np.pi * mue / den))
            yield out("representation", q, {"rep": proj.mats(a), "table": (tb + 1).tolist(), "mu": mue.tolist(), "muden": int(den)}, {"status": st, "value": flag(st, v)},
                      {"nontrivial": n > 1, "what": what, "source": src.kind, "order": n, "dim": a.shape[1]})
        # cocycles
        nn = n
        mue, den, what = src.mue.copy(), src.den, "true"
        if den == 1:
            den = int(rng.choice([2, 3, 4, 8]))
        if rng.random() < 0.6:
            s = rng.integers(0, den, nn)
            mue = (mue + s[:, None] + s[None, :] - s[src.mul]) % den
            what = "coboundary"
        R = src.R
        if rng.random() < 0.5:
            i, j = int(rng.integers(nn)), int(rng.integers(nn))
            if rng.random() < 0.3:
                i, j = nn - 1, nn - 1
            mue[i, j] = (mue[i, j] + int(rng.choice([1, max(1, den // 2)]))) % den
            what += "-altered"
        elif rng.random() < 0.15 and nn > 1:
            R = R[:-1]
            mue = mue[:-1, :-1]
            what = "not-a-group"
        if nn <= 16 or q % 18 == 4:
            st, v, w = proj.call(check_cocycle_condition, R, np.exp(2j * np.pi * mue / den))
            yield out("cocycle", q, {"ops": cr.Group(R, np.zeros((len(R), 3), int)).json(), "mu": mue.tolist(), "muden": int(den)}, {"status": st, "value": flag(st, v)}, {"nontrivial": nn > 1, "what": what, "order": len(R), "source": src.kind})
    # space groups
    done = q = 0
    want = 260 if quick else 500
    while done < want:
        q += 1
        rng = np.random.default_rng([seed, q, shard, zlib.crc32(TAG.encode()), 5])
        h = int(rng.integers(1, 531))
        conv = rng.random() < 0.5
        if conv:
            R, T = cr.hall_ops(h)
        else:
            _, R, T = cr.prim_hall(h)
        (k, D), = cr.sample_kpoints(rng, 1)
        G = cr.Group(R, T)
        if rng.random() < 0.6:
            G, k = cr.random_frame(G, k, D, rng, strong=not conv)
        # (conventional cells: k is dual to the cell, stabiliser modulo the primitive reciprocal lattice)
        P, Rp, Tp, _ = cr.prim_ops(G.R, G.T) if conv else (None, G.R, G.T, None)
        if conv:
            Pd = np.array([[float(x) for x in row] for row in P])
            kp = np.array(k) @ np.array([[int(x * 24) for x in row] for row in P])   # numerators over 24 D
            kd = 24 * D
        else:
            kp, kd = np.array(k), D
        lgp = [i for i in range(len(Rp)) if ((Rp[i].T @ kp - kp) % kd == 0).all()]
        if conv:
            Pi = cr.finv(P)
            rots = {tuple(np.array(cr.fint(cr.fmul(cr.fmul(P, Rp[i].tolist()), Pi))).ravel().tolist()) for i in lgp}
            lg = [i for i in range(len(G.R)) if tuple(G.R[i].ravel().tolist()) in rots]
        else:
            lg = lgp
        if len(lg) > (32 if quick else 48) or len(lg) < 2:
            continue
        Gp = cr.Group(Rp[lgp], Tp[lgp])
        np_ = len(lgp)
        mul = cr.mul_table(Gp.R, np.zeros((np_, 3), int), Gp.S)
        g = np.einsum("nji,j->ni", Gp.R, kp) - kp
        N = kd * cr.DT
        mue = (-(g @ Gp.T.T)) % N
        z = np.ones((np_, np_), int)
        spin = rng.random() < 0.4
        if spin:
            L = cr.invariant_lattice(Gp.R, rng)
            Cc = build.cart(L, Gp.R)
            U = np.array([reps.su2(c * round(np.linalg.det(c))) for c in Cc])
            for i in range(np_):
                for j in range(np_):
                    z[i, j] = 1 if np.abs(U[i] @ U[j] - U[mul[i][j]]).max() < 1e-6 else -1
        irs = reps.irreps(np.array(mul), np.exp(2j * np.pi * mue / N) * z, rng)
        ir = check_c17.gauge(irs[int(rng.integers(len(irs)))], rng)
        if ir.shape[1] > 4:
            continue
        # back to the operations of the given cell
        kk = np.array(k) / D
        if conv:
            key = {tuple(np.array(cr.fint(cr.fmul(cr.fmul(P, r.tolist()), Pi))).ravel().tolist()): i for i, r in enumerate(Gp.R)}
            which = [key[tuple(G.R[i].ravel().tolist())] for i in lg]
        else:
            which = list(range(np_))
        t = G.T[lg] / cr.DT
        rep = ir[which] * np.exp(-2j * np.pi * (t @ kk))[:, None, None]
        zz = z[np.ix_(which, which)].copy()
        krep, what = np.array(k).copy(), "true"
        u = rng.random()
        if u < 0.35:
            rep, what = damage(rep, rng)
        elif u < 0.5:
            i, j = int(rng.integers(len(lg))), int(rng.integers(len(lg)))
            zz[i, j] *= -1
            what = "sign"
        elif u < 0.56:
            krep = krep + rng.integers(-1, 2, 3)
            what = "other-k"
        if np.abs(rep).max() > (1.95 if rep.shape[1] <= 3 else 1.45):
            continue
        Rl = G.R[lg]
        dev = 0
        for i in range(len(lg)):
            for j in range(len(lg)):
                tt = Rl[i] @ t[j] + t[i]
                for x in np.nonzero((Rl == Rl[i] @ Rl[j]).all(axis=(1, 2)))[0]:
                    dev = max(dev, np.abs(rep[i] @ rep[j] - zz[i, j] * np.exp(-2j * np.pi * (krep / D) @ (tt - t[x])) * rep[x]).max())
        if not clear(dev):
            continue
        if (zz == 1).all() and rng.random() < 0.6:
            st, v, w = proj.call(check_spacegroup_representation, G.R[lg], t, krep / D, rep)
        else:
            st, v, w = proj.call(check_spacegroup_representation, G.R[lg], t, krep / D, rep, zz.astype(complex))
        done += 1
        yield out("spacegroup", q, {"ops": cr.Group(G.R[lg], G.T[lg]).json(), "Dt": cr.DT, "k": krep.tolist(), "D": int(D), "z": zz.tolist(), "rep": proj.mats(rep)}, {"status": st, "value": flag(st, v)},
                  {"nontrivial": True, "what": what, "hall": h, "conventional": bool(conv), "spinor": bool(spin), "order": len(lg), "dim": rep.shape[1]})
