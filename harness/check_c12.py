"""C12: projection onto irreps."""
import zlib

import numpy as np

import build
import cryst as cr
import proj
import reps

RULE = "random point groups (any basis/order) with ordinary, nonsymmorphic, spinor factor systems x direct sums with multiplicities 0..4 in random unitary / real orthogonal / permuted / block bases, regular representations, irreps in a random gauge; non-trivial: the irrep is contained"
ASSUMES = ["inputs are built by an independent regular-representation decomposition and re-verified by TLC", "independence threshold 0.8%"]
TAG = "C12"
CHUNK = 600


def certificate(bases):
    """unit vectors orthogonal to the earlier bases, overlapping with the current one"""
    out, prev = [], None
    for b in bases:
        b = np.asarray(b, complex)
        best = np.zeros(b.shape[1], complex)
        r = b[0].copy()
        if prev is not None:
            q, sv, _ = np.linalg.svd(prev.T, full_matrices=False)
            q = q[:, sv > 1e-9 * max(sv[0], 1e-300)]
            r = r - q @ (q.conj().T @ r)
        nr = np.linalg.norm(r)
        best = r / nr if nr > 1e-12 else best
        out.append(reps.vec(best))
        prev = b if prev is None else np.concatenate([prev, b])
    return out


def displacement(src, rng, maxd):
    """atomic displacements (or site scalars) of one or two orbits of sites at k: permutations with phases x rotations"""
    n = len(src)
    G, k, D = (src.extra["G"], src.extra["k"], src.extra["D"]) if src.extra else (cr.Group(src.R, np.zeros((n, 3), int)), np.zeros(3, int), 1)
    L = cr.invariant_lattice(G.R, rng)
    if L is None:
        return None
    parts = []
    for _ in range(int(rng.integers(1, 3))):
        for _ in range(30):
            x = rng.integers(0, cr.DT, 3) * rng.integers(0, 2, 3) if rng.random() < 0.5 else (cr.DT // 4) * rng.integers(0, 4, 3)
            if rng.random() < 0.5:  # on a symmetry element
                i = int(rng.integers(n))
                y = (G.R[i] @ x + G.T[i]) % cr.DT
                x = x + y
                x = x // 2 if (x % 2 == 0).all() else x
            orb, todo = [tuple(x % cr.DT)], [tuple(x % cr.DT)]
            while todo and len(orb) < 9:
                y = todo.pop()
                for r, t in zip(G.R, G.T):
                    z = tuple((r @ np.array(y) + t) % cr.DT)
                    if z not in orb:
                        orb.append(z)
                        todo.append(z)
            if len(orb) <= maxd:
                break
        else:
            return None
        m = len(orb)
        X = np.array(orb)
        perm = np.zeros((n, m, m), complex)
        for g in range(n):
            Y = X @ G.R[g].T + G.T[g]
            for b in range(m):
                a = orb.index(tuple(Y[b] % cr.DT))
                d = (Y[b] - X[a]) // cr.DT
                perm[g, a, b] = np.exp(-2j * np.pi * ((int(k @ d) % D) / D - (int(k @ G.T[g]) % (D * cr.DT)) / (D * cr.DT)))
        if 3 * m <= maxd and rng.random() < 0.8:
            C = build.cart(L, G.R)
            parts.append(np.array([np.kron(p, c) for p, c in zip(perm, C)]))
        else:
            parts.append(perm)
        if sum(p.shape[1] for p in parts) > maxd - 3:
            break
    if sum(p.shape[1] for p in parts) > maxd:
        parts = parts[:1]
    return reps.direct_sum(parts)


def request(rng, maxn, maxd):
    disp = rng.random() < 0.25
    src = reps.source(rng, str(rng.choice(["ordinary", "nonsymmorphic", "nonsymmorphic"])) if disp else None, maxn=maxn)
    irs = reps.irreps(src.mul, src.mu, rng)
    if disp:
        rep = displacement(src, rng, maxd + 5)
        if rep is not None and (maxd < 12 or rep.shape[1] > 3):
            mult = [int(np.rint((np.einsum("kii->k", x).conj() @ np.einsum("kii->k", rep)).real / len(src))) for x in irs]
            if src.kind == "ordinary":
                rep = rep.real if np.abs(rep.imag).max() < 1e-13 else rep
            return src, irs, rep, mult, "displacements"
    u = rng.random()
    if u < 0.12 and len(src) <= 12:
        rep = np.zeros((len(src),) * 3, complex)
        for k in range(len(src)):
            rep[k, src.mul[k], np.arange(len(src))] = src.mu[k]
        mult = [x.shape[1] for x in irs]
        kind = "regular"
    else:
        rep, mult = reps.reducible(src, irs, rng, maxd=maxd)
        kind = "sum"
    return src, irs, rep, mult, kind


def large(rng):
    """representations as large as those of the vibrations of a crystal with a dozen atoms"""
    while True:
        src = reps.source(rng, maxn=48)
        if len(src) >= 6:
            break
    irs = reps.irreps(src.mul, src.mu, rng)
    top = int(min(30, (300000 / len(src)) ** (1 / 3)))
    rep, mult = reps.reducible(src, irs, rng, maxd=top, maxm=6, mind=15)
    return src, irs, rep, mult, "large"


def cases(tier, seed, shard, nshard):
    from spgrep.representation import project_to_irrep
    big = 5 if tier == "quick" else 25
    for q in range(330 + big if tier == "quick" else 1000 + big):
        rng = np.random.default_rng([seed, q, shard, zlib.crc32(TAG.encode())])
        src, irs, rep, mult, kind = large(rng) if q < big else request(rng, 48 if rng.random() < 0.2 else 16, 10 if tier == "quick" else 14)
        pick = rng.permutation(len(irs))[:4]
        pick = sorted(pick, key=lambda i: -mult[i])[: 2 if rng.random() < 0.7 else 4]
        for i in pick:
            ir = irs[i]
            if rng.random() < 0.6:
                ir = reps.conj(ir, reps.unitary(ir.shape[1], rng))
            rin = rep
            if rng.random() < 0.1 and np.abs(rep.imag).max() < 1e-12:
                rin = rep.real.copy()
            st, v, w = proj.call(project_to_irrep, rin, ir)
            ans = {"status": st, "bases": [], "w": [], "fine": []}
            if st == "ok":
                try:
                    ans["bases"] = [proj.mats(np.asarray(b)[None]) for b in v]
                    ans["w"] = certificate(v) if all(np.asarray(b).shape == (ir.shape[1], rep.shape[1]) and np.isfinite(b).all() for b in v) else []
                    g = int(rng.integers(len(src)))
                    if ans["w"] and rep.shape[1] <= 10:
                        ans["fine"] = [{"g": g + 1, "x": build.fine(rep[g]), "v": build.fine(np.asarray(b).T), "t": build.fine(ir[g])} for b in v[:2]]
                except Exception:  # noqa: BLE001
                    ans["status"] = "malformed"
            cid = "C12-%d-%d-%d" % (shard, q, i)
            c = {"kind": "project", "id": cid, **src.json(), "rep": proj.mats(rep), "irrep": proj.mats(ir), "ans": ans}
            yield "Projection", c, {"id": cid, "kind": src.kind + "-" + kind, "order": len(src), "dim": rep.shape[1], "irrep_dim": ir.shape[1], "mult": mult[i], "nontrivial": mult[i] > 0, "status": st if st == "ok" else "%s %s" % (st, str(v)[:80])}
    for q in range(4):
        rng = np.random.default_rng([seed, q, shard, 77])
        src, irs, rep, mult, kind = request(rng, 16, 8)
        ir = irs[0]
        if len(src) == 1:
            continue
        bad = [(rep[:-1], ir), (rep, ir[:-1]), (rep[:, :, :-1] if rep.shape[1] > 1 else rep[:-1], ir), (rep[:-1], ir)][q]
        st, v, w = proj.call(project_to_irrep, *bad)
        cid = "C12-err-%d-%d" % (shard, q)
        yield "Projection", {"kind": "error", "id": cid, "ops": [], "ans": {"status": st}}, {"id": cid, "kind": "error", "nontrivial": False, "status": str(st)}
