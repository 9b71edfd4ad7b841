"""C23: projective irreps for any multiplication table and factor system; multipliers of little co-groups; indicators."""
import json
import os
import re
import tempfile
import zlib

import numpy as np

import build
import check_c06
import cryst as cr
import proj
import reps
import runner

RULE = "rotation groups of all settings with the factor systems of k-vectors and spin, and abstract solvable groups (split chains of prime order: dihedral, Frobenius, Heisenberg, S4, products, up to order 64) with bicharacter factor systems, all in random orders and random gauges x {enumerate_unitary_irreps Neto/random, from_solvable_group_chain, from_regular_representation}; multipliers and indicators of little groups of the 530 Hall settings x k x frames; non-trivial: order above 1"
ASSUMES = ["factor systems are normalised, mu(e, g) = mu(g, e) = 1", "chains of generators of prime order equal to the index", "fixed-point comparison (2^-13), tolerance 0.6%"]
TAG = "C23"
CHUNK = 500
EXTRA = {}


def compose(p, q):
    """(p q)(x) = p(q(x))"""
    return tuple(p[x] for x in q)


def closure(gens, m):
    e = tuple(range(m))
    out, front = {e}, [e]
    while front:
        new = []
        for g in gens:
            for x in front:
                y = compose(g, x)
                if y not in out:
                    out.add(y)
                    new.append(y)
        front = new
    return out


def cyc(m, *cycles):
    p = list(range(m))
    for c in cycles:
        for a, b in zip(c, c[1:] + c[:1]):
            p[a] = b
    return tuple(p)


def affine(p, d):
    """translations of (Z_p)^d and a map to permutations for matrices"""
    pts = [tuple(int(x) for x in np.unravel_index(i, (p,) * d)) for i in range(p ** d)]
    ix = {x: i for i, x in enumerate(pts)}
    tr = [tuple(ix[tuple((x[j] + (j == a)) % p for j in range(d))] for x in pts) for a in range(d)]

    def lin(M):
        return tuple(ix[tuple(int(v) for v in (np.array(M) @ np.array(x)) % p)] for x in pts)
    return tr, lin


def library():
    """chains: list of permutations, the first one is absorbed last; with their orders"""
    out = []
    for p in (2, 3, 5, 7, 11, 13):
        out.append([cyc(p, tuple(range(p)))])
    for p in (3, 5, 7, 11, 13):
        out.append([tuple((-x) % p for x in range(p)), cyc(p, tuple(range(p)))])          # dihedral
    for p, r in ((7, 2), (13, 3)):
        out.append([tuple((r * x) % p for x in range(p)), cyc(p, tuple(range(p)))])       # Frobenius p:3
    out.append([tuple((5 * x) % 11 for x in range(11)), cyc(11, tuple(range(11)))])        # 11:5
    out.append([cyc(4, (0, 1)), cyc(4, (0, 1, 2)), cyc(4, (0, 1), (2, 3)), cyc(4, (0, 2), (1, 3))])   # S4
    out.append([cyc(4, (0, 1, 2)), cyc(4, (0, 1), (2, 3)), cyc(4, (0, 2), (1, 3))])       # A4
    out.append([cyc(4, (1, 3)), cyc(4, (0, 1), (2, 3)), cyc(4, (0, 3), (1, 2))])          # D4 = V4:2
    for p, d, mats in ((3, 2, [[[1, 1], [0, 1]]]), (3, 2, [[[2, 0], [0, 2]]]), (3, 2, [[[0, 1], [1, 0]]]), (2, 3, [[[0, 0, 1], [1, 0, 1], [0, 1, 0]]]),
                       (2, 3, [[[1, 1, 0], [0, 1, 0], [0, 0, 1]]]), (2, 4, [[[0, 1, 0, 0], [1, 1, 0, 0], [0, 0, 0, 1], [0, 0, 1, 1]]]), (5, 2, [[[4, 0], [0, 4]]]), (2, 4, []), (3, 2, []), (5, 2, []), (3, 3, [])):
        tr, lin = affine(p, d)
        out.append([lin(M) for M in mats] + tr)
    return out


LIB = library()


def orders(chain):
    out = []
    for g in chain:
        e, x, k = tuple(range(len(g))), g, 1
        while x != e:
            x, k = compose(x, g), k + 1
        out.append(k)
    return out


def exponent(chain, m):
    """element -> exponent of the top generator (a homomorphism to Z_p)"""
    low = closure(chain[1:], m) if len(chain) > 1 else {tuple(range(m))}
    out, x = {}, tuple(range(m))
    for k in range(orders(chain[:1])[0]):
        for y in low:
            out[compose(x, y)] = k
        x = compose(x, chain[0])
    return out


def abstract(rng, maxn=64):
    """table, exponents of the factor system, denominator, chain (0-based indices), generators"""
    while True:
        a = LIB[int(rng.integers(len(LIB)))]
        b = LIB[int(rng.integers(len(LIB)))] if rng.random() < 0.6 else None
        na = len(closure(a, len(a[0])))
        nb = len(closure(b, len(b[0]))) if b else 1
        if na * nb <= maxn:
            break
    ma = len(a[0])
    chain = [tuple(g) for g in a]
    ea, p, base = exponent(a, ma), orders(a)[0], None
    if b:
        mb = len(b[0])
        chain = [g + tuple(range(ma, ma + mb)) for g in a] + [tuple(range(ma)) + tuple(x + ma for x in g) for g in b]
        if orders(b)[0] == p and rng.random() < 0.75:
            eb = exponent(b, mb)
            base = (lambda x: ea[x[:ma]]), (lambda x: eb[tuple(v - ma for v in x[ma:])])
    els = sorted(closure(chain, len(chain[0])))
    els = [els[i] for i in rng.permutation(len(els))]
    ix = {x: i for i, x in enumerate(els)}
    n = len(els)
    table = np.array([[ix[compose(x, y)] for y in els] for x in els])
    e = ix[tuple(range(len(els[0])))]
    # a generator may be replaced by any element of its coset of the lower subgroup, or a power, of the same order
    gens, low = [], {tuple(range(len(els[0])))}
    for g, q in reversed(list(zip(chain, orders(chain)))):
        cand = []
        for _ in range(12):
            x = compose(g, sorted(low)[int(rng.integers(len(low)))])
            if orders([x]) == [q]:
                cand.append(x)
        x = cand[int(rng.integers(len(cand)))] if cand and rng.random() < 0.7 else g
        for _ in range(int(rng.integers(0, q - 1))):
            x = compose(x, g) if not cand else x
        gens.append(x)
        low = closure(list(gens), len(g))
    gens = [ix[x] for x in reversed(gens)]
    mue, den = np.zeros((n, n), int), 1
    if base:
        den = p
        f, g = np.array([base[0](x) for x in els]), np.array([base[1](x) for x in els])
        mue = np.outer(f, g) % p
    return table, mue, den, gens, e


def gauge(rng, table, mue, den, e):
    u = rng.random()
    if u < 0.3:
        return mue, den
    fine = u > 0.85  # phases close to one: 1e-3 .. 0.02
    m = int(rng.choice([997, 1201, 2399, 4801] if fine else [2, 3, 4, 8, 12, 24, 24, 97, 210]))
    D = int(np.lcm(den, m))
    if D >= 30000:
        return mue, den
    c = rng.integers(0, 4 if fine else m, len(table)) * (D // m)
    c[e] = 0
    return (mue * (D // den) + c[:, None] + c[None, :] - c[table]) % D, D


def rows_of(table, e):
    got, gens = {e}, []
    for i in range(len(table)):
        if i in got:
            continue
        gens.append(i)
        front = set(got)
        while front:
            new = {int(table[g][x]) for g in gens for x in front} - got
            got |= new
            front = new
    return gens or [e]


def order_of(table, e, g):
    x, m = g, 1
    while x != e:
        x, m = int(table[x][g]), m + 1
    return m


def field(n, m, den):
    """a prime q = 1 modulo m, and an element of order den"""
    q = 1
    while True:
        q += m
        if q > 2 and n % q and all(q % x for x in range(2, int(q ** 0.5) + 1)):
            break
    for r in range(1, q):
        if pow(r, den, q) == 1 and all(pow(r, x, q) != 1 for x in range(1, den)):
            return q, r


def chains(tier, seed, shard):
    """all chains of small groups, from the exact model of the algorithm; each of them is a request"""
    quick = tier == "quick"
    todo, q = [], 0
    while len(todo) < (4 if quick else 16) and q < 400:
        rng = np.random.default_rng([seed, q, shard, zlib.crc32(TAG.encode()), 3])
        q += 1
        if rng.random() < 0.5:
            table, mue, den, _, e = abstract(rng, 24)
        else:
            src = reps.source(rng, maxn=24 if quick else 48)
            table, mue, den = np.array(src.mul), np.array(src.mue), int(src.den)
            e = [i for i in range(len(table)) if (table[i] == np.arange(len(table))).all()][0]
            c = int(np.gcd.reduce(np.append(mue.ravel(), den)))
            mue, den = mue // c, den // c
            if (mue[e] % den).any() or (mue[:, e] % den).any():
                continue
        n = len(table)
        od = [order_of(table, e, g) for g in range(n)]
        if n < 4 or max(od) <= 2 and n > 8 or n == 27 or (n > 12 and max(od) == n and rng.random() < 0.8):
            continue
        if rng.random() < 0.5:
            g = gauge(rng, table, mue, den, e)
            mue, den = g if g[1] <= 24 else (mue, den)
        m = int(np.lcm.reduce(od)) * den
        if m > 2000:
            continue
        p, r = field(n, m, den)
        if p >= 10000:
            continue
        todo.append({"id": str(len(todo)), "table": (table + 1).tolist(), "mu": (mue % den).tolist(), "muden": int(den), "q": p, "root": r, "e": int(e) + 1})
    fd, path = tempfile.mkstemp(suffix=".json")
    try:
        with os.fdopen(fd, "w") as f:
            json.dump(todo, f)
        out, st = runner.tlc("ChainModel", None if quick else "ChainModelTwo.cfg", env={"CASES": path})
    finally:
        os.unlink(path)
    if st["rc"] or "No error has been found" not in out:
        raise runner.Machinery("ChainModel:\n" + out[-3000:])
    for x in ("states", "transitions"):
        EXTRA[x] = EXTRA.get(x, 0) + st[x]
    words = {}
    for m in re.findall(r'^"B\|(.*)"$', out, re.M):
        d = json.loads(m.replace('\\"', '"'))
        words.setdefault(int(d["case"]), []).append((tuple(d["chain"]), sorted(d["dims"])))
    for i, ws in sorted(words.items()):
        rng = np.random.default_rng([seed, i, shard, 4])
        ws = sorted(set((a, tuple(b)) for a, b in ws))
        whole = len(todo[i]["table"])
        for j in sorted(rng.permutation(len(ws))[:30 if quick else 200]):
            yield i, todo[i], ws[j][0], list(ws[j][1]), whole


def sub_request(c, chain, rng):
    """the subgroup generated by the chain, in a random order, and the chain in it (absorbed last first)"""
    table, e = np.array(c["table"]) - 1, c["e"] - 1
    got = {e}
    while True:
        new = {int(table[g - 1][x]) for g in chain for x in got} - got
        if not new:
            break
        got |= new
    els = np.array(sorted(got))[rng.permutation(len(got))]
    pos = {int(x): k for k, x in enumerate(els)}
    sub = np.array([[pos[int(table[a][b])] for b in els] for a in els])
    mue = np.array(c["mu"])[np.ix_(els, els)]
    return sub, mue, int(c["muden"]), [pos[g - 1] for g in reversed(chain)], pos[e]


def cases(tier, seed, shard, nshard):
    from spgrep.group import get_factor_system_from_little_group as ffac
    from spgrep.irreps import enumerate_small_representations as fsmall
    from spgrep.irreps import enumerate_unitary_irreps as funi
    from spgrep.irreps import enumerate_unitary_irreps_from_regular_representation as freg
    from spgrep.irreps import enumerate_unitary_irreps_from_solvable_group_chain as fchain
    quick = tier == "quick"
    for q, (i, c, chain, dims, whole) in enumerate(chains(tier, seed, shard)):
        rng = np.random.default_rng([seed, q, shard, zlib.crc32(TAG.encode()), 5])
        table, mue, den, gens, e = sub_request(c, chain, rng)
        st, v, w = proj.call(fchain, table, np.exp(2j * np.pi * mue / den), list(gens))
        ans = {"status": st, "irreps": [], "ind": [], "fine": []}
        rows = rows_of(table, e)
        if st == "ok":
            try:
                ans["irreps"] = build.irreps_json(v)
                ans["fine"] = build.law_samples(getattr(ans["irreps"], "raw", ()), rows, [table[a] for a in rows], [mue[a] for a in rows], den)
            except Exception:  # noqa: BLE001
                ans["status"] = "malformed"
        cid = "C23-model-%d-%d-%d" % (shard, i, q)
        yield "Projective", {"kind": "irreps", "id": cid, "table": (table + 1).tolist(), "mu": mue.tolist(), "muden": den, "rows": [r + 1 for r in rows],
                             "gens": [int(g) + 1 for g in gens], "dims": dims, "ans": ans}, {
            "id": cid, "kind": "model-chain", "order": len(table), "of": whole, "den": den, "nontrivial": len(table) > 1, "status": st if st == "ok" else "%s %s" % (st, str(v)[:80])}
    for q in range(330 if quick else 1500):
        rng = np.random.default_rng([seed, q, shard, zlib.crc32(TAG.encode())])
        kind = str(rng.choice(["chain", "chain", "regular", "Neto", "random"]))
        gens, R = [], None
        if kind in ("chain", "regular"):
            table, mue, den, gens, e = abstract(rng, 64 if rng.random() < 0.25 else 32)
        else:
            src = reps.source(rng, maxn=48 if rng.random() < 0.3 else 24)
            table, mue, den, R = np.array(src.mul), src.mue, src.den, src.R
            e = [i for i in range(len(R)) if (R[i] == cr.I3).all()][0]
            sh = rng.random()
            if src.kind != "ordinary" and (mue[e].any() or mue[:, e].any()):
                continue
        mue, den = gauge(rng, table, mue, den, e)
        if den >= 32768:
            continue
        n = len(table)
        mu = np.exp(2j * np.pi * mue / den)
        if kind == "chain":
            st, v, w = proj.call(fchain, table, mu, list(gens))
        elif kind == "regular":
            reg = np.zeros((n, n, n), complex)
            for k in range(n):
                reg[k, table[k], np.arange(n)] = mu[k]
            st, v, w = proj.call(freg, reg)
        else:
            st, v, w = proj.call(funi, R, mu if (den > 1 or rng.random() < 0.5) else None, method=kind)
        ans = {"status": st, "irreps": [], "ind": [], "fine": []}
        rows = rows_of(table, e)
        if st == "ok":
            try:
                if kind in ("Neto", "random"):
                    v, ind = v
                    ans["ind"] = proj.ints(ind)
                ans["irreps"] = build.irreps_json(v)
                ans["fine"] = build.law_samples(getattr(ans["irreps"], "raw", ()), rows, [table[a] for a in rows], [mue[a] for a in rows], den)
            except Exception:  # noqa: BLE001
                ans["status"] = "malformed"
        cid = "C23-%d-%d-%s" % (shard, q, kind)
        yield "Projective", {"kind": "irreps", "id": cid, "table": (table + 1).tolist(), "mu": mue.tolist(), "muden": int(den), "rows": [r + 1 for r in rows],
                             "gens": [int(g) + 1 for g in gens] if kind == "chain" else [], "dims": [], "ans": ans}, {
            "id": cid, "kind": kind + ("" if R is None else "-" + src.kind), "order": n, "den": int(den), "nontrivial": n > 1, "status": st if st == "ok" else "%s %s" % (st, str(v)[:80])}
    for h in range(1 + shard, 531, nshard):
        rng = np.random.default_rng([seed, h, zlib.crc32(TAG.encode()), 2])
        _, R, T = cr.prim_hall(h)
        for q in range(3 if quick else 14):
            (k, D), = cr.sample_kpoints(rng, 1)
            if q and rng.random() < 0.6:
                k, D = rng.integers(0, 2, 3), 2
            G, kk = cr.random_frame(cr.Group(R, T), k, D, rng, strong=rng.random() < 0.8, fine=True)
            lg = build.little(G, kk, D)
            H = cr.Group(G.R[lg], G.T[lg], None, G.D)
            n = len(H)
            base = {"ops": H.json(), "Dt": int(H.D), "Dk": int(D), "k": [int(x) for x in kk]}
            info = {"hall": h, "k": [int(x) for x in kk], "den": int(D), "order": n, "nontrivial": n > 1}
            if q == 0:
                st, v, w = proj.call(ffac, H.R, H.t, kk / D)
                ans = {"status": st, "f": []}
                if st == "ok":
                    try:
                        a = np.asarray(v)
                        ans["f"] = [[[int(x), int(y)] for x, y in zip(proj.fx(np.real(r)), proj.fx(np.imag(r)))] for r in a]
                    except Exception:  # noqa: BLE001
                        ans["status"] = "malformed"
                cid = "C23-h%d-%d-factor" % (h, q)
                yield "Projective", {"kind": "factor", "id": cid, **base, "ans": ans}, {"id": cid, "kind": "factor", **info, "status": str(st)}
            else:
                method = ["Neto", "random"][int(rng.random() < 0.3)]
                st, v, w = proj.call(fsmall, H.R, H.t, kk / D, method=method)
                ans = {"status": st, "irreps": [], "ind": []}
                if st == "ok":
                    try:
                        ans.update(irreps=build.irreps_json(v[0]), ind=proj.ints(v[1]))
                    except Exception:  # noqa: BLE001
                        ans["status"] = "malformed"
                cid = "C23-h%d-%d-small" % (h, q)
                yield "Projective", {"kind": "small", "id": cid, **base, "ans": ans}, {"id": cid, "kind": "small-" + method, **info, "status": st if st == "ok" else "%s %s" % (st, str(v)[:80])}
