"""Case builders for SmallReps.tla."""
import numpy as np

import cryst as cr
import proj


def little(G, kn, Dk):
    q = np.einsum("nji,j->ni", G.R, kn)
    q = np.where(G.S[:, None] == 1, -q, q) - kn
    ok = (q % Dk == 0).all(axis=1)
    cents = G.T[[(r == cr.I3).all() and s == 0 for r, s in zip(G.R, G.S)]]
    ok &= ((q @ cents.T) % (Dk * G.D) == 0).all(axis=1)
    return np.where(ok)[0]


def fixlat(L):
    """lattice scaled to fit the fixed point range, and Cartesian rotations function"""
    L = np.asarray(L, float)
    return L / np.abs(L).max()


def cart(L, R):
    return np.array([L.T @ r @ np.linalg.inv(L.T) for r in R])


class Recorded(list):
    """recorded irreps with the arrays they were read from"""
    raw = ()


def split(a):
    """entries as double words 8192 h + l in units of 2^-26"""
    v = np.rint(np.clip(np.nan_to_num(np.asarray(a, float), nan=9.0), -9, 9) * 2 ** 26).astype(np.int64).ravel()
    h = (v + 4096) >> 13
    return h.tolist(), (v - h * 8192).tolist()


def fine(m):
    rh, rl = split(np.real(m))
    ih, il = split(np.imag(m))
    return {"rh": rh, "rl": rl, "ih": ih, "il": il}


def fine_samples(raw, G, lg, kn, Dk, rows, mul, maxdim=6, want=6):
    """samples of the multiplication law whose phase is a 24th of a turn"""
    n, out = len(lg), []
    if not n or not rows:
        return out
    rng = np.random.default_rng(n + len(raw))
    R, T, N = G.R[lg], G.T[lg], Dk * G.D
    for r in rng.permutation(len(raw)):
        x = raw[r]
        if x.ndim != 3 or x.shape[0] != n or x.shape[1] != x.shape[2] or x.shape[1] > maxdim:
            continue
        for _ in range(6):
            q, b = int(rng.integers(len(rows))), int(rng.integers(n))
            a, c = rows[q], mul[q][b]
            p = (24 * ((-int(np.dot(kn, T[a] + R[a] @ T[b] - T[c]))) % N))
            if p % N == 0:
                out.append({"r": int(r) + 1, "q": q + 1, "b": b + 1, "m": p // N, "x": fine(x[a]), "y": fine(x[b]), "z": fine(x[c])})
                break
        if len(out) >= want:
            break
    return out


def law_samples(raw, rows, mul, exps, den, want=4, maxdim=8):
    """samples of X_a X_b = exp(2 pi i e/den) X_mul, with e/den a 24th of a turn (rows, mul 0-based; exps[q][b])"""
    out = []
    rng = np.random.default_rng(len(rows) + 7 * len(raw))
    for r, x in enumerate(raw):
        x = np.asarray(x)
        if x.ndim != 3 or x.shape[1] != x.shape[2] or x.shape[1] > maxdim or not len(rows) or x.shape[0] != len(mul[0]) or x.dtype == object:
            continue
        for _ in range(4):
            q, b = int(rng.integers(len(rows))), int(rng.integers(len(mul[0])))
            e = 24 * int(exps[q][b])
            if e % den == 0:
                out.append({"r": r + 1, "q": q + 1, "b": b + 1, "m": (e // den) % 24, "x": fine(x[rows[q]]), "y": fine(x[b]), "z": fine(x[mul[q][b]])})
                break
        if len(out) >= want:
            break
    return out


def smallreps(cid, G, kn, Dk, ans, wantreps=True, wantlaw=True, wantcomplete=True, wantind=False, spin=False, allrows=None, wantlops=False,
              truth=None, lattice=None, tol=0, fine_ok=True):
    """ans: dict with status, map(1-based), irreps (records), z, U, anti, ind.
    truth: the exact group whose operations G (observed) must be; lattice: check the cover of the rotations."""
    src, ok = [], True
    if truth is not None:
        key = {tuple(r.ravel()) + tuple(t % truth.D) + (int(s),): i + 1 for i, (r, t, s) in enumerate(zip(truth.R, truth.T, truth.S))}
        src = [key.get(tuple(r.ravel()) + tuple(t % truth.D) + (int(s),), 0) for r, t, s in zip(G.R, G.T, G.S)]
        ok = len(src) == len(truth) and set(src) == set(range(1, len(truth) + 1))
    rows, mul, n = [], [], 0
    if ok:
        lg = little(G, kn, Dk)
        R, T, S = G.R[lg], G.T[lg], G.S[lg]
        n = len(lg)
        if wantreps:
            if n <= (16 if allrows is None else allrows):
                rows = list(range(n))
            else:
                rows = cr.generators(R, T, S, D=G.D)
            mul = cr.mul_table(R, T, S, rows, D=G.D)
            assert mul is not None
    a = {"status": "ok", "map": [], "irreps": [], "z": [], "U": {"n": 0, "d": [0, 0], "re": [], "im": []}, "anti": [], "ind": [], "lops": [], "fine": []}
    a.update(ans)
    if fine_ok and wantreps and ok and len(a["map"]) == n and wantlaw:
        a["fine"] = fine_samples(getattr(a["irreps"], "raw", ()), G, lg, kn, Dk, rows, mul)
    lat, ct = [], []
    Ls = None if lattice is None else fixlat(lattice)
    if lattice is not None and ok and abs(np.linalg.det(Ls)) > 0.03 and np.abs(R).max() <= 10:
        lat = proj.fx(Ls).ravel().tolist()
        ct = proj.fx(cart(np.asarray(lattice, float), R)).reshape(len(R), 9).tolist()
    return {"id": cid, "Dt": int(G.D), "Dk": int(Dk), "k": [int(x) for x in kn], "tol": int(tol), "ops": G.json(), "rows": [r + 1 for r in rows],
            "mul": [[x + 1 for x in r] for r in mul], "spin": spin, "wantreps": wantreps, "wantlaw": wantlaw,
            "wantcomplete": wantcomplete, "wantind": wantind, "wantlops": wantlops, "ans": a,
            "truth": truth.json() if truth is not None else [], "src": src, "lat": lat, "cart": ct}


def irreps_json(irreps):
    try:
        out = Recorded(proj.mats(x) for x in irreps)
        out.raw = [np.asarray(x) for x in irreps]
        return out
    except Exception:  # noqa: BLE001
        return [proj.mats(None)]


def observed(rot, tr, th=None, D=cr.DT):
    """Group of the operations handed back by a structure-level entry point"""
    rot = np.asarray(rot)
    n = len(rot)
    G = cr.Group(np.array(proj.ints(rot)).reshape(n, 3, 3), np.array(proj.num(tr, D)).reshape(n, 3), None if th is None else np.array(proj.ints(th)).reshape(n))
    G.D = D
    return G
