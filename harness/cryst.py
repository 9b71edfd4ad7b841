"""Exact crystallographic inputs: database groups, independent primitive reduction, frames, lattices, crystals.
Nothing here uses spgrep."""
from fractions import Fraction as F
import itertools
import numpy as np
import spglib

DT = 24
I3 = np.eye(3, dtype=int)


def hall_ops(h):
    d = spglib.get_symmetry_from_database(h)
    return d["rotations"].astype(int), np.rint(d["translations"] * DT).astype(int)


def mag_ops(u):
    d = spglib.get_magnetic_symmetry_from_database(u)
    return d["rotations"].astype(int), np.rint(d["translations"] * DT).astype(int), np.array(d["time_reversals"]).astype(int)


def lattice_basis(vecs, D=DT):
    """Row HNF of the lattice generated by Z^3 and vecs (numerators over D): 3 rows over D."""
    M = [list(map(int, v)) for v in vecs] + [[D if i == j else 0 for j in range(3)] for i in range(3)]
    B = []
    for col in range(3):
        while True:
            nz = [r for r in M if r[col] != 0]
            if len(nz) <= 1:
                break
            nz.sort(key=lambda r: abs(r[col]))
            p = nz[0]
            for r in nz[1:]:
                q = r[col] // p[col]
                for c in range(3):
                    r[c] -= q * p[c]
        p = [r for r in M if r[col] != 0][0]
        M = [r for r in M if r is not p]
        B.append(p)
    return np.array(B)


def finv(A):
    """exact inverse of an integer/Fraction 3x3 matrix as Fractions"""
    A = [[F(x) for x in r] for r in A]
    n = 3
    M = [A[i] + [F(int(i == j)) for j in range(n)] for i in range(n)]
    for c in range(n):
        p = next(r for r in range(c, n) if M[r][c] != 0)
        M[c], M[p] = M[p], M[c]
        pv = M[c][c]
        M[c] = [x / pv for x in M[c]]
        for r in range(n):
            if r != c and M[r][c] != 0:
                f = M[r][c]
                M[r] = [x - f * y for x, y in zip(M[r], M[c])]
    return [r[n:] for r in M]


def fmul(A, B):
    return [[sum(a * b for a, b in zip(r, c)) for c in zip(*B)] for r in A]


def fint(A):
    out = [[int(x) for x in r] for r in A]
    assert all(F(o) == x for ro, r in zip(out, A) for o, x in zip(ro, r)), A
    return np.array(out)


def prim_ops(R, T, S=None, D=DT):
    """(P as Fractions with columns the primitive basis, R, T numerators over D, S)"""
    if S is None:
        S = np.zeros(len(R), int)
    cents = [t for r, t, s in zip(R, T, S) if (r == I3).all() and s == 0]
    B = lattice_basis(cents, D)
    P = [[F(int(B[j][i]), D) for j in range(3)] for i in range(3)]
    Pi = finv(P)
    seen, out = set(), []
    for r, t, s in zip(R, T, S):
        Rn = fint(fmul(fmul(Pi, r.tolist()), P))
        key = (tuple(Rn.ravel().tolist()), int(s))
        if key in seen:
            continue
        seen.add(key)
        tn = [sum(a * F(int(b), D) for a, b in zip(row, t)) for row in Pi]
        tt = [x * D for x in tn]
        assert all(x.denominator == 1 for x in tt), (tt,)
        out.append((Rn, np.array([int(x) % D for x in tt]), int(s)))
    return P, np.array([o[0] for o in out]), np.array([o[1] for o in out]), np.array([o[2] for o in out])


_cache = {}


def prim_hall(h):
    if ("h", h) not in _cache:
        P, R, T, _ = prim_ops(*hall_ops(h))
        _cache["h", h] = (P, R, T)
    return _cache["h", h]


def prim_mag(u):
    if ("m", u) not in _cache:
        _cache["m", u] = prim_ops(*mag_ops(u))
    return _cache["m", u]


def rand_unimodular(rng, steps):
    S = I3.copy()
    for _ in range(steps):
        i, j = rng.choice(3, 2, replace=False)
        E = I3.copy()
        E[i, j] = rng.choice([-1, 1])
        S = S @ E
    if steps and rng.random() < 0.25:
        S = S[:, rng.permutation(3)]  # may also change handedness
    return S


def int_inv(S):
    return fint(finv(S.tolist()))


def change_basis(R, T, S):
    """new basis a S, S unimodular: (S^-1 R S, S^-1 t)"""
    Si = int_inv(S)
    return np.array([Si @ r @ S for r in R]), T @ Si.T


def shift_origin(R, T, p):
    """conjugation by translation p (numerators): t -> t + p - R p  (origin moved by -p)"""
    return R, T + p - R @ p


class Group:
    """operations <<R,T,S>> modulo Z^3, T numerators over DT"""

    def __init__(self, R, T, S=None, D=DT):
        self.D = D
        self.R, self.T = np.asarray(R, int), np.asarray(T, int)
        self.S = np.zeros(len(R), int) if S is None else np.asarray(S, int)

    @property
    def t(self):
        # integral translations are handed over as an integer array in a third of the cases
        if not (self.T % self.D).any() and (len(self.T) + int(np.abs(self.T).sum()) // self.D) % 3 == 0:
            return self.T // self.D
        return self.T / self.D

    @property
    def rot(self):
        """rotations as the callers of the library have them: also in spglib's 32-bit type or not contiguous"""
        q = (len(self.R) + int(np.abs(self.T).sum()) + int(np.abs(self.R).sum())) % 5
        return self.R.astype(np.int32) if q < 2 else np.array(self.R, order="F") if q == 2 else self.R

    def __len__(self):
        return len(self.R)

    def copy(self):
        return Group(self.R.copy(), self.T.copy(), self.S.copy(), self.D)

    def json(self):
        return [[r.ravel().tolist(), t.tolist(), int(s)] for r, t, s in zip(self.R, self.T, self.S)]


def random_frame(G, k, Dk, rng, strong=True, fine=False):
    """random unimodular basis, origin, integer representatives, operation order, k shifted by reciprocal vectors.
    k: integer numerators over Dk.  The identity keeps translation zero."""
    R, T, S = G.R, G.T, G.S
    k = np.array(k, int)
    D0 = DT
    if strong and fine and rng.random() < 0.3:
        # an origin off the crystallographic grid
        D0 = DT * int(rng.choice([m for m in (5, 7, 13, 37, 97, 331) if DT * m * Dk < 32768] or [1]))
        T = T * (D0 // DT)
    if strong:
        U = rand_unimodular(rng, int(rng.integers(0, 6)))
        R, T = change_basis(R, T, U)
        k = U.T @ k
        p = rng.integers(0, D0, 3)
        T = T + p - R @ p
        ident = np.array([(r == I3).all() and s == 0 for r, s in zip(R, S)])
        T = T + D0 * rng.integers(-2, 3, (len(R), 3)) * (~ident)[:, None]
        k = k + Dk * rng.integers(-2, 3, 3)
    perm = rng.permutation(len(R))
    return Group(R[perm], T[perm], S[perm], D0), k


def mul_table(R, T, S, rows=None, D=DT):
    """0-based multiplication rows modulo Z^3; None if not closed"""
    n = len(R)
    if len(set(map(tuple, np.concatenate([R.reshape(n, 9), S[:, None]], 1).tolist()))) == n:
        key = {tuple(r) + (s,): i for i, (r, s) in enumerate(zip(R.reshape(n, 9).tolist(), S.tolist()))}

        def find(r, t, s):
            return key.get(tuple(r) + (s,))
    else:
        key = {tuple(r) + tuple(t) + (s,): i for i, (r, t, s) in enumerate(zip(R.reshape(n, 9).tolist(), (T % D).tolist(), S.tolist()))}

        def find(r, t, s):
            return key.get(tuple(r) + tuple(t) + (s,))
    out = []
    for i in range(n) if rows is None else rows:
        RR = (R[i] @ R).reshape(n, 9).tolist()
        TT = ((T[i] + T @ R[i].T) % D).tolist()
        SS = ((S[i] + S) % 2).tolist()
        row = [find(r, t, s) for r, t, s in zip(RR, TT, SS)]
        if None in row:
            return None
        out.append(row)
    return out


def generators(R, T, S, rng=None, D=DT):
    """indices of a small generating set (0-based)"""
    n = len(R)
    key = {}
    for i in range(n):
        key[tuple(R[i].ravel()) + tuple(T[i] % D) + (int(S[i]),)] = i
    rowc = {}

    def row(i):
        if i not in rowc:
            RR = (R[i] @ R).reshape(n, 9)
            TT = (T[i] + T @ R[i].T) % D
            SS = (S[i] + S) % 2
            rowc[i] = [key.get(tuple(r) + tuple(t) + (int(s),)) for r, t, s in zip(RR, TT, SS)]
        return rowc[i]

    ident = [i for i in range(n) if (R[i] == I3).all() and S[i] == 0 and (T[i] % D == 0).all()]
    if not ident:
        return None
    def closure(gens):
        reached = {ident[0]}
        front = reached
        while front:
            new = {row(g)[b] for g in gens for b in front}
            if None in new:
                return None
            front = new - reached
            reached = reached | front
        return reached

    gens, reached = [], {ident[0]}
    for i in (range(n) if rng is None else rng.permutation(n)):
        if int(i) not in reached:
            gens.append(int(i))
            reached = closure(gens)
            if reached is None:
                return None
    return gens or [ident[0]]


# ---------------------------------------------------------------- lattices and crystals
def invariant_lattice(R, rng, handed=None):
    """random lattice (rows = basis vectors) with R integral isometries, random orientation"""
    A = np.eye(3) + (0.25 * rng.standard_normal((3, 3)) if rng.random() < 0.85 else 0)
    M = sum(r.T @ (A @ A.T) @ r for r in R) / len(R)
    L = np.linalg.cholesky(M)
    L *= rng.uniform(3, 7) / abs(np.linalg.det(L)) ** (1 / 3)
    Q = np.linalg.qr(rng.standard_normal((3, 3)))[0]
    if np.linalg.det(Q) < 0:
        Q[0] *= -1
    u = rng.random()
    if u < 0.65:
        L = L @ Q
    elif u < 0.75:
        L = L @ np.diag(rng.choice([-1.0, 1.0], 3))[rng.permutation(3)]
        if np.linalg.det(L) < 0:
            L = -L
    if handed == "left":
        L = L @ np.diag([1, 1, -1.0])
    return L


def blurred(L, rng, p=0.2):
    """in a fraction p of the cases the lattice keeps the symmetry only to four to seven digits, as lattices read from a file do"""
    if rng.random() >= p:
        return L, False
    M = rng.standard_normal((3, 3))
    if rng.random() < 0.5:
        n = int(rng.integers(4, 7))
        s = np.abs(L).max()
        return np.round(L / s * 10, n) * s / 10, True
    return L @ (np.eye(3) + 10.0 ** -rng.uniform(3.7, 7) * (M + M.T) / np.linalg.norm(M)), True


def coset_reps(U):
    """representatives of Z^3 / U Z^3"""
    Ui = finv(U.tolist())
    reps, seen = [], set()
    d = abs(int(round(np.linalg.det(U))))
    for v in itertools.product(range(-d, d + 1), repeat=3):
        y = tuple(sum(a * b for a, b in zip(r, v)) % 1 for r in Ui)
        if y not in seen:
            seen.add(y)
            reps.append(np.array(v))
            if len(reps) == d:
                return reps
    raise AssertionError


def supergroup(G, U):
    """the operations of G (modulo Z^3) that fit the cell spanned by a U, modulo that cell's lattice"""
    Ui = finv(U.tolist())
    d = abs(int(round(np.linalg.det(U))))
    Un = np.array([[int(x * d) for x in r] for r in Ui])  # d * U^-1
    reps = coset_reps(U)
    R, T, S = [], [], []
    for r, t, s in zip(G.R, G.T, G.S):
        m = Un @ r @ U
        if (m % d).any():
            continue
        for v in reps:
            R.append(m // d)
            T.append((Un @ (t + G.D * v)) % (G.D * d))
            S.append(s)
    return Group(np.array(R), np.array(T), np.array(S), G.D * d)


def expand(L, pos, num, U, mag=None):
    """describe the crystal in the cell spanned by a U (U integer, det != 0)"""
    Uif = np.linalg.inv(U)
    reps = coset_reps(U)
    P = np.array([(Uif @ (x + v)) % 1.0 for x in pos for v in reps])
    nn = np.repeat(num, len(reps))
    mm = None if mag is None else np.repeat(mag, len(reps))
    return U.T @ L, P, nn, mm


def hnf_cell(rng, d):
    """random integer matrix of determinant d"""
    if d == 4 and rng.random() < 0.5:
        H = np.diag([2, 2, 1])[:, rng.permutation(3)][rng.permutation(3)]
    else:
        H = np.eye(3, dtype=int)
        i = int(rng.integers(3))
        H[i, i] = d
        for j in range(i):
            H[i, j] = rng.integers(0, d)
    return H @ rand_unimodular(rng, int(rng.integers(0, 3)))


def crystal(R, T, rng, nsite=2, S=None, typ=None):
    """general-position orbits of the group (T over DT); magnetic if S given"""
    L = invariant_lattice(R, rng)
    pos, num, mag = [], [], []
    extra = S is not None or rng.random() < 0.4  # one more orbit of non-magnetic atoms, often on a special position
    amp = rng.uniform(0.3, 4, nsite + 1) * rng.choice([-1, 1], nsite + 1) if rng.random() < 0.5 else np.arange(1, nsite + 2)
    special = rng.integers(0, 12, 3) / 12
    for s in range(nsite + bool(extra)):
        x = rng.random(3) if s < nsite else special
        if s == nsite and len(pos) + len(R) > 150:
            break
        seen = []
        for i, (r, t) in enumerate(zip(R, T)):
            y = (r @ x + t / DT) % 1
            if any(np.abs((y - z) - np.rint(y - z)).max() < 1e-7 for z in seen):
                continue
            seen.append(y)
            pos.append(y)
            num.append(s + 1)
            if S is not None:
                mag.append(0.0 if typ == 2 or s == nsite else amp[s] * (-1.0) ** S[i])
    return L, np.array(pos), np.array(num), (np.array(mag) if S is not None else None)


# ---------------------------------------------------------------- k points
SPECIAL = [((0, 0, 0), 1), ((1, 0, 0), 2), ((0, 1, 0), 2), ((0, 0, 1), 2), ((1, 1, 0), 2), ((1, 0, 1), 2), ((0, 1, 1), 2), ((1, 1, 1), 2),
           ((1, 1, 0), 3), ((1, 1, 1), 3), ((2, 2, 3), 6), ((-1, 2, 0), 3), ((1, 1, 1), 4), ((1, 1, 2), 4), ((2, 1, 3), 4), ((1, 3, 2), 4), ((3, 3, -3), 4), ((1, 0, 0), 4), ((0, 0, 1), 4), ((2, 2, 1), 6),
           ((0, 0, 1), 3), ((1, 2, 0), 6), ((3, 3, 2), 8), ((3, 5, 4), 8), ((5, 5, 2), 8)]


def sample_kpoints(rng, n):
    """mixture of special points, lines, planes and generic points: (numerators, denominator)"""
    out = []
    for _ in range(n):
        u = rng.random()
        if u < 0.62:
            k, D = SPECIAL[rng.integers(len(SPECIAL))]
            out.append((np.array(k), D))
        elif u < 0.86:
            # line / plane points: u on a line through special points
            D = int(rng.choice([5, 7, 12, 97, 1009]))
            a = int(rng.integers(1, D))
            v = np.array([(0, 0, 1), (1, 0, 0), (0, 1, 0), (1, 1, 0), (1, 1, 1), (1, -1, 0), (0, 1, 1), (1, 0, 1), (-1, 1, 1), (1, 2, 0), (2, 1, 0), (1, 1, -1)][rng.integers(12)])
            w = np.array([(0, 0, 0), (0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 0, 1), (1, 1, 1)][rng.integers(6)])
            out.append((2 * a * v + D * w, 2 * D) if 2 * D * DT < 32768 else (a * v, D))
        elif u < 0.93:
            D = int(rng.choice([6, 8, 10, 12]))
            out.append((rng.integers(-D, 2 * D, 3), D))
        else:
            D = int(rng.choice([101, 997]))
            out.append((rng.integers(0, D, 3), D))
    return out
