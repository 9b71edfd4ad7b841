"""Independent construction of (projective) irreps and representations from multiplication tables (numpy only)."""
import numpy as np

import build
import check_c06
import cryst as cr
import proj


def irreps(mul, mu, rng):
    """mul (n,n) 0-based, mu (n,n) complex multipliers -> list of unitary irreps; via the regular representation"""
    n = len(mul)
    reg = np.zeros((n, n, n), complex)
    for k in range(n):
        reg[k, mul[k], np.arange(n)] = mu[k]
    for _ in range(40):
        H = rng.standard_normal((n, n)) + 1j * rng.standard_normal((n, n))
        H = H + H.conj().T
        M = np.zeros((n, n), complex)
        for k in range(n):
            M += reg[k] @ H @ reg[k].conj().T
        M /= n
        w, v = np.linalg.eigh(M)
        groups, cur = [], [0]
        for i in range(1, n):
            if w[i] - w[i - 1] < 1e-7 * (1 + abs(w[-1])):
                cur.append(i)
            else:
                groups.append(cur)
                cur = [i]
        groups.append(cur)
        out, chars = [], []
        good = True
        for g in groups:
            b = v[:, g]
            r = np.array([b.conj().T @ (reg[k] @ b) for k in range(n)])
            c = np.einsum("kii->k", r)
            if abs((abs(c) ** 2).sum() / n - 1) > 1e-5:
                good = False
                break
            if any(abs(np.vdot(c, d)) / n > 0.5 for d in chars):
                continue
            out.append(r)
            chars.append(c)
        if good and sum(x.shape[1] ** 2 for x in out) == n:
            return out
    raise RuntimeError("no irreps")


def unitary(d, rng, real=False):
    a = rng.standard_normal((d, d))
    if not real:
        a = a + 1j * rng.standard_normal((d, d))
    return np.linalg.qr(a)[0]


def su2(C):
    """independent SU(2) element of a Cartesian proper rotation, via the quaternion of largest component"""
    K = np.array([[C[0, 0] - C[1, 1] - C[2, 2], 0, 0, 0], [C[0, 1] + C[1, 0], C[1, 1] - C[0, 0] - C[2, 2], 0, 0],
                  [C[0, 2] + C[2, 0], C[1, 2] + C[2, 1], C[2, 2] - C[0, 0] - C[1, 1], 0], [C[2, 1] - C[1, 2], C[0, 2] - C[2, 0], C[1, 0] - C[0, 1], np.trace(C)]]) / 3
    w, v = np.linalg.eigh(K + np.tril(K, -1).T)
    x, y, z, s = v[:, -1]
    if s < 0:
        x, y, z, s = -x, -y, -z, -s
    return np.array([[s - 1j * z, -1j * x - y], [-1j * x + y, s + 1j * z]])


class Source:
    """a finite group of rotations with a factor system: R, mul, mue (exponents), den, mu (complex)"""

    def __init__(self, R, mul, mue, den, kind, extra=None):
        self.R, self.mul, self.mue, self.den, self.kind = R, np.array(mul), np.array(mue), den, kind
        self.mu = np.exp(2j * np.pi * self.mue / den)
        self.extra = extra or {}

    def __len__(self):
        return len(self.R)

    def rows(self):
        return cr.generators(self.R, np.zeros((len(self), 3), int), np.zeros(len(self), int))

    def json(self, full=False):
        n = len(self.R)
        G = cr.Group(self.R, np.zeros((n, 3), int))
        rows = list(range(n)) if full else cr.generators(self.R, G.T, G.S)
        return {"ops": G.json(), "rows": [r + 1 for r in rows], "mul": [(self.mul[r] + 1).tolist() for r in rows],
                "mu": [[int(x) for x in self.mue[r]] for r in rows], "muden": int(self.den)}


def source(rng, kind=None, maxn=48):
    kind = kind or rng.choice(["ordinary", "ordinary", "nonsymmorphic", "nonsymmorphic", "spinor", "spinor+nonsymmorphic"])
    for _ in range(200):
        h = int(rng.integers(1, 531))
        if kind == "ordinary":
            R = check_c06.pg(h, rng)
            n = len(R)
            if n > maxn:
                continue
            return Source(R, cr.mul_table(R, np.zeros((n, 3), int), np.zeros(n, int)), np.zeros((n, n), int), 1, kind)
        _, R, T = cr.prim_hall(h)
        (k, D), = cr.sample_kpoints(rng, 1)
        G, k = cr.random_frame(cr.Group(R, T), k, D, rng, strong=rng.random() < 0.5)
        lg = build.little(G, k, D)
        if len(lg) > maxn or len(lg) < 2:
            continue
        G = cr.Group(G.R[lg], G.T[lg])
        n = len(G)
        mul = cr.mul_table(G.R, np.zeros((n, 3), int), G.S)
        N = D * cr.DT
        mue = np.zeros((n, n), int)
        if "nonsymmorphic" in kind:
            g = np.einsum("nji,j->ni", G.R, k) - k
            mue = (-(g @ G.T.T)) % N
            if not mue.any() and rng.random() < 0.7:
                continue
        z = np.ones((n, n), int)
        if "spinor" in kind:
            L = cr.invariant_lattice(G.R, rng)
            C = build.cart(L, G.R)
            U = np.array([su2(c * round(np.linalg.det(c))) for c in C])
            for i in range(n):
                for j in range(n):
                    z[i, j] = 1 if np.abs(U[i] @ U[j] - U[mul[i][j]]).max() < 1e-6 else -1
        den = N if N % 2 == 0 else 2 * N
        mue = (mue * (den // N) + np.where(z == -1, den // 2, 0)) % den
        if not mue.any():
            den = 1
        return Source(G.R, mul, mue, den, kind, {"G": G, "k": k, "D": D, "z": z})
    return source(rng, "ordinary", maxn)


def direct_sum(parts):
    n = parts[0].shape[0]
    d = sum(p.shape[1] for p in parts)
    out = np.zeros((n, d, d), complex)
    o = 0
    for p in parts:
        e = p.shape[1]
        out[:, o:o + e, o:o + e] = p
        o += e
    return out


def conj(rep, V):
    return np.einsum("ji,kjl,lm->kim", V.conj(), rep, V)


def reducible(src, irs, rng, maxd=14, maxm=3, mind=1):
    """random direct sum in a random unitary basis; returns rep, multiplicities"""
    while True:
        mult = [int(rng.choice([0, 0, 1, 1, 2, 3] if maxm <= 3 else [0, 1, 2, 3, 4, 5, 6])) for _ in irs]
        mult = [min(m, maxm) for m in mult]
        # keep the dimension manageable
        order = rng.permutation(len(irs))
        d = 0
        for i in order:
            while mult[i] and d + mult[i] * irs[i].shape[1] > maxd:
                mult[i] -= 1
            d += mult[i] * irs[i].shape[1]
        if d >= mind or maxm * sum(x.shape[1] for x in irs) < 2 * mind and d:
            break
    parts = [irs[i] for i in range(len(irs)) for _ in range(mult[i])]
    rep = direct_sum(parts)
    u = rng.random()
    if u < 0.6:
        rep = conj(rep, unitary(rep.shape[1], rng))
    elif u < 0.75:
        rep = conj(rep, unitary(rep.shape[1], rng, real=True))
    elif u < 0.85:
        p = rng.permutation(rep.shape[1])
        rep = rep[:, p][:, :, p]
    return rep, mult


def vec(a):
    """flat complex vector record"""
    a = np.asarray(a).ravel()
    return {"re": proj.fx(np.real(a)).tolist(), "im": proj.fx(np.imag(a)).tolist()}
