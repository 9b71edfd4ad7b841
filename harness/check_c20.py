"""C20: randomised searches replay behaviours of RetryModel; invalid requests are rejected."""
import re
import warnings
import zlib

import numpy as np

import build
import check_c07
import check_c12
import check_c17
import check_c23
import cryst as cr
import proj
import reps
import runner

RULE = ("every complete behaviour of RetryModel (limit 0..3, one search; limit 0..2, three nested searches) is replayed into the real searches by scheduling the draws of the random generator; "
        "content of every non-empty answer judged by the specification of its function; invalid requests over all entry points; non-trivial: at least one bad draw")
ASSUMES = ["draws are scheduled by replacing numpy.random.default_rng during the call; searches which do not use it run unscheduled"]
TAG = "C20"
CHUNK = 900
DESIGN = [{"module": "RetryModel", "cfg": "RetryModel.cfg"}, {"module": "RetryModel", "cfg": "RetryModelNested.cfg"}, {"module": "RetryModel", "cfg": "RetryModelDeep.cfg"}]


def behaviours(cfg):
    import json
    out, st = runner.tlc("RetryModel", cfg)
    if st["rc"]:
        raise runner.Machinery(out[-2000:])
    seen = {}
    for m in re.finditer(r'^"B\|(.*)"$', out, re.M):
        d = json.loads(m.group(1).replace('\\"', '"'))
        seen[(d["max"], tuple(d["draws"]))] = d
    return [seen[k] for k in sorted(seen)]


class Schedule:
    """hands out scheduled draws; one search per generator object, `per` calls per trial"""

    def __init__(self, draws, per, make, seed):
        self.draws, self.per, self.make, self.parts, self.used = list(draws), per, make, [], 0
        self.rng = np.random.Generator(np.random.PCG64(seed))
        self.calls = []
        self.first_bad = None  # searches before this one are served good draws, the others bad ones

    def generator(self, *a, **k):
        return Fake(self)


class Fake:
    def __init__(self, sch):
        self.sch, self.n, self.trial, self.vals = sch, 0, None, None
        self.rec = []
        sch.parts.append(self.rec)
        sch.calls.append(self)

    def _draw(self, size):
        if size is None:
            return self.sch.rng.random()
        s = self.sch
        shape = (size,) if np.isscalar(size) else tuple(int(x) for x in size)
        i = self.n % s.per
        if i == 0:
            if s.first_bad is not None:
                d = "good" if s.calls.index(self) < s.first_bad else "none"
            else:
                d = s.draws[s.used] if s.used < len(s.draws) else "good"
            s.used += 1
            self.rec.append(d)
            self.vals = s.make(d, shape, s.rng) if s.per == 2 else None
            self.trial = d
        self.n += 1
        if self.vals is not None and self.vals[i].shape == shape:
            return self.vals[i].copy()
        return s.rng.random(shape) * (1 if self.trial == "good" else 1e-13)

    def random(self, size=None, *a, **k):
        return self._draw(size)

    def standard_normal(self, size=None, *a, **k):
        return self._draw(size)

    def uniform(self, low=0.0, high=1.0, size=None):
        return self._draw(size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self._draw(size)


def scheduled(f, draws, per, make, seed, first_bad=None, **kw):
    s = Schedule(draws, per, make, seed)
    s.first_bad = first_bad
    old = np.random.default_rng
    np.random.default_rng = s.generator
    try:
        st, v, w = proj.call(f, **kw)
    finally:
        np.random.default_rng = old
    return st, v, w, s


def calls_per_trial(f, make):
    """calls of the generator per trial, from the searches which exhaust limits 1 and 2; 0 = unscheduled"""
    n = []
    for mx in (1, 2):
        st, v, w, s = scheduled(f, ["none"] * 99, 10 ** 9, make, 1, max_num_random_generations=mx)
        n.append(s.calls[0].n if s.calls else 0)
    return n[1] - n[0] if n[1] > n[0] == n[1] - n[0] else 0


def hermitian(H):
    return [np.real(H) / 2, np.imag(H) / 2]


def maker(rep):
    """draws for the decomposition of rep into irreps by a commuting Hermitian matrix"""
    n, d = rep.shape[:2]

    def avg(X):
        return np.einsum("kij,jl,kml->im", rep, X, rep.conj(), optimize=True) / n

    def make(kind, shape, rng):
        if shape != (d, d):
            return None
        if kind == "none":
            return hermitian(np.eye(d))
        for _ in range(60):
            A, B = rng.random((d, d)), rng.random((d, d))
            H = A + 1j * B
            M = avg(H + H.conj().T)
            w, v = np.linalg.eigh(M)
            groups, gap = [[0]], 1.0
            for i in range(1, d):
                rel = (w[i] - w[i - 1]) / max(abs(w[i]), abs(w[i - 1]), 1e-3)
                if rel > 1e-9:
                    gap = min(gap, rel)
                    groups.append([i])
                else:
                    groups[-1].append(i)
            if gap > 2e-4 and np.abs(w).min() > 1e-4:
                break
        if kind == "good":
            return [A, B]
        # merge every copy of one irrep with a copy of an inequivalent one
        chars = [np.einsum("ji,kjl,li->k", v[:, g].conj(), rep, v[:, g], optimize=True) for g in groups]
        cls = []
        for c in chars:
            for j, e in enumerate(cls):
                if abs(np.vdot(e, c)) / n > 0.5:
                    break
            else:
                cls.append(c)
        of = [next(j for j, e in enumerate(cls) if abs(np.vdot(e, c)) / n > 0.5) for c in chars]
        if len(cls) < 2:
            return hermitian(np.eye(d))
        a, b = rng.permutation(len(cls))[:2]
        ga, gb = [i for i in range(len(of)) if of[i] == a], [i for i in range(len(of)) if of[i] == b]
        u = np.arange(1, len(groups) + 1) * 1.7 - 0.3
        if len(ga) < len(gb) and rng.random() < 0.7:
            ga, gb = gb, ga
        if len(ga) > len(gb) and rng.random() < 0.7:
            # copies of the first one stay apart: only the second is lost
            for x, y in zip(ga, gb):
                u[y] = u[x]
        else:
            for i, g in enumerate(ga):
                u[g] = u[gb[i % len(gb)]]
            for i, g in enumerate(gb):
                if i >= len(ga):
                    u[g] = u[gb[0]]
        D = np.zeros(d)
        for x, g in zip(u, groups):
            D[g] = x
        H = (v * D) @ v.conj().T
        return hermitian((H + H.conj().T) / 2)
    return make


def intermaker(rep1, rep2):
    """draws for an intertwiner: orthogonal to the solution, or vanishing"""
    n, d = rep1.shape[:2]
    X = np.random.Generator(np.random.PCG64(3)).standard_normal((d, d)) + 0.3j
    U = np.einsum("kij,jl,kml->im", rep1, X, rep2.conj(), optimize=True)
    U = U / np.linalg.norm(U)

    def make(kind, shape, rng):
        if shape != (d, d):
            return None
        A, B = rng.random((d, d)), rng.random((d, d))
        if kind == "good":
            return [A, B]
        X = A + 1j * B
        if kind == "some" and d > 1:
            X = X - np.vdot(U, X) * U
        else:
            X = X * 1e-13
        return [np.real(X), np.imag(X)]
    return make


def tiny(kind, shape, rng):
    s = 1 if kind == "good" else 1e-13
    return [rng.random(shape) * s, rng.random(shape) * s]


def finite(v):
    try:
        return all(np.isfinite(np.asarray(x)).all() for x in v)
    except Exception:  # noqa: BLE001
        return False


def regular(src):
    n = len(src)
    reg = np.zeros((n, n, n), complex)
    for k in range(n):
        reg[k, src.mul[k], np.arange(n)] = src.mu[k]
    return reg


def target(name, rng, pool):
    """-> f(max_num_random_generations), make, read(value)->list of matrices, judge(value, id)->(spec, case) or None, kind"""
    import spgrep
    from spgrep.irreps import decompose_representation, enumerate_unitary_irreps, enumerate_unitary_irreps_from_regular_representation, get_physically_irrep
    from spgrep.representation import get_intertwiner
    if name in ("intertwiner", "physical"):
        while True:
            src = reps.source(rng, rng.choice(["ordinary", "spinor"]), maxn=24)
            irs = reps.irreps(src.mul, src.mu, rng)
            if name == "physical":
                irs = [x for x in irs if check_c17.indicator(x) > 0.5]
            big = [x for x in irs if x.shape[1] > 1]
            if irs and (big or rng.random() < 0.15):
                ir = (big or irs)[int(rng.integers(len(big or irs)))]
                break
        base = src.json()
        a, b = check_c17.gauge(ir, rng), check_c17.gauge(ir, rng)
        if name == "intertwiner":
            return (lambda **k: get_intertwiner(a, b, **k)), intermaker(a, b), lambda v: [] if np.allclose(v, 0, atol=0, rtol=0) else [v], lambda v, cid: (
                "Intertwine", {"kind": "intertwiner", "id": cid, **base, "rep1": proj.mats(a), "rep2": proj.mats(b), "ans": {"status": "ok", "u": proj.mats(np.asarray(v)[None])}})
        return (lambda **k: get_physically_irrep(a, 1, **k)), intermaker(a, a.conj()), lambda v: [] if np.allclose(v, 0, atol=0, rtol=0) else [v], lambda v, cid: (
            "Intertwine", {"kind": "physical", "id": cid, **base, "rep1": proj.mats(a), "indicator": 1, "ans": {"status": "ok", "real": proj.mats(v)}})
    if name in ("decompose", "regular"):
        if name == "decompose":
            while True:
                src, irs, rep, mult, kind = check_c12.request(rng, 24, 8)
                if sum(mult) > 1:
                    break

            def f(**k):
                return decompose_representation(rep, **k)
        else:
            src = reps.source(rng, maxn=12)
            rep = regular(src)

            def f(**k):
                return enumerate_unitary_irreps_from_regular_representation(rep, **k)
        return f, maker(rep), lambda v: v, lambda v, cid: ("Projection", {"kind": "decompose", "id": cid, **src.json(), "rep": proj.mats(rep), "ans": {"status": "ok", "irreps": build.irreps_json(v)}})
    # entry points
    method = "random" if name.endswith("random") else "Neto"
    if name == "corep":
        u = int(rng.integers(1, 1652))
        _, R, T, S = cr.prim_mag(u)
        if len(R) > 24:
            return target(name, rng, pool)
        (k, D), = cr.sample_kpoints(rng, 1)
        if rng.random() < 0.6:
            k, D = rng.integers(0, 2, 3), 2
        G, k = cr.random_frame(cr.Group(R, T, S), k, D, rng, strong=False)
        L = cr.invariant_lattice(G.R, rng)

        def judge(v, cid):
            ans = {"status": "ok", "irreps": build.irreps_json(v[0]), "ind": proj.ints(v[1]) if len(v[1]) else [], "z": proj.ints(v[2]), "U": proj.mats(v[3]), "anti": proj.ints(np.asarray(v[4]).astype(int)), "map": proj.idx1(v[5])}
            return "SmallReps", build.smallreps(cid, G, k, D, ans, allrows=8, spin=True, lattice=L, wantind=True)
        return (lambda **kw: spgrep.get_spacegroup_spinor_irreps_from_primitive_symmetry(L, G.R, G.t, G.S, k / D, **kw)), tiny, lambda v: v[0], judge
    h = int(rng.integers(1, 531))
    _, R, T = cr.prim_hall(h)
    if len(R) > (12 if method == "random" else 48):
        return target(name, rng, pool)
    (k, D), = cr.sample_kpoints(rng, 1)
    if rng.random() < 0.6:
        k, D = rng.integers(0, 2, 3), 2
    G, k = cr.random_frame(cr.Group(R, T), k, D, rng, strong=False)
    lg = build.little(G, k, D)
    H = cr.Group(G.R[lg], G.T[lg])
    if len(lg) < 2:
        return target(name, rng, pool)
    make = tiny
    if method == "random":
        N = D * cr.DT
        g = np.einsum("nji,j->ni", H.R, k) - k
        mu = np.exp(-2j * np.pi * ((g @ H.T.T) % N) / N)
        n = len(lg)
        mul = cr.mul_table(H.R, np.zeros((n, 3), int), H.S)
        reg = np.zeros((n, n, n), complex)
        for i in range(n):
            reg[i, mul[i], np.arange(n)] = mu[i]
        make = maker(reg)
    if name == "spinor":
        L = cr.invariant_lattice(G.R, rng)

        def judge(v, cid):
            ans = {"status": "ok", "irreps": build.irreps_json(v[0]), "z": proj.ints(v[1]), "U": proj.mats(v[2]), "anti": [0] * len(lg), "map": proj.idx1(v[3])}
            return "SmallReps", build.smallreps(cid, G, k, D, ans, allrows=8, spin=True, lattice=L)
        return (lambda **kw: spgrep.get_spacegroup_spinor_irreps_from_primitive_symmetry(L, G.R, G.t, None, k / D, **kw)), tiny, lambda v: v[0], judge
    if name == "real":
        if ((2 * k) % D).any():
            k, D = rng.integers(0, 2, 3), 2
            lg = build.little(G, k, D)
            H = cr.Group(G.R[lg], G.T[lg])

        def judge(v, cid):
            n = len(lg)
            ans = {"status": "ok", "irreps": build.irreps_json(v[0]), "isreal": [int(not np.iscomplexobj(x)) for x in v[0]], "ind": check_c07.guess(v[0], n), "cplx": []}
            rows = list(range(n)) if n <= 8 else cr.generators(H.R, H.T, H.S)
            mul = cr.mul_table(H.R, H.T, H.S, rows)
            return "RealReps", {"id": cid, "ops": H.json(), "Dt": cr.DT, "k": [int(x) for x in k], "Dk": int(D), "rows": [r + 1 for r in rows], "mul": [[x + 1 for x in r] for r in mul], "ans": ans}
        return (lambda **kw: spgrep.get_spacegroup_irreps_from_primitive_symmetry(G.R, G.t, k / D, real=True, **kw)), tiny, lambda v: v[0], judge

    def judge(v, cid):
        ans = {"status": "ok", "irreps": build.irreps_json(v[0]), "map": proj.idx1(v[1])}
        return "SmallReps", build.smallreps(cid, G, k, D, ans, allrows=8)
    return (lambda **kw: spgrep.get_spacegroup_irreps_from_primitive_symmetry(G.R, G.t, k / D, method=method, **kw)), make, lambda v: v[0], judge


SINGLE = ["intertwiner", "physical", "decompose", "regular", "entry-random"]
NESTED = ["entry-Neto", "real", "spinor", "corep"]


def searches(tier, seed, shard, nshard):
    plan = [(b, SINGLE) for b in behaviours("RetryModel.cfg")] + [(b, NESTED) for b in behaviours("RetryModelNested.cfg")]
    for bi, (b, names) in enumerate(plan):
        for ti, name in enumerate(names):
            if len(names) == len(NESTED) and tier == "quick" and (bi + ti + shard) % 2:
                continue
            for rep in range(1 if tier == "quick" else 6):
                rng = np.random.default_rng([seed, shard, bi, ti, rep, zlib.crc32(TAG.encode())])
                f, make, read, judge = target(name, rng, None)
                cid = "C20-%d-%s-%d-%d" % (shard, name, bi, rep)
                per = calls_per_trial(f, make)
                mx = b["max"]
                st, v, w, s = scheduled(f, b["draws"] if per else [], per or 1, make, [seed, bi, shard], max_num_random_generations=mx)
                parts = s.parts if per else []
                if not per:
                    mx = 0  # unscheduled: only signalling and content are judged
                mats = read(v) if st == "ok" else []
                empty = st == "ok" and len(mats) == 0
                broken = st == "ok" and not finite(mats)
                info = {"id": cid, "kind": name, "max": b["max"], "draws": b["draws"], "scheduled": int(per), "recorded": parts, "nontrivial": any(d != "good" for p in parts for d in p) or b["max"] == 0,
                        "status": st if st == "ok" else "%s %s" % (st, str(v)[:60]), "empty": bool(empty)}
                yield "Retry", {"kind": "retry", "id": cid, "max": mx, "parts": parts, "ans": {"status": st, "empty": bool(empty), "warned": w > 0, "broken": bool(broken)}}, info
                if st == "ok" and not empty and not broken:
                    spec, case = judge(v, cid + "-content")
                    yield spec, case, dict(info, id=cid + "-content")


def errors(rng):
    import spgrep
    from spgrep.irreps import enumerate_small_representations, enumerate_unitary_irreps
    from spgrep.corep import enumerate_spinor_small_corepresentations
    from spgrep.representation import get_direct_product, project_to_irrep
    from spgrep.spinor import enumerate_spinor_small_representations
    from spgrep.transform import get_crystal_system, get_primitive_transformation_matrix
    from spgrep.utils import get_symmetry_from_hall_number, grassmann_distance
    while True:
        h = int(rng.integers(1, 531))
        _, R, T = cr.prim_hall(h)
        if 2 <= len(R) <= 16:
            break
    (k, D), = cr.sample_kpoints(rng, 1)
    G, k = cr.random_frame(cr.Group(R, T), k, D, rng, strong=False)
    L = cr.invariant_lattice(G.R, rng)
    k0, Z, n = np.zeros(3), np.zeros((len(G), 3)), len(G)
    m = str(rng.choice(["neto", "Random", "", "NETO", "dixon", "netorandom"]))
    kk = k / D
    th0 = np.zeros(n, int)
    R2 = np.concatenate([G.R, G.R])
    T2, th2 = np.concatenate([G.t, G.t]), np.repeat([0, 1], n)
    yield "method-primitive", lambda: spgrep.get_spacegroup_irreps_from_primitive_symmetry(G.R, G.t, kk, method=m)
    yield "method-real", lambda: spgrep.get_spacegroup_irreps_from_primitive_symmetry(G.R, G.t, kk, real=True, method=m)
    yield "method-pointgroup", lambda: spgrep.get_crystallographic_pointgroup_irreps_from_symmetry(G.R, method=m)
    yield "method-spinor", lambda: spgrep.get_spacegroup_spinor_irreps_from_primitive_symmetry(L, G.R, G.t, None, kk, method=m)
    yield "method-corep1", lambda: spgrep.get_spacegroup_spinor_irreps_from_primitive_symmetry(L, G.R, G.t, th0, kk, method=m)
    yield "method-corep2", lambda: spgrep.get_spacegroup_spinor_irreps_from_primitive_symmetry(L, R2, T2, th2, k0, method=m)
    yield "method-pgspinor", lambda: spgrep.get_crystallographic_pointgroup_spinor_irreps_from_symmetry(L, G.R, method=m)
    yield "method-pgcorep", lambda: spgrep.get_crystallographic_pointgroup_spinor_irreps_from_symmetry(L, R2, th2, method=m)
    yield "method-unitary", lambda: enumerate_unitary_irreps(G.R, method=m)
    yield "method-unitary-real", lambda: enumerate_unitary_irreps(G.R, real=True, method=m)
    yield "method-small", lambda: enumerate_small_representations(G.R, G.t, k0, method=m)
    yield "method-small-spinor", lambda: enumerate_spinor_small_representations(L, G.R, G.t, k0, method=m)
    yield "method-small-corep", lambda: enumerate_spinor_small_corepresentations(L, R2, T2, th2, k0, method=m)
    pos, num = rng.random((2, 3)), [1, 2]
    yield "method-structure", lambda: spgrep.get_spacegroup_irreps(np.eye(3) * 3 + 0.1 * rng.random((3, 3)), pos, num, kk, method=m)
    yield "method-structure-spinor", lambda: spgrep.get_spacegroup_spinor_irreps(np.eye(3) * 3 + 0.1 * rng.random((3, 3)), pos, num, kpoint=kk, method=m)
    yield "method-structure-mag", lambda: spgrep.get_spacegroup_spinor_irreps(np.eye(3) * 3, pos, num, np.array([1.0, 0.5]), kk, method=m)
    # centred cells: a pure translation next to the identity, anywhere in the list
    c = np.array([[0.5, 0.5, 0], [0.5, 0.5, 0.5], [0.5, 0, 0], [1 / 3, 2 / 3, 2 / 3], [0, 0, 0.25], [0.01, 0, 0], [1e-4, 0, 0]])[int(rng.integers(7))]
    RC, TC = np.concatenate([G.R, G.R]), np.concatenate([G.t, G.t + c])
    p = rng.permutation(2 * n)
    RC, TC = RC[p], TC[p]
    yield "centred", lambda: spgrep.get_spacegroup_irreps_from_primitive_symmetry(RC, TC, kk)
    yield "centred-random", lambda: spgrep.get_spacegroup_irreps_from_primitive_symmetry(RC, TC, kk, method="random")
    yield "centred-real", lambda: spgrep.get_spacegroup_irreps_from_primitive_symmetry(RC, TC, k0, real=True)
    yield "centred-spinor", lambda: spgrep.get_spacegroup_spinor_irreps_from_primitive_symmetry(L, RC, TC, None, kk)
    yield "centred-corep1", lambda: spgrep.get_spacegroup_spinor_irreps_from_primitive_symmetry(L, RC, TC, np.zeros(2 * n, int), kk)
    yield "centred-corep2", lambda: spgrep.get_spacegroup_spinor_irreps_from_primitive_symmetry(L, np.concatenate([RC, RC]), np.concatenate([TC, TC]), np.repeat([0, 1], 2 * n), k0)
    yield "shifted-identity", lambda: spgrep.get_spacegroup_irreps_from_primitive_symmetry(G.R, G.t + c, kk)
    # shapes
    a, b = int(rng.integers(1, 5)), int(rng.integers(1, 4))
    o = int(rng.integers(1, 5))
    x, y = np.stack([np.eye(a)] * o), np.stack([np.eye(b)] * (o + int(rng.integers(1, 4))))
    yield "product-order", lambda: get_direct_product(x, y)
    yield "product-order2", lambda: get_direct_product(y, x)
    w = rng.random((o, a, a + 1))
    yield "product-rect", lambda: get_direct_product(x, w)
    yield "product-rect2", lambda: get_direct_product(w, x)
    yield "project-order", lambda: project_to_irrep(x, y)
    yield "project-order2", lambda: project_to_irrep(y, x)
    yield "project-rect", lambda: project_to_irrep(w, np.stack([np.eye(1)] * o))
    yield "project-rect2", lambda: project_to_irrep(x, w)
    for hn in (0, 531, -1, -5, -530, 1000, 10 ** 6):
        yield "hall%d-system" % hn, lambda hn=hn: get_crystal_system(hn)
        yield "hall%d-primitive" % hn, lambda hn=hn: get_primitive_transformation_matrix(hn)
        yield "hall%d-symmetry" % hn, lambda hn=hn: get_symmetry_from_hall_number(hn)
    q = rng.standard_normal((3, 6))
    for od in ("max", "Min", "", "projections", "chordal"):
        yield "ord-" + od, lambda od=od: grassmann_distance(q[:2], q[1:], ord=od)
    yield "ord-skip", lambda: grassmann_distance(np.eye(4)[:2], np.eye(4)[1:3], ord="fubini", skip_orthonormalization=True)


def chains(tier, seed, shard, nshard):
    """chains of generators which reach a proper subgroup only"""
    from spgrep.irreps import enumerate_unitary_irreps_from_solvable_group_chain as fchain
    for q in range(30 if tier == "quick" else 200):
        rng = np.random.default_rng([seed, q, shard, zlib.crc32(b"C20c")])
        table, mue, den, gens, e = check_c23.abstract(rng, 24)
        mue, den = check_c23.gauge(rng, table, mue, den, e)
        keep = gens[int(rng.integers(1, len(gens) + 1)):]
        st, v, w = proj.call(fchain, table, np.exp(2j * np.pi * mue / den), list(keep))
        cid = "C20-%d-chain-%d" % (shard, q)
        try:
            empty = st == "ok" and len(v) == 0
        except TypeError:
            empty = False
        yield "Retry", {"kind": "chain", "id": cid, "table": (table + 1).tolist(), "chain": [int(g) + 1 for g in keep], "ans": {"status": st, "empty": bool(empty), "warned": w > 0}}, {
            "id": cid, "kind": "chain", "order": len(table), "kept": len(keep), "nontrivial": True, "status": st if st == "ok" else "%s %s" % (st, str(v)[:60])}


def nongroups(tier, seed, shard, nshard):
    """lists of operations which are not closed under multiplication: no table and no representation exists"""
    import spgrep
    from spgrep.group import get_cayley_table
    from spgrep.irreps import enumerate_small_representations, enumerate_unitary_irreps
    for q in range(12 if tier == "quick" else 150):
        rng = np.random.default_rng([seed, q, shard, zlib.crc32(b"C20n")])
        grey = q % 3 == 2
        while True:
            h = int(rng.integers(1, 531))
            _, R, T = cr.prim_hall(h)
            th = np.zeros(len(R), int)
            if grey:
                R, T, th = np.concatenate([R, R]), np.concatenate([T, T]), np.repeat([0, 1], len(R))
            if len(R) < 3:
                continue
            p = rng.permutation(len(R))
            keep = p[: len(R) - 1] if q % 2 else p[: int(rng.integers(2, len(R)))]
            S, t, th = R[keep], T[keep], th[keep]
            if 0 not in th:
                continue
            had = {(x.tobytes(), int(y)) for x, y in zip(S, th)}
            if any(((a @ b).tobytes(), int(x ^ y)) not in had for a, x in zip(S, th) for b, y in zip(S, th)):
                break
        L = cr.invariant_lattice(R, rng)
        m = str(rng.choice(["Neto", "random"]))
        k0 = np.zeros(3)
        if grey:
            fs = [("table", lambda: get_cayley_table(S, th)),
                  ("corep", lambda: spgrep.get_spacegroup_spinor_irreps_from_primitive_symmetry(L, S, t, th, k0, method=m)),
                  ("pgcorep", lambda: spgrep.get_crystallographic_pointgroup_spinor_irreps_from_symmetry(L, S, th, method=m))]
        else:
            fs = [("table", lambda: get_cayley_table(S)),
                  ("pointgroup", lambda: spgrep.get_crystallographic_pointgroup_irreps_from_symmetry(S, real=bool(q & 4), method=m)),
                  ("unitary", lambda: enumerate_unitary_irreps(S, method=m)),
                  ("small", lambda: enumerate_small_representations(S, t, k0, method=m)),
                  ("space", lambda: spgrep.get_spacegroup_irreps_from_primitive_symmetry(S, t, k0, method=m)),
                  ("pgspinor", lambda: spgrep.get_crystallographic_pointgroup_spinor_irreps_from_symmetry(L, S, method=m)),
                  ("spinor", lambda: spgrep.get_spacegroup_spinor_irreps_from_primitive_symmetry(L, S, t, None, k0, method=m))]
        ops = [[[int(x) for x in r.ravel()], int(y)] for r, y in zip(S, th)]
        for name, f in fs:
            st, v, w = proj.call(f)
            cid = "C20-%d-nongroup-%d-%s" % (shard, q, name)
            yield "Retry", {"kind": "nongroup", "id": cid, "ops": ops, "ans": {"status": st}}, {"id": cid, "kind": "nongroup", "hall": h, "kept": len(S), "nontrivial": True, "status": st}


def limits(tier, seed, shard, nshard):
    """no draw is ever good: every entry point gives up after as many trials as it is told to make"""
    import spgrep
    from spgrep.corep import enumerate_spinor_small_corepresentations
    from spgrep.irreps import enumerate_small_representations, enumerate_unitary_irreps
    from spgrep.spinor import enumerate_spinor_small_representations
    for q in range(2 if tier == "quick" else 12):
        rng = np.random.default_rng([seed, q, shard, zlib.crc32(b"C20l")])
        while True:
            h = int(rng.integers(1, 531))
            _, R, T = cr.prim_hall(h)
            if 2 <= len(R) <= 12:
                break
        (k, D), = cr.sample_kpoints(rng, 1)
        G, k = cr.random_frame(cr.Group(R, T), k, D, rng, strong=False)
        lg = build.little(G, k, D)
        if len(lg) < 2:
            k, D = rng.integers(0, 2, 3), 2
            lg = build.little(G, k, D)
        if len(lg) < 2:
            k, D = np.zeros(3, int), 2
            lg = build.little(G, k, D)
        kk, k0 = k / D, np.zeros(3)
        L = cr.invariant_lattice(G.R, rng)
        n = len(G)
        th0 = np.zeros(n, int)
        R2, T2, th2 = np.concatenate([G.R, G.R]), np.concatenate([G.t, G.t]), np.repeat([0, 1], n)
        lr, lt = G.R[lg], G.t[lg]
        # a crystal of that symmetry: the orbit of a general position
        Lc = np.asarray(L, float)
        pos = np.array([r @ np.array([0.11, 0.27, 0.39]) + t for r, t in zip(G.R, G.t)]) % 1
        num = [1] * n
        mag = np.array([0.9 if i else 1.7 for i in range(n)]) * 0 + 1.0
        for m in ("Neto", "random"):
            fs = [("space", lambda **o: spgrep.get_spacegroup_irreps_from_primitive_symmetry(G.R, G.t, kk, method=m, **o)),
                  ("space-real", lambda **o: spgrep.get_spacegroup_irreps_from_primitive_symmetry(G.R, G.t, k0, real=True, method=m, **o)),
                  ("pointgroup", lambda **o: (spgrep.get_crystallographic_pointgroup_irreps_from_symmetry(G.R, method=m, **o),)),
                  ("pointgroup-real", lambda **o: (spgrep.get_crystallographic_pointgroup_irreps_from_symmetry(G.R, real=True, method=m, **o),)),
                  ("unitary", lambda **o: enumerate_unitary_irreps(G.R, method=m, **o)),
                  ("unitary-real", lambda **o: enumerate_unitary_irreps(G.R, real=True, method=m, **o)),
                  ("small", lambda **o: enumerate_small_representations(lr, lt, kk, method=m, **o)),
                  ("small-real", lambda **o: enumerate_small_representations(lr, lt, kk, real=True, method=m, **o)),
                  ("spinor", lambda **o: spgrep.get_spacegroup_spinor_irreps_from_primitive_symmetry(L, G.R, G.t, None, kk, method=m, **o)),
                  ("spinor-small", lambda **o: enumerate_spinor_small_representations(L, lr, lt, kk, method=m, **o)),
                  ("pgspinor", lambda **o: spgrep.get_crystallographic_pointgroup_spinor_irreps_from_symmetry(L, G.R, method=m, **o)),
                  ("corep1", lambda **o: spgrep.get_spacegroup_spinor_irreps_from_primitive_symmetry(L, G.R, G.t, th0, kk, method=m, **o)),
                  ("corep2", lambda **o: spgrep.get_spacegroup_spinor_irreps_from_primitive_symmetry(L, R2, T2, th2, k0, method=m, **o)),
                  ("corep-small", lambda **o: enumerate_spinor_small_corepresentations(L, R2, T2, th2, k0, method=m, **o)),
                  ("pgcorep", lambda **o: spgrep.get_crystallographic_pointgroup_spinor_irreps_from_symmetry(L, R2, th2, method=m, **o)),
                  ("structure", lambda **o: spgrep.get_spacegroup_irreps(Lc, pos, num, k0, method=m, **o)),
                  ("structure-spinor", lambda **o: spgrep.get_spacegroup_spinor_irreps(Lc, pos, num, kpoint=k0, method=m, **o)),
                  ("structure-mag", lambda **o: spgrep.get_spacegroup_spinor_irreps(Lc, pos, num, mag, k0, method=m, **o))]
            for name, f in fs:
                def run(cut, f=f):
                    out = []
                    for mx in (1, 2, 3):
                        st, v, w, s = scheduled(f, [], 1, tiny, [seed, q], first_bad=cut, max_num_random_generations=mx)
                        out.append([st, bool(st == "ok" and len(v[0]) == 0), w > 0, s.calls[-1].n if s.calls else 0])
                    return out

                def both(f=f):
                    total = len(scheduled(f, [], 1, tiny, [seed, q])[3].calls)
                    cuts = [0] + sorted({total - 1} | {int(x) for x in rng.integers(1, total, 2)}) if total > 1 else [0]
                    return [(cut, run(cut)) for cut in cuts]
                alive, got = proj.forked(both) if name == "structure-mag" else (True, both())
                for cut, runs in got if alive else []:
                    cid = "C20-%d-limit-%d-%s-%s-%d" % (shard, q, name, m, cut)
                    yield "Retry", {"kind": "limit", "id": cid, "runs": [{"status": a, "empty": b, "warned": c, "calls": int(d)} for a, b, c, d in runs], "ans": {"status": "ok"}}, {
                        "id": cid, "kind": "limit", "name": name, "hall": h, "first-bad": cut, "calls": [x[3] for x in runs], "nontrivial": runs[0][3] > 0, "status": "ok"}


def cases(tier, seed, shard, nshard):
    yield from limits(tier, seed, shard, nshard)
    yield from searches(tier, seed, shard, nshard)
    yield from nongroups(tier, seed, shard, nshard)
    yield from chains(tier, seed, shard, nshard)
    for q in range(2 if tier == "quick" else 25):
        rng = np.random.default_rng([seed, q, shard, zlib.crc32(b"C20e")])
        for name, f in errors(rng):
            st, v, w = proj.call(f)
            cid = "C20-err-%d-%d-%s" % (shard, q, name)
            yield "Retry", {"kind": "error", "id": cid, "ans": {"status": st}}, {"id": cid, "kind": "error", "nontrivial": True, "status": st}
