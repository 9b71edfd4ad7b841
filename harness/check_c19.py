"""C19: histories of the Session contract, generated by TLC, replayed into the library."""
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import warnings
import zlib

import numpy as np

import build
import check_c06
import cryst as cr
import proj
import reps
import runner

RULE = ("every history of SessionWords (up to 3 calls of two functions on two threads, interleaved with overwriting of results, new argument values, seeding) x pairs of public functions x random worlds, in a process of its own; "
        "two threads are interleaved at random line events of the library; argument forms shared/read-only/float/integer; non-trivial: two threads in a call at once, or a move of the caller")
ASSUMES = ["numerical equality is decided by status, structure, and random projections of all numbers at 1e-5"]
TAG = "C19"
CHUNK = 400
DESIGN = [{"module": "SessionImpl", "cfg": "SessionImpl.cfg"}]
LIB = os.path.join("src", "spgrep") + os.sep


def histories():
    out, st = runner.tlc("SessionWords")
    if st["rc"]:
        raise runner.Machinery(out[-2000:])
    return [json.loads(x)["hist"] for x in sorted({m.replace('\\"', '"') for m in re.findall(r'^"B\|(.*)"$', out, re.M)})]


# ---------------------------------------------------------------- argument objects
def world(rng):
    """two versions of every argument, of equal shapes and types"""
    while True:
        h = int(rng.integers(1, 531))
        _, R, T = cr.prim_hall(h)
        if not 2 <= len(R) <= 12:
            continue
        k, D = rng.integers(-1, 2, 3), 2
        if rng.random() < 0.5:
            (k, D), = cr.sample_kpoints(rng, 1)
        if rng.random() < 0.3:
            k, D = k * 0, 1
        G, k = cr.random_frame(cr.Group(R, T), k, D, rng)
        lg = build.little(G, k, D)
        if len(lg) >= 2 and np.abs(G.R).max() < 5:
            break
    out = []
    whole = bool(rng.random() < 0.4)
    for v in range(2):
        if v:
            U = cr.rand_unimodular(rng, 2)
            Ui = cr.int_inv(U)
            p = rng.integers(0, cr.DT, 3)
            R, T, k = np.array([Ui @ r @ U for r in G.R]), G.T @ Ui.T, U.T @ k + D * rng.integers(-1, 2, 3)
            G = cr.Group(R, T + p - R @ p)
        A = {}
        A["R"], A["t"], A["k"] = G.R.copy(), G.T / cr.DT, k / D
        A["L"] = cr.invariant_lattice(G.R, rng)
        if whole and all((r @ r.T == cr.I3).all() for r in G.R):
            A["L"] = np.eye(3) * int(rng.integers(2, 6))
        A["th"] = np.zeros(len(G), int)
        A["lR"], A["lt"] = A["R"][lg].copy(), A["t"][lg].copy()
        # grey group
        A["gR"], A["gt"], A["gth"] = np.concatenate([G.R, G.R]), np.concatenate([A["t"], A["t"]]), np.repeat([0, 1], len(G))
        n = len(lg)
        mul = cr.mul_table(G.R[lg], np.zeros((n, 3), int), np.zeros(n, int))
        N = D * cr.DT
        g = np.einsum("nji,j->ni", G.R[lg], k) - k
        mu = np.exp(-2j * np.pi * ((g @ G.T[lg].T) % N) / N)
        A["table"], A["fs"] = np.array(mul), mu
        full = cr.mul_table(G.R, G.T * 0, G.S)
        irs = reps.irreps(full, np.ones((len(G), len(G)), complex), np.random.default_rng(len(G)))
        irs = sorted(irs, key=lambda x: (x.shape[1], tuple(np.round(np.einsum("kii->k", x), 6).view(float))))
        u = reps.unitary(irs[-1].shape[1], rng)
        A["ftable"] = np.array(full)
        A["irr"], A["irr2"] = irs[-1].copy(), reps.conj(irs[-1], u)
        A["rep"] = reps.conj(reps.direct_sum([irs[0], irs[-1], irs[0]]), reps.unitary(2 + irs[-1].shape[1], rng))
        A["vec"] = np.array([build.cart(A["L"], G.R)[i] for i in range(len(G))])
        A["basis"] = reps.unitary(3, rng)[:2]
        A["basis2"] = reps.unitary(3, rng)[:2]
        A["tensors"] = rng.standard_normal((2, 3, 3))
        A["coeffs"] = rng.standard_normal((3, 3))
        A["mats"] = rng.standard_normal((2, 3, 3))
        A["pos"], A["num"], A["mag"] = rng.random((2, 3)), np.array([1, 2]), np.array([1.0, 1.0])
        A["cell"] = np.diag(rng.uniform(3, 6, 3)) + 0.2 * rng.standard_normal((3, 3))
        if whole:
            for key in ("tensors", "coeffs", "mats"):
                A[key] = np.rint(3 * A[key]) + 1.0
            A["basis"], A["cell"] = np.eye(3)[:2] * 1.0, np.diag(rng.integers(3, 7, 3)) * 1.0
        out.append((A, {"h": h, "centering": str(rng.choice(["P 1", "F 2 2 2", "-I 4 2", "R 3", "C 2y", "A 2 -2"]))}))
    out[1] = (out[1][0], out[0][1])
    return out, {"hall": h, "order": len(lg), "den": D}


def functions():
    import spgrep
    from spgrep import corep, group, irreps, representation, spinor, tensor, transform, utils
    F = {
        "irreps_primitive": lambda A, c: spgrep.get_spacegroup_irreps_from_primitive_symmetry(A["R"], A["t"], A["k"]),
        "irreps_primitive_random": lambda A, c: spgrep.get_spacegroup_irreps_from_primitive_symmetry(A["R"], A["t"], A["k"], method="random"),
        "irreps_real": lambda A, c: spgrep.get_spacegroup_irreps_from_primitive_symmetry(A["R"], A["t"], A["k"], real=True),
        "irreps_pointgroup": lambda A, c: spgrep.get_crystallographic_pointgroup_irreps_from_symmetry(A["R"]),
        "irreps_pointgroup_real": lambda A, c: spgrep.get_crystallographic_pointgroup_irreps_from_symmetry(A["R"], real=True),
        "irreps_structure": lambda A, c: spgrep.get_spacegroup_irreps(A["cell"], A["pos"], A["num"], A["k"]),
        "irreps_structure_recip": lambda A, c: spgrep.get_spacegroup_irreps(A["cell"], A["pos"], A["num"], A["k"], reciprocal_lattice=A["L"]),
        "spinor_structure": lambda A, c: spgrep.get_spacegroup_spinor_irreps(A["cell"], A["pos"], A["num"], kpoint=A["k"]),
        "spinor_structure_mag": lambda A, c: spgrep.get_spacegroup_spinor_irreps(A["cell"], A["pos"], A["num"], A["mag"], A["k"]),
        "spinor_primitive": lambda A, c: spgrep.get_spacegroup_spinor_irreps_from_primitive_symmetry(A["L"], A["R"], A["t"], kpoint=A["k"]),
        "spinor_corep0": lambda A, c: spgrep.get_spacegroup_spinor_irreps_from_primitive_symmetry(A["L"], A["R"], A["t"], A["th"], A["k"]),
        "spinor_corep": lambda A, c: spgrep.get_spacegroup_spinor_irreps_from_primitive_symmetry(A["L"], A["gR"], A["gt"], A["gth"], A["k"]),
        "spinor_pointgroup": lambda A, c: spgrep.get_crystallographic_pointgroup_spinor_irreps_from_symmetry(A["L"], A["R"]),
        "corep_pointgroup": lambda A, c: spgrep.get_crystallographic_pointgroup_spinor_irreps_from_symmetry(A["L"], A["gR"], A["gth"]),
        "small": lambda A, c: irreps.enumerate_small_representations(A["lR"], A["lt"], A["k"]),
        "small_spinor": lambda A, c: spinor.enumerate_spinor_small_representations(A["L"], A["lR"], A["lt"], A["k"]),
        "small_corep": lambda A, c: corep.enumerate_spinor_small_corepresentations(A["L"], A["gR"], A["gt"], A["gth"], A["k"]),
        "corep_factor_system": lambda A, c: corep.get_corep_spinor_factor_system(A["L"], A["gR"], A["gth"]),
        "unitary_Neto": lambda A, c: irreps.enumerate_unitary_irreps(A["lR"], A["fs"]),
        "unitary_random": lambda A, c: irreps.enumerate_unitary_irreps(A["lR"], A["fs"], method="random"),
        "unitary_real": lambda A, c: irreps.enumerate_unitary_irreps(A["R"], real=True),
        "regular_projective": lambda A, c: irreps.enumerate_unitary_irreps_from_regular_representation(representation.get_projective_regular_representation(A["lR"], A["fs"])),
        "decompose": lambda A, c: irreps.decompose_representation(A["rep"]),
        "physical": lambda A, c: irreps.get_physically_irrep(A["irr"], representation.frobenius_schur_indicator(A["irr"])),
        "equivalent": lambda A, c: irreps.is_equivalent_irrep(representation.get_character(A["irr"]), representation.get_character(A["irr2"])),
        "regular": lambda A, c: representation.get_regular_representation(A["R"]),
        "projective_regular": lambda A, c: representation.get_projective_regular_representation(A["lR"], A["fs"]),
        "intertwiner": lambda A, c: representation.get_intertwiner(A["irr"], A["irr2"]),
        "character": lambda A, c: representation.get_character(A["rep"]),
        "project": lambda A, c: representation.project_to_irrep(A["rep"], A["irr2"]),
        "is_unitary": lambda A, c: representation.is_unitary(A["rep"]),
        "is_representation": lambda A, c: representation.is_representation(A["rep"], A["ftable"]),
        "indicator": lambda A, c: representation.frobenius_schur_indicator(A["irr2"]),
        "direct_product": lambda A, c: representation.get_direct_product(A["irr"], A["rep"]),
        "check_spacegroup": lambda A, c: representation.check_spacegroup_representation(A["lR"], A["lt"], A["k"], np.ones((len(A["lR"]), 1, 1))),
        "character_R": lambda A, c: representation.get_character(A["R"]),
        "indicator_R": lambda A, c: representation.frobenius_schur_indicator(A["R"]),
        "direct_product_R": lambda A, c: representation.get_direct_product(A["R"], A["R"]),
        "is_representation_R": lambda A, c: representation.is_representation(A["R"], A["ftable"]),
        "unitary_R": lambda A, c: representation.is_unitary(A["R"]),
        "decompose_R": lambda A, c: irreps.decompose_representation(A["vec"]),
        "project_R": lambda A, c: representation.project_to_irrep(A["vec"], A["irr"]),
        "tensors_R": lambda A, c: tensor.get_symmetry_adapted_tensors(A["vec"], A["R"], 2, real=True),
        "intertwiner_R": lambda A, c: representation.get_intertwiner(A["vec"], A["vec"]),
        "cayley": lambda A, c: group.get_cayley_table(A["R"]),
        "cayley_time": lambda A, c: group.get_cayley_table(A["gR"], A["gth"]),
        "inverse": lambda A, c: [(group.get_identity_index(A["table"]), group.get_inverse_index(A["table"], i), group.get_order(A["table"], i)) for i in range(len(A["table"]))],
        "is_matrix_group": lambda A, c: group.is_matrix_group(A["R"]),
        "factor_system": lambda A, c: group.get_factor_system_from_little_group(A["lR"], A["lt"], A["k"]),
        "little": lambda A, c: group.get_little_group(A["R"], A["t"], A["k"]),
        "little_time": lambda A, c: group.get_little_group(A["gR"], A["gt"], A["k"], time_reversals=A["gth"]),
        "cocycle": lambda A, c: group.check_cocycle_condition(A["lR"], A["fs"]),
        "maximal_subgroup": lambda A, c: group.decompose_by_maximal_space_subgroup(A["gR"], A["gt"], A["gth"]),
        "spinor_factor_system": lambda A, c: spinor.get_spinor_factor_system(A["L"], A["R"]),
        "tensors": lambda A, c: tensor.get_symmetry_adapted_tensors(A["irr"], A["R"], 2),
        "tensors_cart": lambda A, c: tensor.get_symmetry_adapted_tensors(A["vec"], A["R"], 3, real=True),
        "intrinsic": lambda A, c: tensor.apply_intrinsic_symmetry(list(A["tensors"])),
        "transform": lambda A, c: transform.transform_symmetry_and_kpoint(A["L"] * 0 + np.array([[1, 1, 0], [0, 1, 0], [0, 0, 1]]), A["R"], A["t"], A["k"]),
        "unique_primitive": lambda A, c: transform.unique_primitive_symmetry(A["R"], A["t"]),
        "unique_primitive_time": lambda A, c: transform.unique_primitive_symmetry(A["gR"], A["gt"], A["gth"]),
        "primitive_matrix": lambda A, c: transform.get_primitive_transformation_matrix(c["h"]),
        "crystal_system": lambda A, c: transform.get_crystal_system(c["h"]),
        "centering": lambda A, c: transform.get_centering(c["centering"]),
        "hall_symmetry": lambda A, c: utils.get_symmetry_from_hall_number(c["h"]),
        "grassmann": lambda A, c: utils.grassmann_distance(A["basis"], A["basis2"]),
        "mode_dot": lambda A, c: utils.mode_dot(A["coeffs"], list(A["mats"])),
        "nroot": lambda A, c: [utils.nroot(x, 3) for x in A["fs"].ravel()[:6]],
        "integer_array": lambda A, c: [utils.is_integer_array(A[x]) for x in ("k", "t", "R")],
        "integer_tuple": lambda A, c: [utils.ndarray2d_to_integer_tuple(r) for r in A["R"]],
    }
    return F


HEAVY = ["irreps_primitive", "irreps_primitive_random", "irreps_real", "irreps_pointgroup_real", "spinor_primitive", "spinor_corep", "corep_pointgroup", "small", "small_spinor", "small_corep", "unitary_Neto", "unitary_random", "unitary_real", "regular_projective", "decompose",
         "physical", "intertwiner", "project", "tensors", "tensors_cart", "intrinsic", "irreps_structure", "spinor_structure", "spinor_structure_mag"]
CASTABLE = {"R", "t", "k", "L", "lR", "lt", "gR", "gt", "irr", "irr2", "rep", "vec", "cell", "pos", "coeffs", "mats", "tensors", "fs", "basis"}


def form(A, kind):
    """arguments as handed to one call: the shared objects, or read-only views of them, or copies of another type"""
    if kind == "shared":
        return A
    out = {}
    for key, a in A.items():
        if kind == "readonly":
            a = a.view()
            a.flags.writeable = False
        elif kind == "int" and key in CASTABLE and not np.iscomplexobj(a) and np.array_equal(a, np.rint(a)):
            a = np.rint(a).astype(int)
        elif kind == "float" and key in CASTABLE and not np.iscomplexobj(a):
            a = a.astype(float)
        elif kind == "complex" and key in ("irr", "irr2", "rep", "vec", "fs"):
            a = a.astype(complex)
        out[key] = a
    return out


# ---------------------------------------------------------------- observation
def invariants(v):
    """numbers which do not change when matrices are replaced by equivalent ones, or lists reordered: squares of
    projections of characters (square matrices), and of the entries (other arrays), summed over each list"""
    tot = np.zeros(4)

    def walk(x, depth):
        if isinstance(x, (list, tuple)):
            for y in x:
                walk(y, depth + 1)
        elif not (x is None or isinstance(x, (str, bool, np.bool_))):
            a = np.asarray(x)
            if a.dtype == object:
                return
            if a.ndim == 3 and a.shape[1] == a.shape[2]:
                a = np.einsum("kii->k", a)
            a = a.ravel()
            i = np.arange(a.size) + 0.37 * depth
            tot[:] += [abs(np.sum(a * np.exp(1j * (z * i + 0.11 * i * i)))) ** 2 / (1 + a.size) for z in (0.3, 1.1, 1.9, 2.7)]
    walk(v, 0)
    return [int(np.clip(round(x * 1e4), -2e9, 2e9)) if np.isfinite(x) else 2 * 10 ** 9 for x in tot]


def signature(st, v):
    if st != "ok":
        return {"status": st, "form": 0, "num": [], "inv": []}
    shape, nums = [], []

    def walk(x, depth):
        if isinstance(x, (list, tuple)):
            shape.append(("seq", len(x)))
            for y in x:
                walk(y, depth + 1)
        elif x is None or isinstance(x, (str, bool, np.bool_)):
            shape.append(str(x))
        else:
            a = np.asarray(x)
            if a.dtype == object:
                shape.append("object")
                return
            shape.append(a.shape)
            nums.append(np.concatenate([np.real(a).ravel(), np.imag(a).ravel()]).astype(float))
    walk(v, 0)
    x = np.concatenate(nums) if nums else np.zeros(0)
    i = np.arange(len(x))
    w = [np.ones(len(x)), np.cos(1 + 0.7 * i), np.cos(2 + 1.9 * i), np.sin(0.3 + 2.63 * i * i % 6.28)]
    bad = not np.isfinite(x).all()
    num = [int(np.clip(round(float(y @ x) * 1e5), -2e9, 2e9)) for y in w] if not bad else [2 * 10 ** 9]
    return {"status": "ok", "form": zlib.crc32(repr(shape).encode()) >> 1, "num": num, "inv": invariants(v)}


def digest_args(A):
    h = 0
    for key in sorted(A):
        a = A[key]
        h = zlib.crc32((key + str(a.dtype) + str(a.shape)).encode(), h)
        h = zlib.crc32(np.ascontiguousarray(a).tobytes(), h)
    return h >> 1


def digest_rng():
    s = np.random.get_state()
    h = zlib.crc32(s[1].tobytes() + repr((s[0],) + tuple(s[2:])).encode() + repr(random.getstate()).encode())
    return h >> 1


def settings():
    """process-wide settings which belong to the caller"""
    return {"errstate": sorted(np.geterr().items()), "errcall": repr(np.geterrcall()), "print": repr(sorted((k, repr(v)) for k, v in np.get_printoptions().items())),
            "warnings": repr(warnings.filters), "cwd": os.getcwd(), "environ": repr(sorted(os.environ.items())), "recursion": sys.getrecursionlimit(),
            "float": repr(np.ones(1) / 3), "threads": threading.active_count(), "trace": repr(sys.gettrace())}


def settings_changed(f, A, c):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        before = settings()
        try:
            f(A, c)
        except Exception:  # noqa: BLE001
            pass
        after = settings()
    return sorted(k for k in before if before[k] != after[k])


def seed_all(s):
    np.random.seed(100 + s)
    random.seed(100 + s)


def plain(f, A, c):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            return "ok", f(A, c)
        except Exception as e:  # noqa: BLE001
            return "raises:" + type(e).__name__, None


# ---------------------------------------------------------------- scheduled calls
class Call(threading.Thread):
    """runs a call in slices of line events of the library"""

    def __init__(self, f, A, c):
        super().__init__(daemon=True)
        self.f, self.A, self.c = f, A, c
        self.go, self.paused = threading.Semaphore(0), threading.Semaphore(0)
        self.budget, self.done, self.lines = 0, False, 0

    def run(self):
        self.go.acquire()
        sys.settrace(self._trace)
        try:
            self.st, self.v = "ok", self.f(self.A, self.c)
        except Exception as e:  # noqa: BLE001
            self.st, self.v = "raises:" + type(e).__name__, None
        sys.settrace(None)
        self.done = True
        self.paused.release()

    def _trace(self, frame, event, arg):
        return self._line if LIB in frame.f_code.co_filename else None

    def _line(self, frame, event, arg):
        if event == "line":
            self.lines += 1
            self.budget -= 1
            if self.budget <= 0:
                self.paused.release()
                self.go.acquire()
        return self._line

    def slice(self, budget):
        if self.done:
            return True
        self.budget = budget
        self.go.release()
        return self.paused.acquire(timeout=60)


def lines_of(f, A, c):
    t = Call(f, A, c)
    t.start()
    t.slice(10 ** 9)
    return max(t.lines, 1)


def scribble(v):
    if isinstance(v, (list, tuple)):
        for x in v:
            scribble(x)
        if isinstance(v, list):
            v.reverse()
            v.append("junk")
    elif isinstance(v, np.ndarray) and v.flags.writeable and v.dtype != object:
        v[...] = 3


def freeze(v):
    """signature taken before and after later events"""
    return v


def play(hist, fs, versions, const, forms, lines, seed):
    """perform the history; returns the events with observations"""
    rng = np.random.default_rng(seed)
    warnings.simplefilter("ignore")
    A = {key: a.copy() for key, a in versions[0].items()}
    seed_all(1)
    results, running, out = [], {}, []
    concurrent = False
    for e in hist:
        ev = dict(e)
        if e["ev"] == "begin":
            f = 0 if e["f"] == "a" else 1
            t = Call(fs[f], form(A, forms[f]), const)
            t.L = lines[f]
            t.start()
            concurrent |= bool(running)
            running[e["t"]] = t
            t.slice(int(rng.integers(1, t.L + 1)))
        elif e["ev"] == "end":
            t = running.pop(e["t"])
            if not t.slice(10 ** 9):
                t.st, t.v = "timeout", None
            results.append((t.st, t.v))
        elif e["ev"] == "overwrite":
            for st, v in results:
                scribble(v)
        elif e["ev"] == "set":
            for key in A:
                A[key][...] = versions[e["v"] - 1][key]
        elif e["ev"] == "seed":
            seed_all(e["s"])
        ev["args"], ev["rng"] = digest_args(A), digest_rng()
        # global random state is observed before the other threads continue
        ev["outs"] = [signature(st, v) for st, v in results]
        out.append(ev)
        for t in running.values():
            if rng.random() < 0.6:
                t.slice(int(rng.integers(1, t.L + 1)))
    return out, concurrent


def case(cid, hist, names, rng):
    (V1, V2), info = world(rng)
    versions, const = (V1[0], V2[0]), V1[1]
    F = functions()
    fs = [F[n] for n in names]
    ref, refd, lines, changed = [], [], [], []
    forms = [str(rng.choice(["shared", "shared", "readonly", "int", "float", "complex"])) for _ in range(2)]
    for q, f in enumerate(fs):
        row, rowd = [], []
        for A in versions:
            good, r = proj.forked(lambda: signature(*plain(f, {key: a.copy() for key, a in A.items()}, const)))
            d = r
            if good and forms[q] != "shared":
                good, d = proj.forked(lambda: signature(*plain(f, form({key: a.copy() for key, a in A.items()}, forms[q]), const)))
            if not good:
                return None
            row.append(r)
            rowd.append(d)
        ref.append(row)
        refd.append(rowd)
        good, n = proj.forked(lambda: lines_of(f, {key: a.copy() for key, a in versions[0].items()}, const))
        lines.append(n if good else 1)
        good, n = proj.forked(lambda: settings_changed(f, {key: a.copy() for key, a in versions[0].items()}, const))
        changed.append(n if good else [])
    rngs = []
    for s in (1, 2):
        seed_all(s)
        rngs.append(digest_rng())
    good, r = proj.forked(lambda: play(hist, fs, versions, const, forms, lines, int(rng.integers(2 ** 31))))
    if not good:
        return None
    ev, concurrent = r
    info.update(id=cid, kind="threads" if concurrent else "sequence", functions=names, forms=forms, events=[e["ev"] for e in hist], nontrivial=concurrent or any(e["ev"] in ("overwrite", "set", "seed") for e in hist),
                status=[[x["status"] for x in row] for row in ref])
    return {"id": cid, "strict": int("alignedmalloc" in os.environ.get("LD_PRELOAD", "")), "ref": refd, "plain": ref, "args": [digest_args(A) for A in versions], "rngs": rngs, "settings": changed, "ev": ev}, info


def cases(tier, seed, shard, nshard):
    hs = histories()
    names = sorted(functions())
    per = 1 if tier == "quick" else 12
    for q in range(per):
        for hi in range(len(hs)):
            if (hi + q) % nshard != shard:
                continue
            rng = np.random.default_rng([seed, hi, q, zlib.crc32(TAG.encode())])
            pool = HEAVY if rng.random() < 0.5 else names
            a = str(rng.choice(pool))
            b = a if rng.random() < 0.35 else str(rng.choice(HEAVY if rng.random() < 0.5 else names))
            r = case("%s-%d-%d" % (TAG, hi, q), hs[hi], [a, b], rng)
            if r is not None:
                yield ("SessionTrace",) + r


def main(tier, seed):
    d = tempfile.mkdtemp(prefix="alignedmalloc_")
    so = os.path.join(d, "alignedmalloc.so")
    try:
        p = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-fno-builtin", "-o", so, os.path.join(runner.HERE, "aligned_malloc.c")], capture_output=True)
        if p.returncode == 0:
            os.environ["LD_PRELOAD"] = so
        return runner.run("C19", "check_c19", tier, seed)
    finally:
        os.environ.pop("LD_PRELOAD", None)
        shutil.rmtree(d, ignore_errors=True)
