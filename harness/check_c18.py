"""C18: sequences of changes of description, generated from FrameWords and replayed into the entry points."""
import json
import re
import zlib

import numpy as np

import build
import cryst as cr
import proj
import reps
import runner
import wrap

RULE = ("every word of FrameWords (up to 3 changes of description) x entry points (primitive, real, point group, spinor, co-representations, crystal structures) x random Hall settings / magnetic groups and k; "
        "the answer after every change is compared with the first answer carried over by Frames; non-trivial: little group of order > 1")
ASSUMES = ["characters and spinor matrices in fixed point (2^-11, 2^-13)", "structures not identified by spglib itself are skipped"]
TAG = "C18"
CHUNK = 300
DESIGN = [{"module": "FramesModel", "cfg": "FramesModelQuick.cfg", "tier": "quick"}, {"module": "FramesModel", "cfg": "FramesModel.cfg", "tier": "thorough"}]
ENTRIES = ["prim", "prim", "prim", "real", "point", "spinor", "spinor", "pgspinor", "corep", "corep", "structure", "structure", "magstructure", "spinorstructure"]
Q = 2048


def words():
    out, st = runner.tlc("FrameWords")
    if st["rc"]:
        raise runner.Machinery(out[-2000:])
    ws = {tuple(json.loads(m.replace('\\"', '"'))["word"]) for m in re.findall(r'^"B\|(.*)"$', out, re.M)}
    return sorted(w for w in ws if w)


def lift(C):
    return reps.su2(C * round(np.linalg.det(C)))


def traces(irreps):
    out = []
    for r in irreps:
        r = np.asarray(r)
        if r.ndim != 3 or r.shape[1] != r.shape[2]:
            raise ValueError("shape")
        t = np.einsum("kii->k", r)
        out.append({"re": proj.fx(np.real(t), Q).tolist(), "im": proj.fx(np.imag(t), Q).tolist()})
    return out


class World:
    """the concrete description; everything the caller of the library would hold"""

    def __init__(self, entry, rng):
        self.entry, self.rng = entry, rng
        self.spin = entry in ("spinor", "pgspinor", "corep", "magstructure", "spinorstructure")
        self.L = self.pos = None
        while not self._draw():
            pass
        self.method = "random" if rng.random() < 0.4 else "Neto"
        self.V = np.eye(2, dtype=complex)

    def _draw(self):
        rng, e = self.rng, self.entry
        mag = e in ("corep", "magstructure")
        if mag:
            u = int(rng.integers(1, 1652))
            _, R, T, S = cr.prim_mag(u)
            self.group = "u%d" % u
        else:
            h = int(rng.integers(1, 531))
            _, R, T = cr.prim_hall(h)
            S = np.zeros(len(R), int)
            self.group = "h%d" % h
        if len(R) > (48 if rng.random() < 0.2 else 16) or len(R) == 1 and rng.random() < 0.9:
            return False
        (k, D), = cr.sample_kpoints(rng, 1)
        if e == "real":
            k, D = rng.integers(-1, 2, 3), 2
        if e in ("point", "pgspinor"):
            k, D, T = np.zeros(3, int), 1, T * 0
        if len(R) > 2 and rng.random() < 0.8 and len(build.little(cr.Group(R, T, S), np.array(k), D)) < 2:
            return False
        self.D = int(D)
        if "structure" in e:
            p = rng.integers(0, cr.DT, 3)
            G = cr.Group(R, (T + p - R @ p) % cr.DT, S)
            typ = None
            if mag:
                import spglib
                typ = spglib.get_magnetic_spacegroup_type(u)["type"]
            self.L, self.pos, self.num, self.mm = cr.crystal(G.R, G.T, rng, nsite=2, S=S if mag else None, typ=typ)
            self.G, self.k = G, np.array(k, int)
            return len(self.pos) <= 100 and wrap.identified(self.L, self.pos, self.num, self.mm, self.G)
        if e in ("point", "pgspinor"):
            self.G, self.k = cr.Group(R, T), np.array(k, int)
        else:
            self.G, self.k = cr.random_frame(cr.Group(R, T, S), k, D, rng)
        if self.spin:
            self.L = cr.invariant_lattice(self.G.R, rng, handed="left" if rng.random() < 0.2 else None)
        return True

    # ---- changes: perform concretely, return the parameters for the trace
    def change(self, letter):
        rng, G, n = self.rng, self.G, len(self.G)
        if self.entry in ("point", "pgspinor") and letter in ("origin", "represent", "shiftk"):
            letter = "basis"
        if "structure" in self.entry and letter in ("represent", "reorder"):
            letter = "origin"
        if letter in ("rotate",) and self.L is None:
            letter = "method"
        if letter == "arm" and np.abs(self.k).max() > 30000:
            letter = "conjugate"
        s = {"act": letter, "byCode": False}
        if letter == "reorder":
            p = rng.permutation(n)
            self.G = cr.Group(G.R[p], G.T[p], G.S[p])
            s["p"] = (p + 1).tolist()
        elif letter == "basis":
            U = cr.rand_unimodular(rng, int(rng.integers(1, 4)))
            Ui = cr.int_inv(U)
            R, T = np.array([Ui @ r @ U for r in G.R]), G.T @ Ui.T
            k = U.T @ self.k
            s["U"], s["W"] = U.ravel().tolist(), Ui.ravel().tolist()
            if self.pos is not None:
                self.L, self.pos, self.num, self.mm = cr.expand(self.L, self.pos, self.num, U, self.mm)
            elif self.L is not None:
                self.L = U.T @ self.L
            if self.entry in ("prim", "real", "spinor") and rng.random() < 0.5:
                from spgrep.transform import transform_symmetry_and_kpoint
                st, v, w = proj.call(transform_symmetry_and_kpoint, U, G.R, G.t, self.k / self.D)
                s["byCode"] = True
                try:
                    R2, T2, k2 = np.array(proj.ints(v[0])).reshape(n, 3, 3), np.array(proj.num(v[1], cr.DT)).reshape(n, 3), np.array(proj.num(v[2], self.D)).reshape(3)
                    s["ops2"], s["k2"] = cr.Group(R2, T2, G.S).json(), k2.tolist()
                except Exception:  # noqa: BLE001
                    s["ops2"], s["k2"] = [], []
            self.G, self.k = cr.Group(R, T, G.S), k
        elif letter == "origin":
            p = rng.integers(-30, 30, 3)
            self.G = cr.Group(G.R, G.T + p - G.R @ p, G.S)
            s["p"] = p.tolist()
            if self.pos is not None:
                self.pos = self.pos + p / cr.DT
                q = rng.permutation(len(self.pos))
                self.pos, self.num, self.mm = self.pos[q], self.num[q], (None if self.mm is None else self.mm[q])
        elif letter == "represent":
            ident = np.array([(r == cr.I3).all() and th == 0 for r, th in zip(G.R, G.S)])
            v = rng.integers(-2, 3, (n, 3)) * (~ident)[:, None]
            self.G = cr.Group(G.R, G.T + cr.DT * v, G.S)
            s["v"] = v.tolist()
        elif letter == "shiftk":
            v = rng.integers(-3, 4, 3)
            self.k = self.k + self.D * v
            s["p"] = v.tolist()
        elif letter == "arm":
            lg = set(build.little(G, self.k, self.D).tolist())
            other = [i for i in range(n) if i not in lg]
            g = int(rng.choice(other)) if other and rng.random() < 0.8 else int(rng.integers(n))
            W = cr.int_inv(G.R[g])
            kk = W.T @ self.k
            self.k = -kk if G.S[g] else kk
            s["g"], s["W"] = g + 1, W.ravel().tolist()
            if self.spin:
                self.V = lift(build.cart(np.asarray(self.L, float), G.R[g:g + 1])[0]) @ self.V
        elif letter == "conjugate":
            self.k = -self.k
        elif letter == "method":
            self.method = {"Neto": "random", "random": "Neto"}[self.method]
        elif letter == "rotate":
            O = np.linalg.qr(rng.standard_normal((3, 3)))[0]
            if self.pos is not None and np.linalg.det(O) < 0:
                O = -O
            self.L = self.L @ O.T
            if self.spin:
                self.V = lift(O) @ self.V
        s["ops"], s["k"] = self.G.json(), self.k.tolist()
        if s["byCode"]:
            s["ops"], s["k"] = s.pop("ops2"), s.pop("k2")
        s["V"] = {"re": proj.fx(self.V.real).ravel().tolist(), "im": proj.fx(self.V.imag).ravel().tolist()}
        return s

    # ---- the call
    def call(self):
        import spgrep
        from spgrep.group import get_little_group
        from spgrep.irreps import enumerate_small_representations
        rng, G, e = self.rng, self.G, self.entry
        k = self.k / self.D
        m = self.method
        if m == "random" and len(G) > 24 and "structure" not in e:
            m = "Neto"
        U = {"n": 0, "d": [0, 0], "re": [], "im": []}
        seen = None

        def small():
            lr, lt, mp = get_little_group(G.R, G.t, k)
            return enumerate_small_representations(lr, lt, k, method=m)[0], mp

        if e == "prim":
            f = small if rng.random() < 0.3 else (lambda: spgrep.get_spacegroup_irreps_from_primitive_symmetry(G.R, G.t, k, method=m))
            read = (lambda v: (v[0], v[1], None, None))
        elif e == "real":
            f = (lambda: spgrep.get_spacegroup_irreps_from_primitive_symmetry(G.R, G.t, k, real=True, method=m))
            read = (lambda v: (v[0], v[1], None, None))
        elif e == "point":
            f = (lambda: spgrep.get_crystallographic_pointgroup_irreps_from_symmetry(G.R, method=m))
            read = (lambda v: (v, np.arange(len(G)), None, None))
        elif e == "pgspinor":
            f = (lambda: spgrep.get_crystallographic_pointgroup_spinor_irreps_from_symmetry(self.L, G.R, method=m))
            read = (lambda v: (v[0], np.arange(len(G)), v[2], None))
        elif e == "spinor":
            f = (lambda: spgrep.get_spacegroup_spinor_irreps_from_primitive_symmetry(self.L, G.R, G.t, kpoint=k, method=m))
            read = (lambda v: (v[0], v[3], v[2], None))
        elif e == "corep":
            f = (lambda: spgrep.get_spacegroup_spinor_irreps_from_primitive_symmetry(self.L, G.R, G.t, G.S, k, method=m))
            read = (lambda v: (v[0], v[5], v[3], None))
        else:
            kf, recip = wrap.kspec(rng, self.L, self.k, self.D)
            if e == "structure":
                f = (lambda: spgrep.get_spacegroup_irreps(self.L, self.pos, self.num, kf, method=m, reciprocal_lattice=recip))
                read = (lambda v: (v[0], v[3], None, build.observed(v[1], v[2])))
            elif e == "spinorstructure":
                f = (lambda: spgrep.get_spacegroup_spinor_irreps(self.L, self.pos, self.num, kpoint=kf, method=m, reciprocal_lattice=recip))
                read = (lambda v: (v[0], v[5], v[2], build.observed(v[3], v[4])))
            else:
                f = (lambda: spgrep.get_spacegroup_spinor_irreps(self.L, self.pos, self.num, self.mm, kf, method=m, reciprocal_lattice=recip))
                read = (lambda v: (v[0], v[7], v[2], build.observed(v[4], v[5], v[6])))
        st, v, w = proj.call(f)
        self.last = st if st == "ok" else "%s %s" % (st, str(v)[:80])
        ans = {"status": st, "map": [], "chi": [], "U": U}
        if st == "ok":
            try:
                irs, mp, su, seen = read(v)
                ans["map"] = proj.idx1(mp)
                ans["chi"] = traces(irs)
                if su is not None:
                    ans["U"] = proj.mats(su)
            except Exception:  # noqa: BLE001
                ans["status"] = "malformed"
        return ans, (seen.json() if seen is not None else [])

    def usable(self):
        if self.pos is None:
            return True
        return wrap.identified(self.L, self.pos, self.num, self.mm, self.G)


def cases(tier, seed, shard, nshard):
    ws = words()
    per = 8 if tier == "quick" else 120
    for wi, w in enumerate(ws):
        for q in range(per):
            if (wi + q) % nshard != shard:
                continue
            rng = np.random.default_rng([seed, wi, q, zlib.crc32(TAG.encode())])
            entry = str(rng.choice(ENTRIES))

            def run():
                W = World(entry, rng)
                c = {"id": "%s-%d-%d-%s" % (TAG, wi, q, entry), "Dk": W.D, "Dt": cr.DT, "spin": W.spin, "ops": W.G.json(), "k": W.k.tolist(), "steps": []}
                order = len(build.little(W.G, W.k, W.D))
                c["first"], c["firstseen"] = W.call()
                status, bad = [W.last], False
                for letter in w:
                    s = W.change(letter)
                    if not W.usable() or np.abs(W.G.R).max() > 12:
                        break
                    s["ans"], s["seen"] = W.call()
                    status.append(W.last)
                    c["steps"].append(s)
                return c, {"id": c["id"], "kind": entry, "word": list(w), "group": W.group, "k": c["k"], "den": W.D, "order": order, "nontrivial": order > 1, "done": len(c["steps"]), "status": status}

            if entry == "magstructure":
                good, r = proj.forked(run)
                if not good:
                    continue
                c, info = r
            else:
                c, info = run()
            if c["steps"]:
                yield "FramesTrace", c, info
