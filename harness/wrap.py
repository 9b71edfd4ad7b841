"""Random crystal structures with exactly known symmetry in a variety of cells."""
import numpy as np
import spglib

import cryst as cr


def structure(kind, g, rng, maxatoms=160, mag=False):
    """returns dict(L,pos,num,mag,G(truth),cell,skip)"""
    if mag:
        R0, T0, S0 = cr.mag_ops(g)
        P, Rp, Tp, Sp = cr.prim_mag(g)
        typ = spglib.get_magnetic_spacegroup_type(g)["type"]
    else:
        R0, T0 = cr.hall_ops(g)
        S0 = np.zeros(len(R0), int)
        P, Rp, Tp = cr.prim_hall(g)
        Sp = np.zeros(len(Rp), int)
        typ = 1
    nsite = int(rng.integers(2, 4))
    if kind.startswith("conv") and nsite * len(R0) > maxatoms:
        nsite = 2
    if kind.startswith("conv"):
        G = cr.Group(R0, T0, S0)
    else:
        G = cr.Group(Rp, Tp, Sp)
    # random origin of the description
    p = rng.integers(0, cr.DT, 3)
    if kind.endswith("std"):
        p = p * 0
    G = cr.Group(G.R, (G.T + p - G.R @ p) % cr.DT, G.S)
    L, pos, num, mm = cr.crystal(G.R, G.T, rng, nsite=nsite, S=G.S if mag else None, typ=typ)
    U = np.eye(3, dtype=int)
    if kind.endswith("shear"):
        U = cr.rand_unimodular(rng, int(rng.integers(1, 5)))
    elif kind.endswith("super"):
        d = int(rng.choice([2, 3, 4]))
        if len(pos) * d > maxatoms:
            d = 2
        U = cr.hnf_cell(rng, d)
    L, pos, num, mm = cr.expand(L, pos, num, U, mm)
    G = cr.supergroup(G, U)
    perm = rng.permutation(len(pos))
    pos = pos[perm]
    if rng.random() < 0.4:
        pos = pos + rng.integers(-2, 3, pos.shape)  # any representatives
    return L, pos, num[perm], (mm[perm] if mm is not None else None), G


def strained(L, G, rng):
    """(lattice, true operations, symprec): a strain of 2e-4 hidden by a loose symprec, or resolved by the default one"""
    M = rng.standard_normal((3, 3))
    L = L @ (np.eye(3) + 2e-4 * (M + M.T) / np.linalg.norm(M))
    if rng.random() < 0.6:
        return L, G, 2e-2
    keep = [i for i, r in enumerate(G.R) if (r == cr.I3).all() or (r == -cr.I3).all()]
    return L, cr.Group(G.R[keep], G.T[keep], G.S[keep], G.D), 1e-5


def identified(L, pos, num, mm, G, symprec=1e-5):
    """precondition: spglib (not under test) identifies exactly the intended symmetry"""
    try:
        if mm is None:
            ds = spglib.get_symmetry_dataset((L, pos, num), symprec=symprec)
        else:
            ds = spglib.get_magnetic_symmetry_dataset((L, pos, num, mm), symprec=symprec)
    except Exception:  # noqa: BLE001
        return False
    if ds is None or len(ds["rotations"]) != len(G):
        return False
    th = np.zeros(len(G), int) if mm is None else np.array(ds["time_reversals"]).astype(int)
    key = {tuple(r.ravel()) + tuple(t % G.D) + (int(s),) for r, t, s in zip(G.R, G.T, G.S)}
    got = {tuple(r.ravel()) + tuple(np.rint(t * G.D).astype(int) % G.D) + (int(s),) for r, t, s in zip(ds["rotations"], ds["translations"], th)}
    return got == key


def kspec(rng, L, k, D):
    """(kpoint argument, reciprocal_lattice argument or None)"""
    kf = k / D
    if rng.random() < 0.5:
        return kf, None
    dual = np.linalg.inv(L).T
    B = cr.rand_unimodular(rng, 3) @ np.diag(rng.choice([0.5, 1, 1, 2, 3], 3)) if rng.random() < 0.6 else rng.standard_normal((3, 3)) + 1.5 * np.eye(3)
    if abs(np.linalg.det(B)) < 0.1:
        B = np.eye(3)
    return kf @ np.linalg.inv(B), B @ dual


def nearby(rng, kf, p=0.06):
    """k given with noise below the tolerance passed along, and the option (Neto: the random method resolves eigenvalues)"""
    if rng.random() >= p:
        return kf, {}
    return kf + 2e-7 * rng.uniform(-1, 1, 3), {"atol": 3e-5}


def kcell(rng, G):
    """k for the (possibly non-primitive) cell"""
    (k, D), = cr.sample_kpoints(rng, 1)
    while D * G.D >= 32768:
        (k, D), = cr.sample_kpoints(rng, 1)
    if rng.random() < 0.3:
        k = k + D * rng.integers(-2, 3, 3)
    return k, D
