"""Calls into the code under test with total projection to plain integers."""
import signal
import warnings
import zlib

import numpy as np

S = 8192
BIG = 10**6


class Timeout(Exception):
    pass


class Stop(BaseException):
    """too many calls of this shard did not return: what was recorded so far decides"""


TIMEOUTS = [0]


def _alarm(*a):
    raise Timeout()


def present(a):
    """the same array as callers may hold it: read-only, another memory order, a strided or reversed view, or
    integers where the values are integral; which one is decided by the content, so that a run can be repeated"""
    if not isinstance(a, np.ndarray) or a.dtype == object or a.ndim == 0 or a.size == 0:
        return a
    q = zlib.crc32(np.ascontiguousarray(a).tobytes()) % 16
    if q < 2:
        v = a.view()
        v.flags.writeable = False
        return v
    if q == 2:
        return np.array(a, order="F")
    if q == 3:
        b = np.zeros(a.shape[:-1] + (2 * a.shape[-1],), a.dtype)
        b[..., ::2] = a
        return b[..., ::2]
    if q == 4:
        return a[::-1].copy()[::-1]
    if q in (5, 6) and a.dtype == float and a.shape == (3,) and np.all(a == np.rint(a)):
        return a.astype(int)
    return a


def call(f, *a, limit=60, lists=False, **kw):
    """(status, value, warnings): status ok | raises:<Type> | timeout
    lists: the call may be written with nested lists, as the documentation does"""
    if lists and zlib.crc32(b"".join(np.ascontiguousarray(x).tobytes() for x in a if isinstance(x, np.ndarray))) % 6 == 0:
        a = [x.tolist() if isinstance(x, np.ndarray) else x for x in a]
        kw = {k: x.tolist() if isinstance(x, np.ndarray) else x for k, x in kw.items()}
    else:
        a = [present(x) for x in a]
        kw = {k: present(x) for k, x in kw.items()}
    if TIMEOUTS[0] >= 3:
        raise Stop()
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            v = f(*a, **kw)
            st = "ok"
        except Timeout:
            v, st = None, "timeout"
            TIMEOUTS[0] += 1
        except Exception as e:  # noqa: BLE001
            v, st = e, "raises:" + type(e).__name__
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
    msgs = [x for x in w if issubclass(x.category, UserWarning)]
    return st, v, len(msgs)


def fx(x, scale=S):
    """fixed point, clipped, NaN -> BIG"""
    y = np.asarray(x, float) * scale
    y = np.where(np.isfinite(y), y, BIG)
    return np.rint(np.clip(y, -BIG, BIG)).astype(int)


def mats(a):
    """(n, d1, d2) array -> record; anything else -> a record no clause accepts"""
    try:
        a = np.asarray(a)
        if a.ndim != 3 or a.dtype == object:
            return {"n": int(a.shape[0]) if a.ndim else 0, "d": [-1, -1], "re": [], "im": []}
        n, d1, d2 = a.shape
        return {"n": n, "d": [d1, d2], "re": fx(np.real(a)).reshape(n, d1 * d2).tolist(), "im": fx(np.imag(a)).reshape(n, d1 * d2).tolist()}
    except Exception:  # noqa: BLE001
        return {"n": -1, "d": [-1, -1], "re": [], "im": []}


def ints(a, tol=1e-6):
    """list of integers (nested); non-integers become BIG"""
    try:
        b = np.asarray(a)
        if b.dtype == object:
            return [BIG]
        if np.iscomplexobj(b):
            b = np.where(np.abs(b.imag) < tol, b.real, np.nan)
        b = b.astype(float)
        r = np.rint(b)
        ok = np.isfinite(b) & (np.abs(b - r) < tol) & (np.abs(r) < BIG)
        return np.where(ok, r, BIG).astype(int).tolist()
    except Exception:  # noqa: BLE001
        return [BIG]


def num(a, D, tol=1e-4):
    """numerators over D of (nearly) rational values; others BIG"""
    try:
        b = np.asarray(a, float) * D
        r = np.rint(b)
        ok = np.isfinite(b) & (np.abs(b - r) < tol * D) & (np.abs(r) < BIG)
        return np.where(ok, r, BIG).astype(int).tolist()
    except Exception:  # noqa: BLE001
        return [BIG]


def idx1(a):
    """1-based index list"""
    v = ints(a)
    return [x + 1 if isinstance(x, int) else BIG for x in v] if isinstance(v, list) else [BIG]


def forked(f, *a):
    """run f in a child; (True, value), or (False, None) when the child is killed by a signal (C library crash)"""
    import os
    import pickle
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            data = pickle.dumps(f(*a))
        except BaseException as e:  # noqa: BLE001
            data = pickle.dumps(("__exc__", repr(e)))
        with os.fdopen(w, "wb") as o:
            o.write(data)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as i:
        data = i.read()
    st = os.waitpid(pid, 0)[1]
    if os.WIFSIGNALED(st) or not data:
        return False, None
    v = pickle.loads(data)
    if isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], str) and v[0] == "__exc__":
        raise RuntimeError(v[1])
    return True, v
