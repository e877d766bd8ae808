"""Shared by the UV checks: generated datasets, writers and readers."""
import gc
import sys

import numpy as np
from hypothesis import strategies as st

from . import harness
from .harness import Violation, require

_unraisable = []


def _hook(u):
    _unraisable.append("%s: %s" % (type(u.exc_value).__name__, u.exc_value))


sys.unraisablehook = _hook


class Uv(object):
    """A UV file held in one place, so that closing it is deterministic."""

    def __init__(self, path, status="old", corrmode="r"):
        from aipy import miriad
        self.uv = miriad.UV(path, status, corrmode)

    def __enter__(self):
        return self.uv

    def __exit__(self, et, ev, tb):
        self.uv = None
        if et is None:
            closed()


def errors():
    """Errors on closing, which are then forgotten."""
    m = list(_unraisable)
    del _unraisable[:]
    return m


def closed():
    """Everything dropped has been closed without error."""
    gc.collect(0)
    if _unraisable:
        m = list(_unraisable)
        del _unraisable[:]
        raise Violation("closing a UV file failed: %s" % m)


def drop_errors():
    """Errors on closing what a failed case left open are not the next case's."""
    if harness.FAILED[0]:
        gc.collect()
    del _unraisable[:]
    harness.FAILED[0] = False


harness.BEFORE.append(drop_errors)


def create(path, corrmode="r", nchan=None):
    h = Uv(path, "new", corrmode)
    if nchan is not None:
        h.uv.add_var("nchan", "i")
        h.uv["nchan"] = nchan
    return h


SPECIAL = np.array([0.0, -0.0, 1.0, -1.0, 1e-45, -1e-38, 3.4028235e38, -3.4028235e38, np.inf, -np.inf, np.nan, 1e-20, 65504.0, 1 / 3.], dtype=np.float32)


def spectrum(seed, n, kind):
    """complex64 record data, a pure function of the case"""
    r = np.random.default_rng(seed)
    d = np.empty(n, dtype=np.complex64)
    if kind == "special":
        d.real = r.choice(SPECIAL, n)
        d.imag = r.choice(SPECIAL, n)
    elif kind == "bits":
        b = r.integers(0, 2 ** 32, size=2 * n, dtype=np.uint64).astype(np.uint32).view(np.float32).copy()
        # a signalling NaN need not keep its payload bits on every machine
        b[np.isnan(b)] = np.nan
        d.real, d.imag = b[:n], b[n:]
    elif kind == "zero":
        d[:] = 0
    elif kind == "const":
        d[:] = np.complex64(complex(*r.normal(size=2)))
    else:
        d.real = r.normal(size=n)
        d.imag = r.normal(size=n)
    return d


def mask(seed, n, kind):
    r = np.random.default_rng(seed + 7)
    if kind == "none":
        return np.zeros(n, dtype=bool)
    if kind == "all":
        return np.ones(n, dtype=bool)
    if kind == "runs":
        m = np.zeros(n, dtype=bool)
        k = 0
        v = bool(r.integers(2))
        while k < n:
            w = int(r.integers(1, max(2, n // 3 + 2)))
            m[k:k + w] = v
            v = not v
            k += w
        return m
    if kind == "alt":
        return np.arange(n) % 2 == int(r.integers(2))
    if kind == "edge":
        m = np.zeros(n, dtype=bool)
        m[0] = m[-1] = True
        return m
    return r.random(n) < 0.5


MASKS = ["none", "all", "runs", "alt", "edge", "rand"]


def same(a, b):
    """Bit-for-bit equal up to the sign of zero and the payload of NaN."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind == "c" or b.dtype.kind == "c":
        return np.array_equal(a.real, b.real, equal_nan=True) and np.array_equal(a.imag, b.imag, equal_nan=True)
    if a.dtype.kind == "f" and b.dtype.kind == "f":
        return np.array_equal(a, b, equal_nan=True)
    return np.array_equal(a, b)


def same_value(got, want):
    """Variable or header values: type class and contents."""
    if isinstance(want, str):
        return isinstance(got, str) and got == want
    if isinstance(want, np.ndarray) and want.size == 1:
        want = want.ravel()[0]
    if isinstance(want, np.ndarray):
        return isinstance(got, np.ndarray) and same(got, want)
    return np.ndim(got) == 0 and not isinstance(got, str) and same(got, want)


antnum = st.one_of(st.integers(0, 5), st.integers(0, 40), st.sampled_from([253, 254, 255, 256, 257, 2045, 2046]), st.integers(0, 2046))
f64 = st.one_of(st.floats(-1e6, 1e6, allow_nan=False), st.sampled_from([0.0, -0.0, 1e300, -1e-300, 5e-324, 1.0, 123.25]),
                st.floats(allow_nan=False, allow_infinity=False))
jd = st.one_of(st.integers(0, 40).map(lambda k: 2455000.5 + k / 64.), st.floats(2400000.0, 2500000.0, allow_nan=False),
               st.floats(-1e9, 1e9, allow_nan=False))

F32MAX = float(np.finfo(np.float32).max)
f32 = st.one_of(st.floats(width=32, allow_nan=False, allow_infinity=False), st.sampled_from([0.0, 1.0, -1.5, float(np.float32(1e-45)), F32MAX]))
TEXT = st.text(st.characters(blacklist_categories=("Cs",), blacklist_characters="\0"), max_size=12)
TEXT = st.one_of(TEXT, st.text("abc _\n", max_size=40), st.text("ab", min_size=1, max_size=300))
SCALAR = {"a": TEXT, "i": st.one_of(st.integers(-3, 3), st.integers(-2 ** 31, 2 ** 31 - 1), st.sampled_from([-2 ** 31, 2 ** 31 - 1])),
          "j": st.one_of(st.integers(-3, 3), st.integers(-32768, 32767)),
          "r": f32, "d": f64, "c": st.tuples(f32, f32).map(lambda t: complex(*t))}
DTYPE = {"i": np.int32, "j": np.int32, "r": np.float32, "d": np.float64, "c": np.complex128}
WTYPES = {"i": ["i4", "i8", ">i4", "i8"], "j": ["i4", "i2", "i8"], "r": ["f4"], "d": ["f8"], "c": ["c16"]}


def value(t, maxlen=9):
    """(kind, data): a scalar, or a list with the dtype and layout to write."""
    if t == "a":
        return SCALAR["a"].map(lambda s: ("s", s))
    arr = st.tuples(st.lists(SCALAR[t], min_size=1, max_size=maxlen), st.sampled_from(WTYPES[t]), st.sampled_from(["c", "step", "rev"]))
    return st.one_of(SCALAR[t].map(lambda v: ("s", v)), arr.map(lambda x: ("l",) + x))


def realise(t, v):
    """-> (object to assign, value expected back)"""
    if v[0] == "s":
        return v[1], v[1]
    a = np.array(v[1], dtype=v[2])
    want = a.astype(DTYPE[t])
    if v[3] == "step":
        b = np.zeros(2 * len(a) + 1, dtype=a.dtype)
        b[1::2] = a
        a = b[1::2]
    elif v[3] == "rev":
        a = a[::-1].copy()[::-1]
    return a, want


VNAMES = ["lst", "ra", "obsra", "nants", "antpos", "source", "telescop", "freq", "sfreq", "pol", "inttime", "x", "v1", "epoch", "latitud", "ischan"]


def require_same_value(got, want, what):
    require(same_value(got, want), "%s: got %.300r expected %.300r", what, got, want)
