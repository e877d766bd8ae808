"""C31: scatter-add into an array accumulates every contribution exactly."""
import numpy as np
from hypothesis import strategies as st
from vlib.harness import Sub, require, call, Violation
from vlib import gen
from aipy import utils

RULE = ("cases: array of rank 1-4 (any of the 17 numeric/bool/complex dtypes, contiguous or strided view), an index list "
        "with negative and repeated entries, values; oracle: sequential Python loop (np.add.at-free) over the index list; "
        "non-trivial: at least two entries hit the same cell, or an invalid index/argument is present")

DT = ["?", "b", "B", "h", "H", "i", "I", "l", "L", "q", "Q", "f", "d", "g", "F", "D", "G"]


@st.composite
def arr_case(draw):
    dt = draw(st.sampled_from(DT))
    shape = draw(st.lists(st.integers(1, 6), min_size=1, max_size=4))
    n = draw(st.integers(0, 12))
    # few distinct cells so that repeats are common
    cells = draw(st.lists(st.tuples(*[st.integers(-d, d - 1) for d in shape]), min_size=1, max_size=5))
    ind = [draw(st.sampled_from(cells)) for _ in range(n)]
    init = draw(st.integers(0, 2 ** 31))
    vals = draw(st.lists(st.integers(-100, 100), min_size=n, max_size=n))
    ivals = draw(st.lists(st.integers(-100, 100), min_size=n, max_size=n))
    return {"dt": dt, "shape": shape, "ind": ind, "seed": init, "vals": vals, "ivals": ivals,
            "va": draw(st.sampled_from(["c", "f", "step", "rev"])),
            "vi": draw(st.sampled_from(["c", "f", "step", "rev"])),
            "vd": draw(st.sampled_from(["c", "step", "rev"]))}


def view(x, kind):
    """An array equal to x with a given memory layout, plus its backing store."""
    if kind == "f":
        y = np.asfortranarray(x)
        return y, y
    if kind == "step" and x.ndim:
        back = np.zeros((x.shape[0] * 2 + 1,) + x.shape[1:], dtype=x.dtype)
        back[1::2] = x
        return back[1::2], back
    if kind == "rev" and x.ndim:
        back = x[::-1].copy()
        return back[::-1], back
    y = x.copy()
    return y, y


def build(c):
    dt = np.dtype(c["dt"])
    r = np.random.default_rng(c["seed"])
    base = r.integers(0, 50, size=c["shape"])
    n = len(c["ind"])
    if dt.kind == "c":
        x = (base + 1j * r.integers(-50, 50, size=c["shape"])).astype(dt)
        v = (np.array(c["vals"], dtype=np.int64) + 1j * np.array(c["ivals"], dtype=np.int64)).astype(dt)
    elif dt.kind == "b":
        x = (base % 2).astype(dt)
        v = (np.array(c["vals"], dtype=np.int64) % 2).astype(dt)
    else:
        x = base.astype(dt)
        v = np.array(c["vals"], dtype=np.int64).astype(dt)
    ind = np.array(c["ind"], dtype=np.int64).reshape(n, len(c["shape"]))
    return x, ind, v


def expect(x, ind, v):
    out = x.copy()
    for i in range(len(v)):
        k = tuple(int(j) for j in ind[i])
        if out.dtype.kind in "iu":
            bits = out.dtype.itemsize * 8
            s = (int(out[k]) + int(v[i])) % (1 << bits)
            if out.dtype.kind == "i" and s >= 1 << (bits - 1):
                s -= 1 << bits
            out[k] = s
        elif out.dtype.kind == "b":
            out[k] = bool(out[k]) or bool(v[i])
        else:
            out[k] = out[k] + v[i]
    return out


def accumulate(c, rec):
    x, ind, v = build(c)
    want = expect(x, ind, v)
    a, back = view(x, c["va"])
    before = back.copy()
    iv, _ = view(ind, c["vi"])
    dv, _ = view(v, c["vd"])
    i0, d0 = iv.copy(), dv.copy()
    call("add2array", utils.add2array, a, iv, dv)
    require(np.array_equal(a, want), "dtype %s layout %s/%s/%s: got %r expected %r", c["dt"], c["va"], c["vi"], c["vd"], a.tolist(), want.tolist())
    require(np.array_equal(iv, i0) and np.array_equal(dv, d0), "inputs were modified")
    if c["va"] == "step":
        require(np.array_equal(back[::2], before[::2]), "cells outside the array view were modified")
    keys = [tuple(np.mod(k, c["shape"])) for k in ind.tolist()]
    rec.nt(len(set(keys)) < len(keys))
    rec.event("dtype " + c["dt"])


@st.composite
def bad_case(draw):
    c = draw(arr_case())
    how = draw(st.sampled_from(["high", "low", "wrap32", "wrap32n", "rank", "len", "dtype", "idtype", "notarray"]))
    c["how"] = how
    c["axis"] = draw(st.integers(0, len(c["shape"]) - 1))
    c["pos"] = draw(st.integers(0, 11))
    c["off"] = draw(st.integers(0, 5))
    c["which"] = draw(st.integers(0, 2))
    if not c["ind"]:
        c["ind"] = [tuple(0 for _ in c["shape"])]
        c["vals"] = [1]
        c["ivals"] = [1]
    return c


def rejected(c, rec):
    x, ind, v = build(c)
    a, back = view(x, "step")
    guard = back[::2].copy()
    how, ax = c["how"], c["axis"]
    p = c["pos"] % len(v)
    if how == "high":
        ind[p, ax] = c["shape"][ax] + c["off"]
    elif how == "low":
        ind[p, ax] = -c["shape"][ax] - 1 - c["off"]
    elif how == "wrap32":
        ind[p, ax] = (1 << 32) * (1 + c["off"]) + (ind[p, ax] % c["shape"][ax])
    elif how == "wrap32n":
        ind[p, ax] = -(1 << 32) * (1 + c["off"]) + (ind[p, ax] % c["shape"][ax])
    elif how == "rank":
        ind = np.concatenate([ind, np.zeros((len(v), 1), dtype=np.int64)], axis=1)
    elif how == "len":
        v = np.concatenate([v, v[:1]])
    elif how == "dtype":
        v = v.astype("d" if v.dtype.char != "d" else "f")
    elif how == "idtype":
        ind = ind.astype(np.int32)
    args = [a, ind, v]
    if how == "notarray":
        args[c["which"]] = args[c["which"]].tolist()
    rec.nt()
    rec.event("bad " + how)
    try:
        utils.add2array(*args)
    except (ValueError, TypeError):
        pass
    else:
        raise Violation("invalid argument (%s) was accepted" % how)
    require(np.array_equal(back[::2], guard), "cells outside the array were modified")
    if how in ("rank", "len", "dtype", "idtype", "notarray"):
        require(np.array_equal(a, x), "rejected call modified the array")


def large(c, rec):
    """Many contributions into few cells: float32/complex64 arrays as the
    gridder uses them (integers, so that every partial sum is exact)."""
    r = np.random.default_rng(c["seed"])
    n, m = c["n"], c["m"]
    dt = np.dtype(c["dt"])
    ind = r.integers(-m, m, size=(n, 2))
    v = r.integers(-20, 20, size=n).astype(dt)
    if dt.kind == "c":
        v = v + (1j * r.integers(-20, 20, size=n)).astype(dt)
    a = np.zeros((m, m), dtype=dt)
    call("add2array", utils.add2array, a, ind, v)
    want = np.zeros((m, m), dtype=complex)
    np.add.at(want, (ind[:, 0] % m, ind[:, 1] % m), v)
    require(np.array_equal(a, want.astype(dt)), "sum over %d contributions differs", n)
    rec.nt(n > m * m)


def subs():
    return [
        Sub("accumulate", arr_case(), accumulate, quick=3000, weight=3),
        Sub("rejected", bad_case(), rejected, quick=1500, weight=2),
        Sub("large", st.fixed_dictionaries({"seed": st.integers(0, 2 ** 31), "n": st.integers(0, 3000), "m": st.integers(1, 40),
                                            "dt": st.sampled_from(["f", "d", "F", "D"])}), large, quick=200),
    ]
