"""C11: damaged datasets."""
import os

import numpy as np
from hypothesis import strategies as st
from vlib.harness import Sub, require, call, Violation
from vlib import gen, uvm

VARIANTS = ["plain", "asan"]
TECHNIQUE = "fuzzing: structured corruption of generated datasets, read back under AddressSanitizer; undamaged prefix against the records written"
RULE = ("cases: datasets of 1-7 records (float and scaled storage, several variables and header items), damaged in 1-3 places of their "
        "files (truncated, emptied, removed, replaced by a directory, extended, bytes overwritten with random or format-aware values, lengths and channel numbers changed, words "
        "swapped, parts repeated), then opened, listed, selected, read, copied and rewound; oracle: no crash, no sanitizer report, no hang, "
        "and every record that ends before the first damaged byte of the visibility stream comes back as written when only the stream is "
        "damaged; non-trivial: the damage changed a file and the dataset could still be opened or records precede the damage")

FILES = ["visdata", "visdata", "visdata", "vartable", "header", "flags", "history"]


@st.composite
def damaged(draw, files=FILES):
    n = draw(st.integers(1, 7))
    return {"n": n, "nchan": draw(st.sampled_from([1, 2, 5, 31, 64])), "corr": draw(st.sampled_from("rrj")), "seed": draw(gen.seeds),
            "hist": draw(st.sampled_from([0, 3, 63, 64, 65, 200])), "wide": draw(st.booleans()),
            "dmg": draw(st.lists(hit(files), min_size=1, max_size=3)),
            "use": draw(st.lists(st.sampled_from(USES), max_size=4))}


WORDS = [b"\0\0\0\0", b"\xff\xff\xff\xff", b"\x7f\xff\xff\xff", b"\x80\0\0\0", b"\0\0\0\1", b"\0\0\x10\0", b"\xff\xff\xff\xf0", b"\0\0\1\0", b"\0\0\2\0", b"\x40\0\0\0",
         b"\x05\0\0\0", b"\x05\0\1\0", b"\x05\0\2\0", b"\xff\0\0\0", b"\xff\0\1\0"]
USES = ["vars", "items", "rewind", "select", "or", "dec", "copy", "decimate", "winsel", "all", "init"]


@st.composite
def hit(draw, files):
    f = draw(st.sampled_from(files))
    how = draw(st.sampled_from(["cut", "cut", "empty", "remove", "dir", "extend", "bytes", "bytes", "word", "word", "hdr", "hdr", "value", "value", "flip", "swap", "repeat", "drop"]))
    return {"f": f, "how": how, "pos": draw(st.one_of(st.integers(0, 400), st.integers(0, 6000))), "w": draw(st.integers(0, len(WORDS) - 1)),
            "b": draw(st.binary(min_size=1, max_size=9)), "v": draw(st.integers(0, 40)), "t": draw(st.integers(0, 4))}


def rec_data(c, k):
    d = uvm.spectrum(c["seed"] + k, c["nchan"], "normal")
    return d, uvm.mask(c["seed"] + k, c["nchan"], "runs")


def pre(k):
    return np.array([k, 2. * k, -1.]), 2455000.5 + k // 2, (k % 2, k % 3)


def write(c, path, n):
    with call("UV(new)", uvm.create, path, c["corr"], c["nchan"]) as uv:
        if c["hist"]:
            uv["history"] = "h" * c["hist"]
        uv["ngains"] = 5
        uv["leakage"] = np.array([1 + 2j, 3j])
        for name, t in (("v1", "i"), ("s1", "a"), ("dec", "d"), ("ra", "d"), ("arr", "r"), ("cc", "c"), ("jj", "j"), ("pol", "i")):
            uv.add_var(name, t)
        uv["dec"] = .5
        uv["ra"] = .25
        for k in range(n):
            uv["v1"] = k
            uv["s1"] = "t" * (1 + k % 3)
            uv["arr"] = np.arange(1 + k % 4, dtype=np.float32)
            uv["cc"] = 1j * k
            uv["jj"] = k
            uv["pol"] = -5 - k % 2
            d, m = rec_data(c, k)
            uv.write(pre(k), np.ma.array(d, mask=m))
        uv = None


EXT = {"a": 1, "j": 2, "i": 4, "r": 4, "d": 8, "c": 8}
VALUES = [0, 1, 2, 3, 4, -1, 7, 30, 33, 63, 128, 1000, 4097, 65536, 2 ** 31 - 1, -2 ** 31]


def items(path, b):
    """the items of a visibility stream: (variable, is a length, where its value is, how long)"""
    with open(path + "/vartable") as f:
        tab = [l.split() for l in f.read().split("\n") if l.strip()]
    out, at, size = [], 0, {}
    while at + 8 <= len(b):
        v, code = b[at], b[at + 2]
        if code == 2:
            at += 8
            continue
        if v >= len(tab) or code > 1:
            break
        t, name = tab[v]
        if code == 0:
            size[v] = int.from_bytes(b[at + 4:at + 8], "big")
            out.append((name, True, at + 4, 4))
            at += 8
        else:
            d = at + max(4, EXT[t])
            out.append((name, False, d, size.get(v, 0)))
            at = (d + size.get(v, 0) + 7) // 8 * 8
    return out


def damage(path, h):
    """-> first damaged offset, or None if nothing changed"""
    p = path + "/" + h["f"]
    if not os.path.isfile(p):
        return None
    with open(p, "rb") as f:
        old = f.read()
    n = len(old)
    pos = h["pos"] % (n + 1)
    word = pos - pos % 4
    how = h["how"]
    if how == "remove":
        os.remove(p)
        return 0
    if how == "dir":
        os.remove(p)
        os.mkdir(p)
        return 0
    if how == "cut":
        new = old[:pos]
    elif how == "empty":
        new = b""
    elif how == "extend":
        new = old + h["b"] * (1 + h["v"])
    elif how == "bytes":
        new = old[:pos] + h["b"] + old[pos + len(h["b"]):]
    elif how == "word":
        new = old[:word] + WORDS[h["w"]] + old[word + 4:]
    elif how == "value":    # a number that means something: a length, a number of channels, a baseline
        try:
            it = items(path, old) if h["f"] == "visdata" else []
        except (OSError, ValueError, UnicodeDecodeError):
            it = []
        pick = [x for x in it if h["b"][0] % 3 == 0 or x[0] == ("nchan" if h["b"][0] % 3 == 1 else "corr") and (x[1] or x[0] == "nchan")]
        if not pick:
            return None
        name, size, at, length = pick[h["pos"] % len(pick)]
        val = VALUES[h["v"] % len(VALUES)] if h["t"] else int.from_bytes(old[at:at + 4], "big", signed=True) * (h["v"] % 5) + h["w"] % 3
        new = old[:at] + (val % 2 ** 32).to_bytes(4, "big") + old[at + 4:]
    elif how == "hdr":      # an item header at an aligned place
        w8 = pos - pos % 8
        new = old[:w8] + bytes([h["v"], 0, h["t"], h["b"][0] % 3]) + old[w8 + 4:]
    elif how == "flip":
        new = bytearray(old)
        if n:
            new[pos % n] ^= 1 << (h["w"] % 8)
        new = bytes(new)
    elif how == "swap":
        new = old[:word] + old[word + 4:word + 8] + old[word:word + 4] + old[word + 8:]
    elif how == "repeat":
        w = 8 * (1 + h["v"])
        new = old[:word] + old[max(0, word - w):]
    else:
        w = 8 * (1 + h["v"] % 5)
        new = old[:word] + old[word + w:]
    if new == old:
        return None
    with open(p, "wb") as f:
        f.write(new)
    k = 0
    m = min(len(new), n)
    a, b = np.frombuffer(old[:m], np.uint8), np.frombuffer(new[:m], np.uint8)
    d = np.nonzero(a != b)[0]
    return int(d[0]) if len(d) else m


def try_(f, *a):
    try:
        return f(*a)
    except Exception:
        return None


def use(rec, uv, what, d):
    from aipy import miriad as M
    if what == "vars":
        for v in uv.vars():
            try_(uv.__getitem__, v)
    elif what == "items":
        for v in try_(uv.items) or []:
            try_(uv.__getitem__, v)
        for v in ("history", "leakage", "ngains", "freqs", "obstype", "vartable", "nspect0"):
            try_(uv.__getitem__, v)
    elif what == "rewind":
        try_(uv.rewind)
    elif what == "select":
        try_(uv.select, "antennae", 0, 1)
    elif what == "or":
        try_(uv.select, "time", 2455000, 2455002)
        try_(uv.select, "or", 0, 0)
        try_(uv.select, "polarization", -5, 0)
    elif what == "dec":
        try_(uv.select, "dec", 0, 1)
        try_(uv.select, "uvrange", 0, 10)
    elif what == "winsel":
        try_(uv.select, "visibility", 1, 3)
        try_(uv.select, "amplitude", 0, 100)
    elif what == "decimate":
        try_(uv.select, "decimate", 2, 1)
    elif what in ("copy", "init"):
        def copy():
            o = M.UV(rec.tmp() + "/copy", "new")
            o.init_from_uv(uv)
            if what == "copy":
                o.pipe(uv)
            else:
                for p, x in uv.all():
                    o.copyvr(uv)
                    o.write(p, x)
        try_(copy)
    else:
        def run():
            for p, x in uv.all():
                for v in ("v1", "s1", "arr", "cc", "jj"):
                    try_(uv.__getitem__, v)
        try_(run)


def read_damaged(c, rec):
    path = rec.tmp() + "/u"
    write(c, path, c["n"])
    touched, first = set(), None
    for h in c["dmg"]:
        x = damage(path, h)
        if x is not None:
            touched.add(h["f"])
            if h["f"] == "visdata":
                first = x if first is None else min(first, x)
            rec.event(h["f"] + ":" + h["how"])
    intact = None
    if touched == {"visdata"}:
        # where the records end: the stream of a dataset with fewer of them
        intact = 0
        for k in range(1, c["n"] + 1):
            p = path + "s%d" % k
            write(c, p, k)
            if os.path.getsize(p + "/visdata") > first:
                break
            intact = k
    got = 0
    try:
        from aipy import miriad as M
        uv = M.UV(path)
    except Exception as e:
        require(not intact, "the dataset cannot be opened (%s) although its first %s records are intact", e, intact)
        rec.event("not opened")
        rec.nt(False)
        uvm.errors()
        return
    rec.nt(bool(touched))
    rec.event("opened")
    try:
        if intact is not None:
            for k in range(intact):
                p, d = call("read of intact record %d" % k, uv.read)
                w = pre(k)
                wd, wm = rec_data(c, k)
                ok = np.array_equal(p[0], w[0]) and p[1] == w[1] and tuple(p[2]) == w[2]
                require(ok, "intact record %d has preamble %r", k, p)
                if c["corr"] == "r":
                    ok = uvm.same(d.data, wd)
                else:
                    ok = len(d) == len(wd) and np.all(np.abs(d.data - wd) <= 1e-3 * np.abs(wd).max())
                require(ok and np.array_equal(d.mask, wm), "intact record %d has data %r", k, d)
                require(uv["v1"] == k and uv["cc"] == 1j * k and uv["s1"] == "t" * (1 + k % 3), "intact record %d: variables differ", k)
            rec.event("intact" if intact else "none intact")
        for what in c["use"]:
            use(rec, uv, what, None)
        for _ in range(c["n"] + 12):
            if try_(uv.read) is None:
                break
        use(rec, uv, "vars", None)
    finally:
        uv = None
        uvm.errors()


def subs():
    return [Sub("damaged", damaged(), read_damaged, quick=1500, thorough=60000, weight=3),
            Sub("stream", damaged(["visdata"]), read_damaged, quick=700, thorough=40000, weight=2),
            Sub("header", damaged(["header", "vartable"]), read_damaged, quick=500, thorough=15000)]
