"""C07: selections."""
import math
import numpy as np
from hypothesis import strategies as st
from vlib.harness import Sub, require, call, Violation
from vlib import gen, uvm

TECHNIQUE = "differential testing: generated datasets and selection sequences against a reference filter over the list of records"
RULE = ("cases: datasets of 4-24 records (antenna pairs in both orders, autos, polarisations, times, uvw and metadata that vary) read under "
        "1-7 generated selection calls (antennae, auto, time, polarization, visibility, increment, uvnrange, uvrange, ra, dec, dra, ddec, "
        "on, pointing, dazim, delev, amplitude, decimate, and/or/clear; include or exclude) made before or between reads; oracle: a Python "
        "reference filter; non-trivial: the selection keeps some but not all records")

PI = math.pi


@st.composite
def dataset(draw):
    nant = draw(st.integers(1, 5))
    ants = draw(st.lists(st.sampled_from([0, 1, 2, 3, 4, 5, 6]), min_size=nant, max_size=nant, unique=True))
    recs = []
    for _ in range(draw(st.integers(4, 24))):
        recs.append({"i": draw(st.sampled_from(ants)), "j": draw(st.sampled_from(ants)), "dt": draw(st.sampled_from([0, 0, 0, 1, 2])),
                     "u": draw(st.integers(-4, 4)), "v": draw(st.integers(-4, 4)), "pol": draw(st.sampled_from([1, -5, -6, -7, -8, -1])),
                     "ra": draw(st.integers(0, 3)), "dec": draw(st.integers(-2, 2)), "dra": draw(st.integers(-1, 1)), "ddec": draw(st.integers(-1, 1)),
                     "on": draw(st.integers(0, 1)), "sf": draw(st.integers(1, 3)), "amp": draw(st.integers(0, 4)),
                     "da": draw(st.integers(0, 3)), "de": draw(st.integers(0, 3)), "rms": draw(st.integers(0, 3))})
    has = draw(st.lists(st.sampled_from(["pol", "dra", "ddec"]), max_size=3, unique=True))
    return {"recs": recs, "has": has, "nchan": draw(st.integers(1, 5)), "t0": draw(st.integers(0, 15)), "mode": draw(st.sampled_from("rrj")),
            "ratype": draw(st.sampled_from("rd")), "ants": ants}


def rng_sel(name, lo, hi, unit=1.0):
    """A range with ends between the grid points the data lie on."""
    return st.tuples(st.integers(lo, hi), st.integers(1, hi - lo + 1)).map(lambda t: (name, (t[0] - 0.37) * unit, (t[0] + t[1] - 0.37) * unit))


SEL = {
    "antennae": st.tuples(st.integers(-1, 6), st.integers(-1, 6)).map(lambda t: ("antennae",) + t),
    "auto": st.just(("auto", 0, 0)),
    "polarization": st.sampled_from([1, -5, -6, -7, -8]).map(lambda p: ("polarization", p, 0)),
    "time": st.tuples(st.integers(-2, 30), st.integers(0, 20)).map(lambda t: ("time", 2455000. + t[0] / 8. - 1 / 16., 2455000. + (t[0] + t[1]) / 8. + 1 / 16.)),
    "timeedge": st.tuples(st.integers(0, 30), st.integers(1, 20)).map(lambda t: ("time", 2455000. + t[0] / 8., 2455000. + (t[0] + t[1]) / 8.)),
    "timefrac": st.tuples(st.integers(0, 7), st.integers(0, 4)).map(lambda t: ("time", t[0] / 8. - 1 / 16., (t[0] + t[1]) / 8. + 1 / 16.)),
    "visibility": st.tuples(st.integers(1, 20), st.integers(0, 12)).map(lambda t: ("visibility", t[0], t[0] + t[1])),
    "increment": st.integers(1, 6).map(lambda n: ("increment", n, 0)),
    "uvnrange": st.tuples(st.integers(0, 5), st.integers(1, 5)).map(lambda t: ("uvnrange", max(0, t[0] - 0.03), t[0] + t[1] + 0.03)),
    "uvrange": st.tuples(st.integers(0, 12), st.integers(1, 12)).map(lambda t: ("uvrange", max(0, t[0] - 0.03), t[0] + t[1] + 0.03)),
    "ra": rng_sel("ra", -1, 4, 0.5), "rafine": rng_sel("ra", -32, 64, 0.03125), "dec": rng_sel("dec", -6, 6, 0.25), "dra": rng_sel("dra", -1, 1, 0.125), "ddec": rng_sel("ddec", -1, 1, 0.25),
    "on": st.integers(0, 1).map(lambda n: ("on", n, 0)),
    "pointing": st.tuples(st.integers(0, 3), st.integers(1, 3)).map(lambda t: ("pointing", max(0, t[0] - 0.4), t[0] + t[1] - 0.4)),
    "dazim": rng_sel("dazim", 0, 3), "delev": rng_sel("delev", 0, 3),
    "amplitude": st.tuples(st.integers(0, 4), st.integers(1, 4)).map(lambda t: ("amplitude", max(0, t[0] - 0.4), t[0] + t[1] - 0.4)),
    "decimate": st.tuples(st.integers(1, 4), st.integers(0, 3)).map(lambda t: ("decimate",) + t),
    "and": st.just(("and", 0, 0)), "or": st.just(("or", 0, 0)), "clear": st.just(("clear", 0, 0)),
}
WEIGHTED = ["antennae"] * 4 + ["auto"] * 2 + ["polarization"] * 3 + ["time"] * 2 + ["timeedge", "timefrac", "visibility", "increment", "uvnrange", "uvnrange", "uvrange", "ra", "rafine", "rafine", "dec",
            "dra", "ddec", "on", "pointing", "dazim", "delev", "amplitude"] + ["decimate"] * 2 + ["and"] * 2 + ["or"] * 3 + ["clear"]
selop = st.sampled_from(WEIGHTED).flatmap(lambda n: st.tuples(st.just("sel"), SEL[n], st.integers(0, 3).map(lambda k: int(k > 0))))
op = st.one_of(selop, selop, selop, st.tuples(st.just("read"), st.integers(1, 5)), st.just(("rewind",)))


@st.composite
def case(draw):
    return {"d": draw(dataset()), "ops": draw(st.lists(selop, min_size=1, max_size=4)) + draw(st.lists(op, max_size=8))}


def write(c, path):
    """Write the dataset; returns the records with all their attributes."""
    h = call("UV(new)", uvm.create, path, c["mode"], c["nchan"])
    uv = h.uv
    n = c["nchan"]
    for v, t in (("pol", "i"), ("ra", c["ratype"]), ("dec", c["ratype"]), ("dra", "r"), ("ddec", "r"), ("on", "i"), ("dazim", "d"), ("delev", "d"),
                 ("axisrms", "r"), ("nschan", "i"), ("sfreq", "d"), ("sdf", "d"), ("lst", "d"), ("mark", "i")):
        uv.add_var(v, t)
    uv["nschan"], uv["sdf"] = n, 0.001
    out = []
    tick = c["t0"]
    for k, r in enumerate(c["recs"]):
        tick += r["dt"]
        t = 2455000. + tick / 8.
        a = {"i": r["i"], "j": r["j"], "t": t, "u": float(r["u"]), "v": float(r["v"]), "w": float(k), "ra": r["ra"] * 0.5, "dec": r["dec"] * 0.5625, "dra": r["dra"] * 0.125,
             "ddec": r["ddec"] * 0.25, "on": r["on"], "sf": float(r["sf"]), "da": np.array([r["da"], 7. - r["da"]]), "de": np.array([r["de"] + 9., r["de"]]), "pol": r["pol"],
             "rms": [r["rms"] * ((x + k) % 3 == 0) for x in range(14)], "mark": k // 2}
        if "pol" in c["has"]:
            uv["pol"] = a["pol"]
        else:
            a["pol"] = 1
        uv["ra"], uv["dec"], uv["on"], uv["sfreq"], uv["mark"] = a["ra"], a["dec"], a["on"], a["sf"], a["mark"]
        if "dra" in c["has"]:
            uv["dra"] = a["dra"]
        else:
            a["dra"] = None
        if "ddec" in c["has"]:
            uv["ddec"] = a["ddec"]
        else:
            a["ddec"] = None
        uv["dazim"], uv["delev"] = a["da"], a["de"]
        uv["axisrms"] = np.array(a["rms"], dtype=np.float32)
        d = ((r["amp"] + np.arange(n)) % 5).astype(np.complex64) * np.complex64([1, 1j, -1][k % 3])
        m = uvm.mask(k, n, "rand")
        a["data"], a["mask"] = d, m
        call("write", uv.write, (np.array([a["u"], a["v"], a["w"]]), t, (a["i"], a["j"])), np.ma.array(d, mask=m))
        out.append(a)
    uv = None
    h.__exit__(None, None, None)
    return out


class Clause(object):
    def __init__(self, is_and):
        self.is_and, self.table, self.default, self.ops, self.amp = is_and, None, False, [], None

    def fill(self, discard):
        if self.table is None:
            self.table, self.default, self.diag = {}, not discard, None


class Reader(object):
    """The reference: a cursor over the records and a list of clauses."""
    ORDER = ["visibility", "time", "uvnrange", "pointing", "dazim", "delev", "dra", "ddec", "increment", "ra", "dec", "polarization", "on", "uvrange"]

    def __init__(self, recs):
        self.recs, self.pos, self.clauses = recs, 0, []
        self.dec, self.phase, self.icnt, self.curt = 1, 0, -1, None

    def rewind(self):
        self.pos, self.icnt, self.curt = 0, -1, None

    def select(self, name, a, b, include):
        discard = not include
        if name == "decimate":
            self.dec, self.phase = a, b
            return
        if name == "clear":
            self.clauses = []
            return
        if name in ("and", "or"):
            if self.clauses:
                self.clauses.append(Clause(name == "and"))
            return
        if not self.clauses:
            self.clauses.append(Clause(True))
        c = self.clauses[-1]
        if name == "auto":
            if c.table is None:
                c.table = {(i, j): not discard for i in range(8) for j in range(i, 8)}
            for i in range(8):
                c.table[(i, i)] = discard
        elif name == "antennae":
            if c.table is None:
                c.table = {(i, j): not discard for i in range(8) for j in range(i, 8)}
            for (i, j) in c.table:
                if (a == -1 and b == -1) or (-1 in (a, b) and max(a, b) in (i, j)) or (-1 not in (a, b) and (i, j) == (min(a, b), max(a, b))):
                    c.table[(i, j)] = discard
        elif name == "amplitude":
            c.amp = (a, b, discard)
        else:
            c.ops.append((name, a, b, discard))

    def matches(self, name, a, b, r, k):
        if name == "visibility":
            return a <= k + 1 <= b
        if name == "time":
            return a <= r["t"] <= b or a <= (r["t"] - 0.5) % 1 <= b
        if name == "uvnrange":
            return a <= math.hypot(r["u"], r["v"]) <= b
        if name == "uvrange":
            return a <= math.hypot(r["u"], r["v"]) * r["sf"] <= b
        if name == "pointing":
            i, j = r["i"], r["j"]
            return a <= max(r["rms"][2 * i], r["rms"][2 * i + 1], r["rms"][2 * j], r["rms"][2 * j + 1]) <= b
        if name == "dazim":
            return any(a <= x <= b for x in r["da"])
        if name == "delev":
            return any(a <= x <= b for x in r["de"])
        if name == "dra":
            return a <= (r["dra"] or 0) <= b
        if name == "ddec":
            return a <= (r["ddec"] or 0) <= b
        if name == "increment":
            return k % a == 0
        dec = r["dec"] + (r["ddec"] or 0)
        if name == "dec":
            return a <= dec <= b
        if name == "ra":
            return a <= r["ra"] + (r["dra"] / math.cos(dec) if r["dra"] is not None else 0) <= b
        if name == "polarization":
            return r["pol"] == a
        if name == "on":
            return r["on"] == a
        raise KeyError(name)

    def clause(self, c, r, k):
        if c.table is not None and c.table[(min(r["i"], r["j"]), max(r["i"], r["j"]))]:
            return False
        for t in self.ORDER:
            ops = [o for o in c.ops if o[0] == t]
            if not ops:
                continue
            discard = not ops[0][3]
            for (n, a, b, d) in ops:
                if self.matches(n, a, b, r, k):
                    discard = d
            if discard:
                return False
        return True

    def keep(self, r, k):
        """-> (kept, amplitude selection in force)"""
        prev, amp = True, None
        for c in self.clauses:
            if (not prev and c.is_and) or (prev and not c.is_and):
                continue
            prev = self.clause(c, r, k)
            if prev and c.amp is not None:
                amp = c.amp
        return prev, amp

    def read(self):
        """-> (record number, flags) or None at the end"""
        while self.pos < len(self.recs):
            k = self.pos
            self.pos += 1
            r = self.recs[k]
            kept, amp = self.keep(r, k)
            if not kept:
                continue
            if r["t"] != self.curt:
                self.icnt += 1
                self.curt = r["t"]
            if (self.icnt - self.phase) % self.dec:
                continue
            m = r["mask"]
            if amp is not None:
                x = np.abs(r["data"])
                ok = (x >= amp[0]) & (x <= amp[1])
                m = m | (ok if amp[2] else ~ok)
            return k, m
        return None


def expect(c, uv, model):
    want = model.read()
    try:
        p, d, f = uv.read(raw=True)
    except IOError:
        require(want is None, "no record was read where record %r should be", want and want[0])
        return None
    got = int(p[0][2])
    require(want is not None, "record %d was read where none should be left", got)
    k, m = want
    require(got == k, "record %d was read where record %d should be", got, k)
    r = model.recs[k]
    require(np.array_equal(p[0], [r["u"], r["v"], r["w"]]) and p[1] == r["t"] and tuple(p[2]) == (r["i"], r["j"]), "record %d: preamble %r", k, p)
    tol = 0 if c["mode"] == "r" else 1.01 * 4 / 32767
    require(d.shape == r["data"].shape and np.abs(d - r["data"]).max() <= 2 * tol, "record %d: data changed by the selection", k)
    require(np.array_equal(f, m), "record %d: flags %r, expected %r", k, np.asarray(f).astype(int).tolist(), m.astype(int).tolist())
    require(uv["mark"] == r["mark"] and uv["on"] == r["on"] and uv["ra"] == r["ra"] and uv["sfreq"] == r["sf"], "record %d: variables are those of another record", k)
    return k


def select(c, rec):
    d = c["d"]
    path = rec.tmp() + "/u"
    recs = write(d, path)
    amps = sum(1 for o in c["ops"] if o[0] == "sel" and o[1][0] == "amplitude")
    if amps > 1:            # documented as an error in MIRIAD
        return
    model = Reader(recs)
    h = call("UV(old)", uvm.Uv, path)
    uv = h.uv
    nt = False
    for o in c["ops"]:
        if o[0] == "sel":
            name, a, b = o[1]
            call("select %r" % (o,), uv.select, name, a, b, o[2])
            model.select(name, a, b, o[2])
        elif o[0] == "rewind":
            call("rewind", uv.rewind)
            model.rewind()
        else:
            for _ in range(o[1]):
                expect(d, uv, model)
    for rep in range(2):
        call("rewind", uv.rewind)
        model.rewind()
        kept = []
        while True:
            k = expect(d, uv, model)
            if k is None:
                break
            kept.append(k)
        nt = nt or 0 < len(kept) < len(recs)
    call("clear", uv.select, "clear", 0, 0)
    call("clear", uv.select, "decimate", 1, 0)
    model.select("clear", 0, 0, 1)
    model.select("decimate", 1, 0, 1)
    call("rewind", uv.rewind)
    model.rewind()
    for k in range(len(recs)):
        require(expect(d, uv, model) == k, "not every record is read after 'clear'")
    require(expect(d, uv, model) is None, "too many records after 'clear'")
    uv = None
    h.__exit__(None, None, None)
    rec.nt(nt)
    for o in c["ops"]:
        if o[0] == "sel":
            rec.event("select " + o[1][0])


def copying(c, rec):
    """Piping a selection carries the changes made in the records left out."""
    d = c["d"]
    d0 = rec.tmp()
    recs = write(d, d0 + "/a")
    if any(o[0] == "sel" and o[1][0] == "amplitude" for o in c["ops"]):
        return
    model = Reader(recs)
    src = call("UV(old)", uvm.Uv, d0 + "/a")
    src.uv["history"] if False else None
    dst = call("UV(new)", uvm.Uv, d0 + "/b", "new")
    for o in c["ops"]:
        if o[0] == "sel":
            name, a, b = o[1]
            call("select", src.uv.select, name, a, b, o[2])
            model.select(name, a, b, o[2])
    call("init_from_uv", dst.uv.init_from_uv, src.uv)
    dst.uv["history"] = ""
    call("pipe", dst.uv.pipe, src.uv)
    src.__exit__(None, None, None)
    dst.__exit__(None, None, None)
    kept = []
    while True:
        w = model.read()
        if w is None:
            break
        kept.append(w[0])
    if not kept:
        return
    with call("UV(old)", uvm.Uv, d0 + "/b") as uv:
        for k in kept:
            r = recs[k]
            p, dd, f = call("read", uv.read, raw=True)
            require(int(p[0][2]) == k and p[1] == r["t"] and tuple(p[2]) == (r["i"], r["j"]), "copied record %r where record %d should be", p, k)
            require(np.array_equal(f, r["mask"]), "flags of copied record %d differ", k)
            for v, key in (("mark", "mark"), ("on", "on"), ("ra", "ra"), ("dec", "dec"), ("sfreq", "sf")):
                require(uv[v] == r[key], "copied record %d: variable %s is %r, expected %r", k, v, uv[v], r[key])
            if "pol" in d["has"]:
                require(uv["pol"] == r["pol"], "copied record %d: pol is %r, expected %r", k, uv["pol"], r["pol"])
        try:
            uv.read()
        except IOError:
            pass
        else:
            raise Violation("more records were copied than the selection keeps")
        uv = None
    rec.nt(0 < len(kept) < len(recs))


def bad(c, rec):
    """Selections that make no sense are refused and change nothing."""
    path = rec.tmp() + "/u"
    recs = write(c["d"], path)
    h = call("UV(old)", uvm.Uv, path)
    for name, a, b in c["bad"]:
        try:
            h.uv.select(name, a, b)
        except (RuntimeError, ValueError):
            pass
        else:
            raise Violation("select(%r, %r, %r) was accepted" % (name, a, b))
    call("clear", h.uv.select, "clear", 0, 0)
    model = Reader(recs)
    for k in range(len(recs)):
        require(expect(c["d"], h.uv, model) == k, "records missing after refused selections")
    h.__exit__(None, None, None)
    rec.nt()


BAD = st.sampled_from([("time", 5, 4), ("visibility", 0, 4), ("visibility", 5, 4), ("increment", 0, 0), ("uvnrange", -1, 5), ("uvnrange", 5, 4), ("uvrange", 5, 5), ("antennae", 5000, 1),
                       ("antennae", -7, -7), ("ra", 2, 1), ("dec", 2, 2), ("dra", 1, 0), ("ddec", 1, 0), ("decimate", 0, 0), ("decimate", -2, 0), ("pointing", -1, 2), ("amplitude", -1, 2),
                       ("window", 0, 0), ("window", 5000, 0), ("dazim", 2, 1), ("delev", 2, 2), ("time", 4, 4)])


MANY = [n for n in WEIGHTED if n not in ("amplitude", "decimate", "clear", "and")]


@st.composite
def many(draw):
    """More selections than the reader first makes room for."""
    kinds = draw(st.sampled_from([MANY, ["time", "visibility"], ["polarization", "time"], ["antennae", "time"], ["antennae", "ra", "on"]]))
    inc = draw(st.sampled_from([0, 0, 1]))
    pool = draw(st.lists(st.sampled_from(kinds).flatmap(lambda n: st.tuples(st.just("sel"), SEL[n], st.just(inc))), min_size=2, max_size=3))
    n = draw(st.sampled_from([16, 17, 18, 33, 40, 65]))
    return {"d": draw(dataset()), "ops": draw(st.lists(st.sampled_from(pool), min_size=n, max_size=n + 3))}


def subs():
    return [Sub("many selections", many(), select, quick=60, weight=2), Sub("select", case(), select, quick=700, weight=4), Sub("copying", case(), copying, quick=250, weight=2),
            Sub("refused", st.fixed_dictionaries({"d": dataset(), "bad": st.lists(BAD, min_size=1, max_size=4)}), bad, quick=60)]
