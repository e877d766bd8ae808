"""C06: cloning and filtering through init_from_uv / pipe."""
import numpy as np
from hypothesis import strategies as st
from vlib.harness import Sub, require, call, Violation
from vlib import gen, uvm
from checks import c03

TECHNIQUE = "property-based testing: generated source datasets piped through generated filters, compared with the filtered record list"
RULE = ("cases: source datasets with variable histories, piped (masked or raw form) through a generated filter (identity, drop records, "
        "scale, reflag, move in time/baseline/uvw) with generated override and exclude sets, float or scaled target; oracle: the source "
        "records and variables with the filter applied; non-trivial: variables or preambles change over the records and the filter "
        "or the override set is not empty")

ITEMS = {"ngains": 3, "interval": 0.5, "freq0": 1.25, "nsols": 4}


@st.composite
def case(draw):
    c = draw(c03.history(6, 25))
    c["smode"] = draw(st.sampled_from(["r", "r", "j"]))
    c["tmode"] = draw(st.sampled_from(["r", "r", "r", "j"]))
    names = sorted(c["vars"])
    c["override"] = [(n, draw(st.sampled_from(range(len(c["vars"][n]["pool"]))))) for n in draw(st.lists(st.sampled_from(names), max_size=2, unique=True))]
    c["exclude"] = [n for n in draw(st.lists(st.sampled_from(names), max_size=2, unique=True)) if n not in dict(c["override"])]
    c["hexcl"] = draw(st.lists(st.sampled_from(sorted(ITEMS)), max_size=2, unique=True))
    c["hover"] = draw(st.booleans())
    c["items"] = draw(st.lists(st.sampled_from(sorted(ITEMS)), max_size=4, unique=True))
    c["hist"] = draw(uvm.TEXT)
    c["app"] = draw(uvm.TEXT)
    c["raw"] = draw(st.booleans())
    c["filter"] = draw(st.lists(st.sampled_from(["drop", "scale", "reflag", "time", "bl", "uvw"]), max_size=3, unique=True))
    c["mod"] = draw(st.integers(1, 3))
    c["seed"] = draw(gen.seeds)
    c["twice"] = draw(st.booleans())
    c["sel"] = draw(st.sampled_from([None, None, "time", "ants", "increment", "decimate"]))
    c["selv"] = draw(st.integers(1, 3))
    return c


def source(c, path):
    """Write the source; returns the records with their variables."""
    recs, cur = [], {}
    h = call("UV(new)", uvm.create, path, c["smode"], c["nchan"])
    uv = h.uv
    uv["history"] = c["hist"]
    for n in c["items"]:
        uv[n] = ITEMS[n]
    for n, v in c["vars"].items():
        uv.add_var(n, v["t"])
    k = 0
    for op in c["ops"]:
        if op[0] == "s":
            obj, want = uvm.realise(c["vars"][op[1]]["t"], c["vars"][op[1]]["pool"][op[2]])
            call("set", uv.__setitem__, op[1], obj)
            cur[op[1]] = want
        else:
            d = uvm.spectrum(c["seed"] + k, c["nchan"], "normal")
            m = uvm.mask(c["seed"] + k, c["nchan"], "rand")
            p = (np.array([1., op[1], k // 2]), 2455000. + op[2], (op[1], op[2] + (k % 2) * 254))
            call("write", uv.write, p, np.ma.array(d, mask=m))
            recs.append([p, d, m, dict(cur)])
            k += 1
    uv = None
    h.__exit__(None, None, None)
    return recs


def filt(c, k, p, d, m):
    """The filter as a function of the record number, on plain arrays."""
    on = k % c["mod"] == 0
    (uvw, t, (i, j)) = p
    for f in c["filter"]:
        if not on:
            continue
        if f == "drop" and k % 2 == 0:
            return None
        if f == "scale":
            d = (d * np.float32(2.)).astype(np.complex64)
        if f == "reflag":
            m = np.logical_not(m)
        if f == "time":
            t = t + 100. + k
        if f == "bl":
            i, j = j, i + 1
        if f == "uvw":
            uvw = np.array([7., 7., float(k)])
    return (uvw, t, (i, j)), d, m


def selected(c, recs, uv=None):
    """The records of the source a selection leaves (made on uv, if given)."""
    v = c["selv"]
    if c["sel"] == "time":
        if uv is not None:
            uv.select("time", 2455000. + v - 0.5, 2455000. + v + 0.5)
        return [r for r in recs if r[0][1] == 2455000. + v]
    if c["sel"] == "ants":
        if uv is not None:
            uv.select("antennae", v, -1)
        return [r for r in recs if v in r[0][2]]
    if c["sel"] == "increment":
        if uv is not None:
            uv.select("increment", v, 0)
        return recs[::v]
    if c["sel"] == "decimate":
        if uv is not None:
            uv.select("decimate", v, 0)
        out, cnt, last = [], -1, None
        for r in recs:
            if r[0][1] != last:
                last = r[0][1]
                cnt += 1
            if cnt % v == 0:
                out.append(r)
        return out
    return recs


def pipe(c, rec):
    from aipy import miriad
    d0 = rec.tmp()
    recs = source(c, d0 + "/a")
    override = {n: uvm.realise(c["vars"][n]["t"], c["vars"][n]["pool"][k])[0] for n, k in c["override"]}
    owant = {n: uvm.realise(c["vars"][n]["t"], c["vars"][n]["pool"][k])[1] for n, k in c["override"]}
    exclude = list(c["exclude"]) + list(c["hexcl"])
    hwant = {n: ITEMS[n] for n in c["items"] if n not in c["hexcl"]}
    if c["hover"]:
        for n in list(hwant)[:1]:
            override[n] = hwant[n] = ITEMS[n] + 1
    ever = set()
    for r in recs:
        ever |= set(r[3])
    src = call("UV(old)", uvm.Uv, d0 + "/a")
    dst = call("UV(new)", uvm.Uv, d0 + "/b", "new", c["tmode"])
    if c["twice"]:
        call("read", src.uv.read)
        call("rewind", src.uv.rewind)
    call("select", selected, c, recs, src.uv)
    recs = selected(c, recs)
    call("init_from_uv", dst.uv.init_from_uv, src.uv, override=override, exclude=exclude)
    state = {"k": 0}

    def mfunc(uv, p, d):
        k = state["k"]
        state["k"] += 1
        require(uv is src.uv, "mfunc is called with another file")
        out = filt(c, k, p, d.data, np.ma.getmaskarray(d))
        if out is None:
            return p, None
        return out[0], np.ma.array(out[1], mask=out[2])

    def mraw(uv, p, d, f):
        k = state["k"]
        state["k"] += 1
        out = filt(c, k, p, d, f)
        if out is None:
            return p, None, None
        return out

    call("pipe", dst.uv.pipe, src.uv, mfunc=mraw if c["raw"] else mfunc, append2hist=c["app"], raw=c["raw"])
    require(state["k"] == len(recs), "the filter saw %d of %d records", state["k"], len(recs))
    src.__exit__(None, None, None)
    dst.__exit__(None, None, None)

    want = []
    for k, (p, d, m, snap) in enumerate(recs):
        o = filt(c, k, p, d, m)
        if o is not None:
            s = {n: v for n, v in snap.items() if n not in exclude}
            for n in owant:
                if n in ever:
                    s[n] = owant[n]
            want.append(o + (s,))
    if not want:
        return
    q = sum((1.01 if x == "j" else 0) for x in (c["smode"], c["tmode"]))
    with call("UV(old)", uvm.Uv, d0 + "/b") as uv:
        got_h = call("history", uv.__getitem__, "history")
        require(got_h == c["hist"] + c["app"], "history is %r, expected %r", got_h, c["hist"] + c["app"])
        for n in ITEMS:
            if n in hwant:
                require(uv[n] == hwant[n], "header item %s is %r, expected %r", n, uv[n], hwant[n])
            else:
                require(n not in uv.items(), "header item %s should not be there", n)
        for n in exclude:
            require(n not in uv.vars(), "excluded variable %s was copied", n)
        for k, (p, d, m, snap) in enumerate(want):
            gp, gd, gf = call("read", uv.read, raw=True)
            require(np.array_equal(gp[0], p[0]) and gp[1] == p[1] and tuple(gp[2]) == tuple(p[2]), "record %d: preamble %r, expected %r", k, gp, p)
            tol = q * max(np.abs(d.real).max(), np.abs(d.imag).max()) / 32767
            require(gd.shape == d.shape and np.abs(gd.real - d.real).max() <= tol and np.abs(gd.imag - d.imag).max() <= tol, "record %d: data differ", k)
            require(np.array_equal(gf, m), "record %d: flags differ", k)
            for n in sorted(snap):
                uvm.require_same_value(call("uv[%r]" % n, uv.__getitem__, n), snap[n], "record %d: variable %s" % (k, n))
        try:
            uv.read()
        except IOError:
            pass
        else:
            raise Violation("more records than were piped")
        uv = None
    snaps = [repr(r[3]) + repr(r[0][1:]) for r in recs]
    rec.nt(len(set(snaps)) > 1 and bool(c["filter"] or override or exclude))
    rec.event("raw" if c["raw"] else "masked")


def subs():
    return [Sub("pipe", case(), pipe, quick=500)]
