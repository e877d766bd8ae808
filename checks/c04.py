"""C04: header items."""
import numpy as np
from hypothesis import strategies as st
from vlib.harness import Sub, require, call, Violation
from vlib import gen, uvm

TECHNIQUE = "model-based testing: generated sequences of header-item writes, reads and reopenings against a dictionary model"
RULE = ("cases: sequences of up to 15 header-item writes (every item of aipy.miriad.itemtable, text in any script, integer, double and "
        "complex scalars and lists up to several buffers long, the 'freqs' structure), interleaved with record writes, append sessions "
        "and reads; oracle: dictionary of the last value written; non-trivial: an item is overwritten, or a value exceeds the 64-byte cache")

ITEMS = {"history": "a", "ngains": "i", "nfeeds": "i", "ntau": "i", "nsols": "i", "interval": "d", "leakage": "c",
         "freq0": "d", "bandpass": "c", "nspect0": "i", "nchan0": "i", "stopt": "d", "duration": "d", "freqs": "?"}
TEXT = st.one_of(uvm.TEXT, st.tuples(uvm.TEXT, st.integers(1, 900)).map(lambda x: x[0] * x[1]), st.just(""))
i32 = uvm.SCALAR["i"]
VAL = {"a": TEXT, "i": st.one_of(i32, st.lists(i32, min_size=0, max_size=40)),
       "d": st.one_of(uvm.f64, st.lists(uvm.f64, min_size=0, max_size=40)),
       "c": st.one_of(uvm.SCALAR["c"], st.lists(uvm.SCALAR["c"], min_size=0, max_size=40))}


@st.composite
def item(draw):
    name = draw(st.sampled_from(sorted(ITEMS)))
    t = ITEMS[name]
    if t == "?":
        n = draw(st.integers(1, 5))
        v = [n]
        for _ in range(n):
            v += [draw(i32), draw(uvm.f64), draw(uvm.f64)]
        return ("w", name, v, "list")
    v = draw(VAL[t])
    if t in "idc" and not isinstance(v, list) is False and draw(st.integers(0, 9)) == 0:
        r = draw(gen.seeds)
        v = [("bulk", r, draw(st.integers(100, 5000)))]
    return ("w", name, v, draw(st.sampled_from(["list", "array"])))


ops = st.lists(st.one_of(item(), item(), st.sampled_from([("rec", 0, 1), ("rec", 1, 1)]), st.just(("read",)), st.just(("reopen",))), min_size=1, max_size=15)


def expand(t, v):
    if isinstance(v, list) and v and isinstance(v[0], tuple) and v[0][0] == "bulk":
        a = gen.rng(v[0][1]).integers(-2 ** 20, 2 ** 20, v[0][2])
        return {"i": a.tolist(), "d": (a * 1.25).tolist(), "c": (a + 1j * a[::-1]).tolist()}[t]
    return v


def expected(t, v):
    if t in ("a", "?"):
        return v
    if isinstance(v, list):
        if len(v) == 1:
            return v[0]
        return np.array(v, dtype={"i": np.int64, "d": float, "c": complex}[t])
    return v


def check(uv, model, where):
    for n in sorted(model):
        t = ITEMS[n]
        got = call("uv[%r] %s" % (n, where), uv.__getitem__, n)
        if t == "?":
            require(list(got) == model[n], "%s %s: got %r expected %r", n, where, got, model[n])
        elif isinstance(model[n], np.ndarray):
            require(np.ndim(got) == 1 and len(got) == len(model[n]) and uvm.same(np.array(got, dtype=model[n].dtype), model[n]), "item %s %s: got %.200r expected %.200r", n, where, got, model[n])
        else:
            require(uvm.same_value(got, model[n]), "item %s %s: got %.200r expected %.200r", n, where, got, model[n])
    present = set(uv.items()) - {"vartable", "obstype"}
    require(present == set(model), "items() %s lists %r, written: %r", where, sorted(present), sorted(model))


def obstype(uv, kinds):
    want = {(True,): "autocorrelation", (False,): "crosscorrelation"}.get(tuple(kinds), "mixed-auto-cross")
    got = call("uv['obstype']", uv.__getitem__, "obstype")
    require(got == want, "obstype is %r for a file with %s records", got, want)


def headers(c, rec):
    first, c = c
    path = rec.tmp() + "/u"
    model, nrec, over, big = {}, 0, False, False
    h = call("UV(new)", uvm.create, path, "r", 2)

    kinds = set()

    def put(k, i, j):
        kinds.add(i == j)
        call("write", h.uv.write, (np.array([0., 0, k]), 2455000. + k, (i, j)), np.ma.array(np.full(2, k, np.complex64), mask=False))
    put(0, *first)
    nrec = 1
    for op in c:
        if op[0] == "w":
            t = ITEMS[op[1]]
            v = expand(t, op[2])
            over = over or op[1] in model
            obj = v
            if isinstance(v, list) and t != "?" and op[3] == "array":
                obj = np.array(v, dtype={"i": np.int64, "d": float, "c": complex}[t])
            call("uv[%r] = %.60r" % (op[1], obj), h.uv.__setitem__, op[1], obj)
            model[op[1]] = expected(t, v)
            big = big or (hasattr(v, "__len__") and len(v) > 16)
        elif op[0] == "rec":
            put(nrec, op[1], op[2])
            nrec += 1
        elif op[0] == "read":
            check(h.uv, model, "while writing")
        else:
            h.__exit__(None, None, None)
            with call("UV(old)", uvm.Uv, path) as uv:
                check(uv, model, "on reading")
                obstype(uv, kinds)
                uv = None
            h = call("UV(append)", uvm.Uv, path, "append")
            h.uv.add_var("nchan", "i")
    h.__exit__(None, None, None)
    with call("UV(old)", uvm.Uv, path) as uv:
        check(uv, model, "on reading")
        k = 0
        for p, d in uv.all():
            require(p[0][2] == k and d.data[0] == k, "record %d disturbed", k)
            k += 1
        require(k == nrec, "wrote %d records, read %d", nrec, k)
        check(uv, model, "after reading")
        obstype(uv, kinds)
        uv = None
    rec.nt(over or big)


def subs():
    return [Sub("headers", st.tuples(st.sampled_from([(0, 1), (2, 2)]), ops), headers, quick=600)]
