"""C32: command-line parsers."""
import itertools
import optparse
import numpy as np
from hypothesis import strategies as st
from vlib.harness import Sub, require, call
from vlib import gen

TECHNIQUE = "grammar-based property testing: selections are generated as structures, written out in every notation and parsed back; malformed strings must be refused"
RULE = ("cases: antenna selections of up to 6 terms (keywords, single antennas, pairs, groups, exclusions, feed letters), channel lists, parameter "
        "expressions with every combination of groups, values and errors, source lists with names, positions and flux cuts, standard options; "
        "malformed strings built by breaking well-formed ones; non-trivial: at least 2 terms or a group")


# ---- antennas
ant = st.tuples(st.booleans(), st.integers(0, 40), st.sampled_from(["", "", "x", "y"]))


@st.composite
def ants(draw):
    term = st.one_of(st.sampled_from(["all", "auto", "cross"]).map(lambda k: {"k": k}),
                     st.builds(lambda a, p: {"k": "one", "a": [list(x) for x in a], "p": p}, st.one_of(st.lists(ant, min_size=1, max_size=1), st.lists(ant, min_size=1, max_size=3)), st.booleans()),
                     st.builds(lambda a, b, p, q: {"k": "pair", "a": [list(x) for x in a], "b": [list(x) for x in b], "p": p, "q": q},
                               st.lists(ant, min_size=1, max_size=3), st.lists(ant, min_size=1, max_size=3), st.booleans(), st.booleans()))
    return {"terms": draw(st.lists(term, min_size=0, max_size=6)), "nants": draw(st.integers(0, 8)), "comma": draw(st.booleans()),
            "big": draw(st.booleans())}


def one(a):
    return "%s%d%s" % ("-" if a[0] else "", a[1], a[2])


def wr(l, paren):
    s = ",".join(one(a) for a in l)
    return "(%s)" % s if paren or len(l) > 1 else s


def code(i, j):
    i, j = min(i, j), max(i, j)
    return 256 * (i + 1) + j + 1 if j < 255 else 2048 * (i + 1) + j + 1 + 65536


def selection(a, b):
    """(baseline, include, pol) of antenna a with antenna b."""
    pols = [x + y for x in (a[2] or "xy") for y in (b[2] or "xy")]
    if not a[2] and not b[2]:
        pols = [-1]
    elif a[1] > b[1]:            # the baseline's first antenna comes first
        pols = [p[::-1] for p in pols]
    return [(code(a[1], b[1]), int(not a[0] and not b[0]), p) for p in pols]


def antennas(c, rec):
    from aipy import scripting
    words, want = [], []
    for t in c["terms"]:
        if t["k"] in ("all", "auto", "cross"):
            words.append(t["k"])
            want = [] if t["k"] == "all" else want + [("auto", int(t["k"] == "auto"), -1)]
            continue
        a = [[x[0], x[1] * (9 if c["big"] else 1), x[2]] for x in t["a"]]
        if t["k"] == "one":
            words.append(wr(a, t["p"]))
            for x in a:
                for j in range(c["nants"]):
                    want += selection(x, [False, j, ""])
        else:
            b = [[x[0], x[1] * (9 if c["big"] else 1), x[2]] for x in t["b"]]
            words.append(wr(a, t["p"]) + "_" + wr(b, t["q"]))
            for x in a:
                for y in b:
                    want += selection(x, y)
    s = ",".join(words) + ("," if c["comma"] and words else "")
    got = call("parse_ants", scripting.parse_ants, s, c["nants"])
    require([tuple(x) for x in got] == want, "parse_ants(%r, %d): %r, expected %r", s, c["nants"], got, want)
    rec.nt(len(words) > 1 or any(t["k"] == "pair" and len(t["a"]) + len(t["b"]) > 2 for t in c["terms"]))


# ---- channels
@st.composite
def chans(draw):
    n = st.integers(0, 300)
    return {"terms": draw(st.one_of(st.just("all"), st.lists(st.one_of(st.tuples(n), st.tuples(n, n), st.tuples(n, n, st.integers(1, 40))).map(list), min_size=1, max_size=6))),
            "nchan": draw(st.integers(1, 300)), "concat": draw(st.sampled_from([True, False, None])), "pad": draw(st.integers(0, 3))}


def channels(c, rec):
    from aipy import scripting
    if c["terms"] == "all":
        s, want = "all", [list(range(c["nchan"]))]
    else:
        s = ",".join("_".join("%0*d" % (c["pad"], x) for x in t) for t in c["terms"])
        want = [[t[0]] if len(t) == 1 else list(range(t[0], t[1] + 1, *t[2:])) for t in c["terms"]]
    kw = {} if c["concat"] is None else {"concat": c["concat"]}
    got = call("parse_chans", scripting.parse_chans, s, c["nchan"], **kw)
    if c["concat"] is False:
        require(isinstance(got, list) and [list(map(int, x)) for x in got] == want, "parse_chans(%r, %d, concat=False): %r, expected %r", s, c["nchan"], got, want)
    else:
        flat = [x for w in want for x in w]
        require(np.ndim(got) == 1 and list(map(int, got)) == flat and np.asarray(got).dtype.kind in "iu", "parse_chans(%r, %d): %r, expected %r", s, c["nchan"], got, flat)
        require(np.arange(400)[got].size == len(flat), "parse_chans(%r): not an index array: %r", s, got)
    rec.nt(c["terms"] != "all" and len(c["terms"]) > 1)


# ---- parameters
pname = st.text(st.sampled_from("abcdefgxyzJ0123456789._-+: "), min_size=1, max_size=6)
num = st.one_of(st.integers(-1000, 1000).map(float), gen.fl(-1e6, 1e6), st.sampled_from([1e-300, 1e300, 0.0]))


@st.composite
def prms(draw):
    terms = []
    for i in range(draw(st.integers(1, 4))):
        obj = draw(st.lists(pname, min_size=1, max_size=3, unique=True))
        pl = draw(st.lists(pname, min_size=1, max_size=3, unique=True))
        n = 1 if len(obj) > 1 and len(pl) > 1 else max(len(obj), len(pl))
        vals = st.one_of(st.none(), st.lists(num, min_size=1, max_size=1), st.lists(num, min_size=n, max_size=n))
        terms.append({"obj": obj, "prm": pl, "val": draw(vals), "sig": draw(vals), "paren": draw(st.lists(st.booleans(), min_size=4, max_size=4)),
                      "fmt": draw(st.sampled_from(["%r", "%.17g", "%.17e"])), "slash": draw(st.booleans())})
    return {"terms": terms}


def params(c, rec):
    from aipy import scripting
    words, want = [], {}
    for t in c["terms"]:
        g = lambda l, p: "(%s)" % "/".join(l) if p or len(l) > 1 else l[0]
        nums = lambda v, p: "" if v is None else g([t["fmt"] % x for x in v], p)
        s = g(t["obj"], t["paren"][0]) + "=" + g(t["prm"], t["paren"][1])
        v, e = nums(t["val"], t["paren"][2]), nums(t["sig"], t["paren"][3])
        if e:
            s += "/" + v + "/" + e
        elif v or t["slash"]:
            s += "/" + v
        words.append(s)
        n = len(t["obj"]) * len(t["prm"])
        cells = list(itertools.product(t["obj"], t["prm"]))
        for k, (o, p) in enumerate(cells):
            pick = lambda x: None if x is None else x[0] if len(x) == 1 else x[k]
            want.setdefault(o, {})[p] = (pick(t["val"]), pick(t["sig"]))
    s = ",".join(words)
    got = call("parse_prms", scripting.parse_prms, s)
    require(got == want, "parse_prms(%r): %r, expected %r", s, got, want)
    rec.nt(len(words) > 1 or any(len(t["obj"]) + len(t["prm"]) > 2 for t in c["terms"]))


# ---- sources
@st.composite
def srcs(draw):
    word = st.from_regex(r"[b-z][a-z0-9+]{0,7}", fullmatch=True)
    sex = lambda h, n: st.tuples(st.one_of(st.integers(0, h), st.integers(0, 1)), st.integers(0, 59), gen.fl(0, 59.9), st.sampled_from([1, 2, 2, 3, 3]), st.booleans(), st.booleans()).map(list)
    item = st.one_of(word.map(lambda w: {"n": w}), st.tuples(word, word).map(lambda w: {"n": "%s_%s" % w}), st.just({"n": "1_2_3"}),
                     st.tuples(sex(23, 0), sex(89, 1)).map(lambda x: {"ra": x[0], "dec": x[1]}))
    return {"kind": draw(st.sampled_from(["list", "list", "list", "all", "cut"])), "items": draw(st.lists(item, min_size=1, max_size=5)),
            "cut": draw(st.lists(gen.fl(0, 1e4), min_size=2, max_size=2)), "cats": draw(st.lists(word, min_size=1, max_size=3))}


def sexa(x, signed):
    p = [("%02d" if x[5:] == [True] else "%d") % x[0], "%02d" % x[1], "%05.2f" % x[2]][:x[3]]
    val = x[0] + (x[1] / 60. if x[3] > 1 else 0) + (float("%05.2f" % x[2]) / 3600 if x[3] > 2 else 0)
    if signed and x[4]:
        return "-" + ":".join(p), -val
    return ":".join(p), val


def sources(c, rec):
    from aipy import scripting, phs
    import ephem
    cats = ",".join(c["cats"])
    if c["kind"] == "all":
        require(call("parse_srcs", scripting.parse_srcs, "all", cats) == (None, None, c["cats"]), "parse_srcs('all', %r)", cats)
        rec.nt(False)
        return
    if c["kind"] == "cut":
        s = "%r/%r" % tuple(c["cut"])
        got = call("parse_srcs", scripting.parse_srcs, s, cats)
        require(got[0] is None and list(got[1]) == c["cut"] and got[2] == c["cats"], "parse_srcs(%r, %r): %r", s, cats, got)
        rec.nt(True)
        return
    words = []
    for it in c["items"]:
        words.append(it["n"] if "n" in it else sexa(it["ra"], False)[0] + "_" + sexa(it["dec"], True)[0])
    s = ",".join(words)
    got, cut, gc = call("parse_srcs", scripting.parse_srcs, s, cats)
    require(cut is None and gc == c["cats"] and len(got) == len(words), "parse_srcs(%r, %r): %r, %r, %r", s, cats, got, cut, gc)
    for it, w, g in zip(c["items"], words, got):
        if "n" in it:
            require(g == it["n"], "parse_srcs(%r): %r for %r", s, g, w)
        else:
            require(isinstance(g, phs.RadioFixedBody) and g.src_name == w, "parse_srcs(%r): %r for %r", s, g, w)
            ra, dec = sexa(it["ra"], False)[1] * np.pi / 12, sexa(it["dec"], True)[1] * np.pi / 180
            require(abs(g._ra - ra) < 1e-9 and abs(g._dec - dec) < 1e-9, "parse_srcs(%r): %r is at %r, %r, expected %r, %r", s, w, float(g._ra), float(g._dec), ra, dec)
            require(call("get_catalog", lambda: list(__import__("aipy").src.get_catalog([g]).keys())) == [w], "%r cannot be used in a catalogue", w)
    rec.nt(len(words) > 1)


# ---- malformed
BAD_ANTS = ["x", "0_", "_1", "0__1", "(0,1", "0,1)", "()", "0_()", "0_(1_2)", "a_b", "0,foo", "1.5", "0_1_2", ",", "0,,1", "--1", "0_1;2", "(0_1)_2", "0_z", "+1", "1 2", "0z"]
BAD_CHANS = ["", "x", "1,", "1__2", "_1", "1_", "1_2_3_4", "1.5", "0_10_x", "1;2", "1-2", "0_10_0"]
BAD_PRMS = ["a", "=b", "a=", "(a=b", "a)=b", "(a/b=c", "a=b/x", "a=b/1/x", "a=b/1/2/3", "a=b=c", "a=(b/c)/(1/2/3)", "(a/b)=(c/d)/(1/2)", "(a/b)=c/(1/2/3)", "a=b/(1/2)", "a=(b/c)d", "(a/b)c=d", "a=b/1/2)", "", "()=a", "a=b/1/2/"]
BAD_SRCS = ["x/y", "1/b", "/", "1/"]


@st.composite
def bad(draw):
    k = draw(st.sampled_from(["ants", "chans", "prms", "srcs"]))
    good = {"ants": ["0_1", "cross", "(0,1)_2", "3"], "chans": ["0", "1_2"], "prms": ["x=y", "(p/q)=r/1"], "srcs": []}[k]
    return {"kind": k, "bad": draw(st.sampled_from({"ants": BAD_ANTS, "chans": BAD_CHANS, "prms": BAD_PRMS, "srcs": BAD_SRCS}[k])),
            "pre": draw(st.lists(st.sampled_from(good), max_size=2)) if good else [], "post": draw(st.lists(st.sampled_from(good), max_size=2)) if good else []}


def malformed(c, rec):
    from aipy import scripting
    pre, post = c["pre"], c["post"]
    if c["bad"] == ",":
        pre = pre or ["0"]
        s = ",".join(pre) + ",,"
    else:
        s = ",".join(pre + [c["bad"]] + post)
    if c["bad"] in ("(0,1", "0,1)", "(a/b=c"):
        s = ",".join(pre + [c["bad"]])
    f = {"ants": lambda: scripting.parse_ants(s, 3), "chans": lambda: scripting.parse_chans(s, 10), "prms": lambda: scripting.parse_prms(s), "srcs": lambda: scripting.parse_srcs(s, "misc")}[c["kind"]]
    try:
        r = f()
    except Exception as e:
        rec.event(type(e).__name__)
        rec.nt(True)
        return
    require(False, "parse_%s(%r) accepts what its grammar does not: %r", c["kind"], s, r)


# ---- options
OPT = {"ant": [("-a", "--ant", "ant", "cross")], "pol": [("-p", "--pol", "pol", -1)], "chan": [("-c", "--chan", "chan", "all")], "cal": [("-C", "--cal", "cal", None)],
       "src": [("-s", "--src", "src", None), (None, "--cat", "cat", "helm,misc")], "prms": [("-P", "--prms", "prms", None)],
       "dec": [("-x", "--decimate", "decimate", 1), (None, "--dphs", "decphs", 0)], "cmap": [(None, "--cmap", "cmap", "jet")],
       "max": [(None, "--max", "max", None)], "drng": [(None, "--drng", "drng", None)]}
NUM = {"decimate": int, "decphs": int, "max": float, "drng": float}


@st.composite
def ocase(draw):
    return {"on": draw(st.lists(st.sampled_from(sorted(OPT)), unique=True)), "give": draw(st.lists(st.booleans(), min_size=12, max_size=12)), "v": draw(st.integers(-9, 99)), "short": draw(st.booleans())}


def options(c, rec):
    from aipy import scripting
    o = optparse.OptionParser()
    call("add_standard_options", scripting.add_standard_options, o, **{k: True for k in c["on"]})
    args, want = ["file.uv"], {}
    n = 0
    for k in sorted(OPT):
        for sh, lo, dest, default in OPT[k]:
            n += 1
            if k not in c["on"]:
                require(not o.has_option(lo), "option %s although %s was not asked for", lo, k)
                continue
            want[dest] = default
            if c["give"][n % 12]:
                v = c["v"] if dest in NUM else "v%d" % n
                if dest in ("max", "drng"):
                    v = v + .5
                want[dest] = v
                args = [sh, str(v)] + args if sh and c["short"] else ["%s=%s" % (lo, v)] + args
    opts, rest = call("parse_args", o.parse_args, args)
    require(rest == ["file.uv"] and vars(opts) == want, "options %r of %r give %r, %r, expected %r", args, c["on"], vars(opts), rest, want)
    rec.nt(len(c["on"]) > 1)


def subs():
    return [Sub("antennas", ants(), antennas, quick=1200, thorough=20000),
            Sub("channels", chans(), channels, quick=400, thorough=8000),
            Sub("params", prms(), params, quick=800, thorough=15000),
            Sub("sources", srcs(), sources, quick=400, thorough=8000),
            Sub("malformed", bad(), malformed, quick=500, thorough=5000),
            Sub("options", ocase(), options, quick=200, thorough=3000)]
