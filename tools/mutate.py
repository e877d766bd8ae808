#!/usr/bin/env python3
"""Small mechanical changes, to find what the checks do not look at.

mutate.py [-jN] [-n COUNT] [-s SEED] [-l LO-HI] FILE CHECK...   (FILE under /repo)
Every change is built in a copy, and the checks run on it from a copy of /verif
without shrinking; changes that no check notices are printed.  Development
only: no check uses this, and nothing is kept."""
import ast, concurrent.futures, json, os, random, re, shutil, subprocess, sys, threading

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vlib import build  # noqa: E402
WORK = os.environ.get("MU", "/tmp/mu")
CMP = {"<": "<=", "<=": "<", ">": ">=", ">=": ">", "==": "!=", "!=": "==", "is": "is not", "is not": "is", "in": "not in", "not in": "in"}
BIN = {"+": "-", "-": "+", "*": "/", "/": "*", "//": "/", "**": "*", "%": "//", "&": "|", "|": "&", "<<": ">>", ">>": "<<"}


def py_mutants(s):
    lines = s.split("\n")
    start = [0]
    for l in lines:
        start.append(start[-1] + len(l.encode()) + 1)
    b = s.encode()

    def off(line, col):
        return start[line - 1] + col

    out = []

    def put(lo, hi, new, what):
        out.append((b[:lo].count(b"\n") + 1, lo, hi, new, what))

    tree = ast.parse(s)
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            skip.add(n)
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and getattr(n.value.func, "id", "") == "print":
            skip.add(n)
            for m in ast.walk(n):
                skip.add(m)
        if isinstance(n, (ast.Raise, ast.JoinedStr)):
            for m in ast.walk(n):
                skip.add(m)
    for n in ast.walk(tree):
        if n in skip or not hasattr(n, "lineno"):
            continue
        lo, hi = off(n.lineno, n.col_offset), off(n.end_lineno, n.end_col_offset)
        if isinstance(n, ast.BinOp) and not (isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            g0, g1 = off(n.left.end_lineno, n.left.end_col_offset), off(n.right.lineno, n.right.col_offset)
            gap = b[g0:g1].decode()
            m = re.search(r"\*\*|//|<<|>>|[-+*/%&|]", gap)
            if m:
                put(g0 + m.start(), g0 + m.end(), BIN[m.group()], "operator")
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            g0, g1 = off(n.left.end_lineno, n.left.end_col_offset), off(n.comparators[0].lineno, n.comparators[0].col_offset)
            gap = b[g0:g1].decode()
            m = re.search(r"<=|>=|==|!=|<|>|is not|not in|is|in", gap)
            if m:
                put(g0 + m.start(), g0 + m.end(), CMP[m.group()], "comparison")
                if m.group() in "<<=>>=":
                    put(lo, hi, "(not (%s))" % b[lo:hi].decode(), "negated")
        elif isinstance(n, ast.BoolOp):
            g0, g1 = off(n.values[0].end_lineno, n.values[0].end_col_offset), off(n.values[1].lineno, n.values[1].col_offset)
            m = re.search(r"\b(and|or)\b", b[g0:g1].decode())
            if m:
                put(g0 + m.start(), g0 + m.end(), "or" if m.group() == "and" else "and", "connective")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            put(lo, hi, "(%s)" % b[off(n.operand.lineno, n.operand.col_offset):off(n.operand.end_lineno, n.operand.end_col_offset)].decode(), "unary")
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float, bool):
            v = n.value
            put(lo, hi, repr(not v) if type(v) is bool else repr(v + 1) if type(v) is int else repr(v * 1.5 if v else 1.), "constant")
            if type(v) is int and v > 1:
                put(lo, hi, repr(v - 1), "constant")
        elif isinstance(n, (ast.If, ast.IfExp)):
            t0, t1 = off(n.test.lineno, n.test.col_offset), off(n.test.end_lineno, n.test.end_col_offset)
            put(t0, t1, "True", "condition")
            put(t0, t1, "False", "condition")
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)):
            if b[lo:hi].count(b"\n") < 3:
                put(lo, hi, "pass", "dropped")
        elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            pass
        elif isinstance(n, ast.Slice) and n.lower is not None and n.upper is None:
            put(lo, hi, ":", "slice")
        elif isinstance(n, ast.keyword) and n.arg is not None and not isinstance(n.value, ast.Constant):
            pass
        elif isinstance(n, ast.Call) and len(n.args) == 1 and not n.keywords and isinstance(n.func, ast.Attribute) and n.func.attr in ("abs", "conj", "conjugate", "sqrt", "round", "log10", "copy", "array", "transpose", "asarray", "angle"):
            put(lo, hi, "(%s)" % b[off(n.args[0].lineno, n.args[0].col_offset):off(n.args[0].end_lineno, n.args[0].end_col_offset)].decode(), "call")
    return b, out


def c_mutants(s):
    b, out = s.encode("latin-1"), []
    t = re.sub(r'/\*.*?\*/|//[^\n]*|"(\\.|[^"\\\n])*"|^[ \t]*#[^\n]*(\\\n[^\n]*)*', lambda m: re.sub(r"[^\n]", " ", m.group()), s, flags=re.S | re.M)

    def put(m, new, what):
        out.append((t.count("\n", 0, m.start()) + 1, m.start(), m.end(), new, what))

    for m in re.finditer(r"(?<=[ \w\])])(<=|>=|==|!=|&&|\|\||<|>)(?=[ \w(*-])", t):
        put(m, {"&&": "||", "||": "&&"}.get(m.group()) or CMP[m.group()], "comparison")
    for m in re.finditer(r"(?<=[\w\])] )([-+*/])(?= ?[\w(*])|(?<=[\w\])])([-+])(?=[\w(])", t):
        put(m, BIN[m.group()], "operator")
    for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", t):
        put(m, str(int(m.group()) + 1), "constant")
    for m in re.finditer(r"(?<=[({;\n])[ \t]*((?!return|goto|break|continue|struct|static|char|int |float|double|long|private|extern|typedef|case|default|else|if|for|while|do\b|switch)[A-Za-z_*(][^;{}\n]*;)", t):
        if "=" in m.group() or "(" in m.group():
            i = m.start(1)
            out.append((t.count("\n", 0, i) + 1, i, m.end(), ";", "dropped"))
    for m in re.finditer(r"\bif ?\(", t):
        d, i = 0, m.end() - 1
        for j in range(i, min(i + 300, len(t))):
            d += {"(": 1, ")": -1}.get(t[j], 0)
            if d == 0:
                out.append((t.count("\n", 0, i) + 1, i, j + 1, "(1)", "condition"))
                out.append((t.count("\n", 0, i) + 1, i, j + 1, "(0)", "condition"))
                break
    for m in re.finditer(r"(?<=[ (;])(\+=|-=)", t):
        put(m, "-=" if m.group() == "+=" else "+=", "operator")
    return b, out


LOCK = threading.Lock()
FREE = []


def setup(n):
    os.makedirs(WORK, exist_ok=True)
    v = WORK + "/verif"
    subprocess.check_call("rm -rf %s; mkdir -p %s; cd %s && cp -a run.py vlib checks known_findings.json %s/" % (v, v, HERE, v), shell=True)
    f = v + "/vlib/harness.py"
    s = open(f).read().replace("Phase.generate, Phase.shrink)", "Phase.generate)")
    open(f, "w").write(s)
    for c in os.listdir(v + "/checks"):
        if c.endswith(".py"):
            s = open(v + "/checks/" + c).read()
            open(v + "/checks/" + c, "w").write(re.sub(r"^VARIANTS =.*", 'VARIANTS = ["plain"]', s, flags=re.M))
    f = v + "/run.py"
    s = open(f).read().replace('            if kind in ("crash", "hang"):\n                # search', '            if kind in ("crash", "hang"):\n                return 1\n                # search')
    assert "return 1\n                # search" in s
    open(f, "w").write(s)
    clean = build.ensure("plain")
    for k in range(n):
        w = WORK + "/w%d" % k
        subprocess.check_call("rm -rf %s; mkdir -p %s; cp -a /repo %s/repo" % (w, w, w), shell=True)
        FREE.append(w)
    return clean


def one(job):
    f, src, m, checks, clean = job
    line, lo, hi, new, what = m
    with LOCK:
        w = FREE.pop()
    dst = None
    try:
        repo = w + "/repo"
        data = src[:lo] + new.encode("latin-1" if not f.endswith(".py") and not f.startswith("scripts") else "utf-8") + src[hi:]
        with open(os.path.join(repo, f), "wb") as h:
            h.write(data)
        cache = WORK + "/verif/.build"
        os.makedirs(cache, exist_ok=True)
        dst = cache + "/plain-" + build.tree_hash(repo, "plain")
        if os.path.exists(dst):
            return m, "same", ""
        subprocess.check_call(["cp", "-al", clean, dst + ".t"])
        os.unlink(os.path.join(dst + ".t", f))
        with open(os.path.join(dst + ".t", f), "wb") as h:
            h.write(data)
        if f.startswith("scripts"):
            os.chmod(os.path.join(dst + ".t", f), 0o755)
        if f.endswith((".c", ".cpp")):
            for d, _, fs in os.walk(dst + ".t"):
                for x in fs:
                    if x.endswith(".so"):
                        os.unlink(os.path.join(d, x))
            # a copy of the header files suffices, the other files are linked
            r = subprocess.run([build.PY, "setup.py", "-q", "build_ext", "--inplace", "--force", "-j", "2"], cwd=dst + ".t", env=build.build_env("plain"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
            if r.returncode:
                shutil.rmtree(dst + ".t")
                return m, "no build", ""
            shutil.rmtree(dst + ".t/build", ignore_errors=True)
        os.rename(dst + ".t", dst)
        last = ""
        for c in checks:
            env = dict(os.environ, VERIF_REPO=repo, VERIF_SEED="1", VERIF_TIER="quick")
            try:
                r = subprocess.run(["python3", "run.py", c], cwd=WORK + "/verif", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
            except subprocess.TimeoutExpired:
                return m, "timeout", c
            t = r.stdout.decode(errors="replace")
            last = [x for x in t.split("\n") if x.strip() and not x.startswith("###")][-1:]
            if r.returncode == 1:
                return m, "killed", c + " " + "".join(last)[:150]
            if r.returncode:
                return m, "rc %d" % r.returncode, c + " " + t[-400:]
        return m, "SURVIVED", ""
    finally:
        if dst:
            shutil.rmtree(dst, ignore_errors=True)
            shutil.rmtree(dst + ".t", ignore_errors=True)
        with open(os.path.join(w, "repo", f), "wb") as h:
            h.write(src)
        with LOCK:
            FREE.append(w)


def main():
    a, n, cnt, seed, lo, hi = sys.argv[1:], 6, 60, 1, 0, 10 ** 9
    while a[0].startswith("-"):
        o = a.pop(0)
        if o.startswith("-j"):
            n = int(o[2:])
        elif o == "-n":
            cnt = int(a.pop(0))
        elif o == "-s":
            seed = int(a.pop(0))
        elif o == "-l":
            lo, hi = map(int, a.pop(0).split("-"))
    jobs = []
    for spec in a:          # FILE:CHECK,CHECK
        f, checks = spec.split(":")
        cpp = f.endswith((".c", ".cpp"))
        s = open(os.path.join("/repo", f), encoding="latin-1" if cpp else "utf-8").read()
        b, ms = c_mutants(s) if cpp else py_mutants(s)
        ms = [m for m in ms if lo <= m[0] <= hi]
        random.Random(seed).shuffle(ms)
        print("%s: %d of %d changes" % (f, min(cnt, len(ms)), len(ms)))
        jobs += [(f, b, m, checks.split(",")) for m in ms[:cnt]]
    clean = setup(n)
    stat = {}
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        futs = {ex.submit(one, j + (clean,)): j for j in jobs}
        for fu in concurrent.futures.as_completed(futs):
            f, b = futs[fu][:2]
            try:
                m, res, info = fu.result()
            except Exception as e:
                print("ERROR", f, futs[fu][2], repr(e)[:300])
                continue
            stat.setdefault(f, {}).setdefault(res, 0)
            stat[f][res] += 1
            line, lo, hi, new, what = m
            if res not in ("killed", "same", "no build"):
                text = b.decode("latin-1").split("\n")[line - 1].strip()
                print("%s %s:%d %s [%s -> %s] in: %s %s" % (res, f, line, what, b[lo:hi].decode("latin-1")[:60], new[:60], text[:140], info if res != "SURVIVED" else ""))
                sys.stdout.flush()
    print(json.dumps(stat))


if __name__ == "__main__":
    main()
