#!/usr/bin/env python3
"""Plant bugs and keep them: plant.py [-jN] SPEC.py...

SPEC.py defines PROP, NEEDS, BREAKS, EDITS = [(file, old, new), ...], DEMO (a
Python program run in /repo) and optionally ALSO = [other checks to run].
Every change is tried in a copy of /repo, bound over /repo in a mount namespace
of its own.  Development only: no check uses this.
plant.py -r ID... tries kept changes again (checks only)."""
import concurrent.futures, fcntl, json, os, re, shutil, subprocess, sys

REPO, HERE = "/repo", os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "b53ae75"


def sh(cmd, timeout=1500, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **k)


def tests(tmp):
    sh("bash /opt/vp/test.sh %s/o.json" % tmp)
    b = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    o = json.load(open(tmp + "/o.json"))
    return [t for t in b if t not in o["passed"]]


def record(pid, res):
    with open(os.path.join(HERE, "design", "caught.json"), "a+") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        f.seek(0)
        d = json.loads(f.read() or "{}")
        d.setdefault(pid, {}).update(res)
        f.seek(0)
        f.truncate()
        f.write(json.dumps(d, indent=0, sort_keys=True))


def checks(pid, props):
    out, res = [], {}
    for p in props:
        r = sh("python3 run.py %s" % p, cwd=HERE, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
        t = r.stdout.decode(errors="replace")
        v = re.findall(r"VIOLATION[^\n]*", t)
        last = [x for x in t.split("\n") if x.strip() and not x.startswith("###")][-1:]
        res[p] = bool(r.returncode == 1 and v)
        out.append("%s %s: %s" % (p, "CAUGHT" if res[p] else "MISSED (rc %d)" % r.returncode, (last or [""])[0][:200]))
    record(pid, res)
    return out


def inside(path, tmp):
    """Runs with the copy bound over /repo."""
    if not path.endswith(".py"):
        d = os.path.join(HERE, "seeded", path)
        r = sh("git -C /repo apply %s/patch.diff" % d)
        if r.returncode:
            sys.exit("%s: does not apply: %s" % (path, r.stdout[-300:]))
        p = json.load(open(d + "/meta.json"))["property"]
        prev = json.load(open(os.path.join(HERE, "design", "caught.json"))).get(path, {})
        print(path, "|", " | ".join(checks(path, [p] + [q for q in prev if q != p])))
        return
    spec = {}
    exec(open(path).read(), spec)
    pid = os.path.basename(path)[:-3]
    d = os.path.join(HERE, "seeded", pid)
    out = []
    try:
        os.makedirs(d, exist_ok=True)
        open(d + "/demo.py", "w").write(spec["DEMO"].lstrip("\n"))
        open(d + "/demo.sh", "w").write('#!/bin/bash\n# exit 0: behaves; nonzero: broken\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": spec["PROP"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
        r = sh("timeout 250 bash %s/demo.sh" % d, cwd=REPO)
        if r.returncode:
            sys.exit("%s: demo fails on the clean tree: %s" % (pid, r.stdout[-1200:].decode(errors="replace")))
        for f, old, new in spec["EDITS"]:
            s = open(os.path.join(REPO, f), encoding="latin-1").read()
            if s.count(old) != 1:
                sys.exit("%s: %d matches of %r in %s" % (pid, s.count(old), old, f))
            open(os.path.join(REPO, f), "w", encoding="latin-1").write(s.replace(old, new))
        open(d + "/patch.diff", "wb").write(sh("git -C /repo diff").stdout)
        r = sh("bash /opt/vp/build.sh")
        if r.returncode:
            sys.exit("%s: does not build: %s" % (pid, r.stdout[-800:].decode(errors="replace")))
        miss = tests(tmp)
        if miss:
            sys.exit("%s: tests notice: %s" % (pid, miss[:5]))
        r = sh("timeout 250 bash %s/demo.sh" % d, cwd=REPO)
        if r.returncode == 0:
            sys.exit("%s: demo passes with the change" % pid)
    except SystemExit:
        shutil.rmtree(d)
        raise
    out.append("demo: " + r.stdout.decode(errors="replace").strip()[-120:].replace("\n", " / "))
    # lines the fixes added may not be touched
    base = {f: set(sh("git -C /repo show %s:%s" % (BASE, f)).stdout.decode("latin-1").split("\n")) for f, _, _ in spec["EDITS"]}
    for line in open(d + "/patch.diff", encoding="latin-1"):
        if line.startswith("-") and not line.startswith("---") and line[1:].strip():
            if not any(line[1:].rstrip("\n") in b for b in base.values()):
                out.append("NOT ORIGINAL: " + line[1:].strip())
    out += checks(pid, [spec["PROP"]] + spec.get("ALSO", []))
    print(pid, "|", " | ".join(out))


def outside(path):
    pid = os.path.basename(path).replace(".py", "")
    tmp = "/tmp/plw/" + pid
    os.makedirs(tmp, exist_ok=True)
    sh("rm -rf %s/repo; cp -a /repo %s/repo" % (tmp, tmp))
    try:
        r = sh("unshare -m bash -c 'mount --bind %s/repo /repo && exec python3 %s --inside %s %s'" % (tmp, os.path.abspath(__file__), path, tmp), cwd=HERE)
    finally:
        shutil.rmtree(tmp)
    t = r.stdout.decode(errors="replace").strip()
    print(t if not r.returncode else "FAILED " + t)
    sys.stdout.flush()


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "--inside":
        inside(a[1], a[2])
        sys.exit(0)
    n = 3
    if a[0].startswith("-j"):
        n = int(a.pop(0)[2:])
    a = [os.path.abspath(x) if x.endswith(".py") else x for x in a if x != "-r"]
    if sh("git -C /repo status --porcelain").stdout.strip():
        sys.exit("/repo is not clean")
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        list(ex.map(outside, a))
