"""Build aipy from /repo's current working tree into a scratch directory.

The scratch copy is keyed by a hash of every input file, so that a changed
tree is always rebuilt and an unchanged one is built only once.  Nothing is
written under /repo."""
import fcntl
import hashlib
import os
import shutil
import subprocess
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
CACHE = os.path.join(VERIF, ".build")
TOP = ["setup.py", "pyproject.toml", "setup.cfg", "README.md", "VERSION", "LICENSE", "MANIFEST.in"]
SKIP_EXT = (".so", ".pyc", ".o")


class BuildError(Exception):
    pass


def source_files(repo=None):
    repo = repo or REPO
    out = []
    for t in TOP:
        if os.path.isfile(os.path.join(repo, t)):
            out.append(t)
    for sub in ("aipy", "scripts"):
        for d, dirs, files in os.walk(os.path.join(repo, sub)):
            dirs[:] = sorted(x for x in dirs if x not in ("__pycache__", "build"))
            for f in sorted(files):
                if f.endswith(SKIP_EXT):
                    continue
                out.append(os.path.relpath(os.path.join(d, f), repo))
    return out


def tree_hash(repo=None, variant="plain"):
    repo = repo or REPO
    h = hashlib.sha256(variant.encode())
    for f in source_files(repo):
        if f == "aipy/_version.py":
            continue
        h.update(f.encode() + b"\0")
        with open(os.path.join(repo, f), "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]


def build_env(variant):
    env = {
        "HOME": "/root", "LANG": "C.UTF-8", "PATH": "/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        "SETUPTOOLS_SCM_PRETEND_VERSION": "3.0.2", "PYTHONDONTWRITEBYTECODE": "1",
        "PYTHONHASHSEED": "0", "MPLBACKEND": "Agg", "PIP_NO_INDEX": "1",
    }
    if variant == "asan":
        fl = "-fsanitize=address -fno-omit-frame-pointer -g -O1"
        env["CFLAGS"] = fl
        env["CXXFLAGS"] = fl
        env["LDFLAGS"] = "-fsanitize=address"
    return env


def ensure(variant="plain", repo=None):
    """Return the directory holding a built copy of the current tree."""
    repo = repo or REPO
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock-" + variant), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = tree_hash(repo, variant)
        dst = os.path.join(CACHE, variant + "-" + key)
        if os.path.isfile(os.path.join(dst, ".ok")):
            os.utime(dst)
            return dst
        _prune(variant)
        tmp = tempfile.mkdtemp(prefix="tmp-", dir=CACHE)
        try:
            for f in source_files(repo):
                d = os.path.join(tmp, f)
                os.makedirs(os.path.dirname(d), exist_ok=True)
                shutil.copy2(os.path.join(repo, f), d)
            r = subprocess.run([PY, "setup.py", "-q", "build_ext", "--inplace", "--force", "-j", "4"],
                               cwd=tmp, env=build_env(variant), stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=600)
            if r.returncode != 0:
                raise BuildError("build failed (%s):\n%s" % (variant, r.stdout.decode(errors="replace")[-4000:]))
            shutil.rmtree(os.path.join(tmp, "build"), ignore_errors=True)
            open(os.path.join(tmp, ".ok"), "w").close()
            os.rename(tmp, dst)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        return dst


def _prune(variant):
    """Keep the few most recent builds; never touch one used in the last hour."""
    ds = []
    for n in os.listdir(CACHE):
        p = os.path.join(CACHE, n)
        if os.path.isdir(p) and (n.startswith(variant + "-") or n.startswith("tmp-")):
            ds.append((os.stat(p).st_mtime, p))
    ds.sort(reverse=True)
    for m, p in ds[6:]:
        if time.time() - m > 3600:
            shutil.rmtree(p, ignore_errors=True)
