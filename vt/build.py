"""Makes the current working tree of /repo importable.

The pure Python part of intvalpy is imported straight from /repo; the Cython extension is compiled, out of
tree, from /repo's current sources (with /repo's own setup.py, so with the flags a user gets), unless the
build that already lies in /repo is provably up to date (same hashes as the stamp that build.sh left).
"""
import fcntl
import hashlib
import importlib.util
import os
import shutil
import subprocess
import sys
import sysconfig

REPO = os.environ.get("VT_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
CACHE = os.path.join(os.path.dirname(HERE), ".build")
PY = "/opt/venv/bin/python"
SUFFIX = "cpython-312-x86_64-linux-gnu.so"
EXT = "intvalpy.kernel.interval_arithmetics"
HYPOTHESIS_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


class BuildError(Exception):
    pass


def _sha(path):
    with open(path, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


def _ext_sources():
    """The files the extension is built from, relative to REPO."""
    out = [n for n in ("setup.py", "pyproject.toml", "README.md", "intvalpy/_version.py")
           if os.path.exists(os.path.join(REPO, n))]
    for root, dirs, files in os.walk(os.path.join(REPO, "intvalpy")):
        dirs[:] = sorted(d for d in dirs if d != "__pycache__")
        for n in sorted(files):
            if n.endswith((".pyx", ".pxd", ".pxi", ".h")):
                out.append(os.path.relpath(os.path.join(root, n), REPO))
    return out


def _stamp_is_current():
    """True when /repo's own .so was built from the current sources (the rule build.sh itself uses)."""
    so = os.path.join(REPO, "intvalpy/kernel/interval_arithmetics." + SUFFIX)
    stamp = os.path.join(REPO, "build/ext.stamp")
    if not (os.path.exists(so) and os.path.exists(stamp)):
        return None
    want = {}
    with open(stamp, encoding="utf-8") as f:
        for line in f:
            parts = line.split(None, 1)
            if len(parts) == 2:
                want[parts[1].strip()] = parts[0]
    have = {n: _sha(os.path.join(REPO, n)) for n in _ext_sources() if n != "README.md"}
    have["intvalpy/kernel/interval_arithmetics." + SUFFIX] = _sha(so)
    return so if have == want else None


def ensure_extension(verbose=False):
    """Path of an up-to-date compiled extension; builds one when needed."""
    so = _stamp_is_current()
    if so:
        return so
    srcs = _ext_sources()
    key = hashlib.sha256()
    for n in srcs:
        key.update((n + "\0" + _sha(os.path.join(REPO, n)) + "\n").encode())
    os.makedirs(CACHE, exist_ok=True)
    dest = os.path.join(CACHE, key.hexdigest()[:24])
    so = os.path.join(dest, "interval_arithmetics." + SUFFIX)
    with open(os.path.join(CACHE, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(so):
            return so
        work = dest + ".work"
        shutil.rmtree(work, ignore_errors=True)
        for n in srcs:
            os.makedirs(os.path.dirname(os.path.join(work, n)), exist_ok=True)
            shutil.copy(os.path.join(REPO, n), os.path.join(work, n))
        for root, _, files in os.walk(os.path.join(REPO, "intvalpy")):
            if "__init__.py" in files:          # setup.py's find_packages wants the package to be there
                d = os.path.join(work, os.path.relpath(root, REPO))
                os.makedirs(d, exist_ok=True)
                open(os.path.join(d, "__init__.py"), "a").close()
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
        p = subprocess.run([PY, "setup.py", "build_ext", "--force", "--build-temp", "tmp", "--build-lib", "lib"],
                           cwd=work, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        built = os.path.join(work, "lib/intvalpy/kernel/interval_arithmetics." + SUFFIX)
        if p.returncode or not os.path.exists(built):
            raise BuildError("the extension does not build:\n" + p.stdout[-4000:])
        os.makedirs(dest, exist_ok=True)
        os.replace(built, so)
        shutil.rmtree(work, ignore_errors=True)
    return so


class _ExtFinder:
    def __init__(self, so):
        self.so = so

    def find_spec(self, name, path=None, target=None):
        if name == EXT:
            return importlib.util.spec_from_file_location(name, self.so)
        return None


def load():
    """Imports and returns intvalpy, from REPO, with a current extension."""
    os.environ.setdefault("MPLBACKEND", "Agg")
    sys.dont_write_bytecode = True
    so = ensure_extension()
    sys.meta_path.insert(0, _ExtFinder(so))
    sys.path.insert(0, REPO)
    if HYPOTHESIS_SITE not in sys.path:
        sys.path.append(HYPOTHESIS_SITE)
    import intvalpy
    if not os.path.abspath(intvalpy.__file__).startswith(os.path.abspath(REPO) + os.sep):
        raise BuildError("intvalpy was imported from " + intvalpy.__file__)
    return intvalpy


if __name__ == "__main__":
    print(ensure_extension(True))
