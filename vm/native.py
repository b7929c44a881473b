"""Makes the compiled extensions that are imported correspond to the sources in the working tree.

The tree's own .so files are used when the build stamp says they were built from the current
sources; otherwise every extension is compiled from the current sources in a scratch folder and an
import hook serves those.  With `sanitize` they are always compiled there, instrumented.
"""
import atexit
import glob
import hashlib
import importlib.abc
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VM_REPO", "/repo")


def _generated(path):
    with open(path, "rb") as f:
        return f.read(40).startswith(b"/* Generated by Cython")


def sources():
    pyx = sorted(glob.glob(f"{REPO}/ylearn/**/*.pyx", recursive=True))
    shared = []
    for ext in ("pxd", "pxi", "h", "cpp"):
        for f in sorted(glob.glob(f"{REPO}/ylearn/**/*.{ext}", recursive=True)):
            if not (ext == "cpp" and _generated(f)):
                shared.append(f)
    return pyx, shared


def fresh():
    """True when the tree's .so files are those of the current sources."""
    pyx, shared = sources()
    try:
        stamp = json.load(open(f"{REPO}/build/vp-stamp.json"))
    except (OSError, ValueError):
        return False
    now = {}
    for f in pyx + shared + [f"{REPO}/setup.py"]:
        if os.path.exists(f):
            now[os.path.relpath(f, REPO)] = hashlib.sha256(open(f, "rb").read()).hexdigest()
    if now != stamp:
        return False
    suffix = sysconfig.get_config_var("EXT_SUFFIX")
    return all(os.path.exists(p[:-4] + suffix) for p in pyx)


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, table):
        self.table = table

    def find_spec(self, name, path=None, target=None):
        so = self.table.get(name)
        if so is None:
            return None
        return importlib.util.spec_from_file_location(name, so)


def _run(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise RuntimeError("build failed: %s\n%s" % (" ".join(cmd), r.stdout[-3000:]))


def build(dest, cflags=("-O2",), ldflags=(), cxx="g++", cython=(), ndebug=True):
    """Compiles every extension of the working tree into dest; returns {module: .so}."""
    import numpy
    pyx, shared = sources()
    src = os.path.join(dest, "src")
    for f in pyx + shared + sorted(glob.glob(f"{REPO}/ylearn/**/__init__.py", recursive=True)):
        t = os.path.join(src, os.path.relpath(f, REPO))
        os.makedirs(os.path.dirname(t), exist_ok=True)
        shutil.copyfile(f, t)
    suffix = sysconfig.get_config_var("EXT_SUFFIX")
    inc = [sysconfig.get_paths()["include"], numpy.get_include(), os.environ.get("EIGEN3_PATH", "/usr/include/eigen3")]
    inc += sorted({os.path.dirname(os.path.join(src, os.path.relpath(f, REPO))) for f in shared if f.endswith(".h")})
    env_cython = [sys.executable, "-m", "cython", "-3", "--cplus", "-I", src] + list(cython)

    def one(p):
        rel = os.path.relpath(p, REPO)
        t = os.path.join(src, rel)
        cpp = t[:-4] + ".cpp"
        so = t[:-4] + suffix
        _run(env_cython + [t, "-o", cpp], cwd=src)
        _run([cxx, "-shared", "-fPIC", "-w"] + ["-DNDEBUG"] * ndebug + list(cflags) + ["-I" + i for i in inc]
             + ["-I" + os.path.dirname(t), cpp, "-o", so, "-lm"] + list(ldflags))
        return rel[:-4].replace(os.sep, "."), so

    with ThreadPoolExecutor(8) as ex:
        return dict(ex.map(one, pyx))


def install(table):
    sys.meta_path.insert(0, _Finder(table))


def ensure(log=print):
    """Called once per check, before ylearn is imported."""
    if fresh():
        return "tree"
    dest = tempfile.mkdtemp(prefix="vm-native-")
    pid = os.getpid()
    atexit.register(lambda: os.getpid() == pid and shutil.rmtree(dest, ignore_errors=True))
    log("native sources differ from the built modules: compiling them in " + dest)
    install(build(dest))
    return "scratch"
