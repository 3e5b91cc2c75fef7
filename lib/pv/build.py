"""Out-of-tree build of pywr from /repo's current working tree.

For every Cython source a shared object is taken, in this order, from
 1. /verif/.build/cache (keyed by the digest of the source, of all shared .pxd/.pxi files and of the flags),
 2. /repo itself, when the stamp the repository's build wrote says that the product there was made
    from exactly the current contents of this source and of every shared file,
 3. a fresh `cython` + `clang` run.
Nothing is written in /repo.
"""
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("PV_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
BUILD = os.path.join(VERIF, ".build")
PY = "/opt/venv/bin/python"
SUFFIX = ".cpython-312-x86_64-linux-gnu.so"
LIBS = {"cython_glpk": ["-lglpk"],
        "cython_lpsolve": ["-L/usr/lib/lp_solve", "-Wl,-rpath,/usr/lib/lp_solve", "-llpsolve55"]}

FLAVOURS = {
    # -O0: the generated C compiles several times faster than at -O1
    "plain": dict(cc="clang", cflags=["-O0", "-g0"], ldflags=[]),
    "asan": dict(cc="gcc", cflags=["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
                                   "-fno-sanitize=alignment,shift-base,signed-integer-overflow",
                                   "-fno-sanitize-recover=all"],
                 ldflags=["-fsanitize=address,undefined"]),
}


def sha(path):
    with open(path, "rb") as fh:
        return hashlib.sha256(fh.read()).hexdigest()


def sources():
    pyx = sorted(glob.glob(os.path.join(REPO, "pywr/**/*.pyx"), recursive=True))
    common = []
    for p in ("pywr/**/*.pxd", "pywr/**/*.pxi"):
        common += glob.glob(os.path.join(REPO, p), recursive=True)
    return pyx, sorted(common)


def _stamp():
    if os.path.exists(os.path.join(REPO, "build", "vp-running")):
        return None
    try:
        with open(os.path.join(REPO, "build", "vp-stamp.json")) as fh:
            return json.load(fh)
    except (OSError, ValueError):
        return None


def _stamp_common_ok(stamp, common):
    if not stamp:
        return False
    for f in common:
        if stamp.get(f) != sha(f):
            return False
    for f in (os.path.join(REPO, "setup.py"),):
        if stamp.get(f) != sha(f):
            return False
    # a shared file that has disappeared since
    return all(os.path.exists(f) for f in stamp if f.endswith((".pxd", ".pxi")))


def ensure(flavour="plain", verbose=True):
    """Return {module path relative to the repo (without suffix): shared object}."""
    fl = FLAVOURS[flavour]
    pyx, common = sources()
    cdig = hashlib.sha256("".join(os.path.relpath(f, REPO) + sha(f) for f in common).encode()).hexdigest()
    stamp = _stamp()
    reuse = flavour == "plain" and _stamp_common_ok(stamp, common)
    inc = subprocess.check_output([PY, "-c", "import numpy,sysconfig;print(numpy.get_include());print(sysconfig.get_path('include'))"],
                                  text=True).split("\n")[:2]
    cache = os.path.join(BUILD, "cache")
    os.makedirs(cache, exist_ok=True)
    out, todo, nreuse, ncache = {}, [], 0, 0
    for f in pyx:
        rel = os.path.relpath(f, REPO)[:-4]
        d = sha(f)
        key = hashlib.sha256(f"{rel} {d} {cdig} {fl}".encode()).hexdigest()[:24]
        dst = os.path.join(cache, f"{os.path.basename(rel)}-{key}.so")
        if os.path.exists(dst):
            os.utime(dst)
            out[rel] = dst
            ncache += 1
            continue
        if reuse and stamp.get(f) == d and os.path.exists(f[:-4] + SUFFIX):
            out[rel] = f[:-4] + SUFFIX
            nreuse += 1
            continue
        todo.append((f, rel, dst))
        out[rel] = dst
    todo.sort(key=lambda t: -os.path.getsize(t[0]))
    t0 = time.time()

    def one(t):
        f, rel, dst = t
        tmp = tempfile.mkdtemp(prefix="cc-", dir=BUILD)
        try:
            c = os.path.join(tmp, "m.c")
            mod = rel.replace("/", ".")
            subprocess.run([PY, "-m", "cython", "-3", "-X", "embedsignature=True", "--module-name", mod,
                            os.path.relpath(f, REPO), "-o", c], cwd=REPO, check=True,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            so = os.path.join(tmp, "m.so")
            subprocess.run([fl["cc"], *fl["cflags"], "-w", "-fwrapv", "-fPIC", "-shared", "-DNDEBUG",
                            f"-I{inc[0]}", f"-I{inc[1]}", "-I.", c, "-o", so, *fl["ldflags"],
                            *LIBS.get(os.path.basename(rel), [])], cwd=REPO, check=True,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            os.replace(so, dst)
        except subprocess.CalledProcessError as e:
            raise RuntimeError("cannot build %s: %s" % (rel, e.output.decode(errors="replace")[-2000:]))
        finally:
            shutil.rmtree(tmp, ignore_errors=True)

    if todo:
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(one, todo))
    if verbose:
        print(f"build[{flavour}]: {ncache} cached, {nreuse} of /repo, {len(todo)} compiled in {time.time() - t0:.1f}s", flush=True)
    prune(cache)
    return out


def prune(cache, keep=120):
    fs = sorted(glob.glob(os.path.join(cache, "*.so")), key=os.path.getmtime, reverse=True)
    for f in fs[keep:]:
        try:
            os.remove(f)
        except OSError:
            pass


def tree(flavour="plain", verbose=True):
    """Build and lay out an importable package tree; returns its root (the caller removes it)."""
    sos = ensure(flavour, verbose)
    root = tempfile.mkdtemp(prefix="tree-", dir=BUILD)
    for d, dirs, fs in os.walk(os.path.join(REPO, "pywr")):
        dirs[:] = [x for x in dirs if x != "__pycache__"]
        rel = os.path.relpath(d, REPO)
        os.makedirs(os.path.join(root, rel), exist_ok=True)
        for f in fs:
            if f.endswith((".so", ".c", ".cpp", ".pyc", ".o", ".html~")):
                continue
            shutil.copyfile(os.path.join(d, f), os.path.join(root, rel, f))
    if not os.path.exists(os.path.join(root, "pywr", "_version.py")):
        with open(os.path.join(root, "pywr", "_version.py"), "w") as fh:
            fh.write("__version__ = version = '1.31.1'\n__version_tuple__ = version_tuple = (1, 31, 1)\n")
    for rel, so in sos.items():
        os.symlink(so, os.path.join(root, rel + SUFFIX))
    return root


if __name__ == "__main__":
    for a in sys.argv[1:] or ["plain"]:
        ensure(a)
