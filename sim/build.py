"""Builds the simulated package from /repo's working tree.

out/<hash>/libsimrt (importable as `simrt`), out/<hash>/libiofault.so, out/<hash>/pkg/implicit/...
Every .py of the package is copied, every CPU .pyx is translated by Cython and compiled with
memory-access instrumentation, linked against the simulation runtime instead of libgomp."""
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VSIM_REPO", "/repo")
OUT = os.environ.get("VSIM_BUILD", os.path.join(VERIF, ".build"))
PY = os.environ.get("VSIM_PYTHON", "/opt/venv/bin/python")
CXX = os.environ.get("CXX", "g++")
SUFFIX = ".cpython-312-x86_64-linux-gnu.so"
WRAPS = ["malloc", "free", "memcpy", "memset", "memmove", "pthread_mutex_lock", "pthread_mutex_trylock",
         "pthread_mutex_unlock", "PyGILState_Ensure", "PyGILState_Release", "PyEval_SaveThread",
         "PyEval_RestoreThread", "_Znwm", "_Znam", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm"]
CYFLAGS = ["--cplus", "--directive",
           "always_allow_keywords=True,binding=True,embedsignature=True,language_level=3"]
CXXFLAGS = ["-std=gnu++11", "-O1", "-g0", "-fPIC", "-fopenmp", "-fsanitize=thread", "-DNDEBUG", "-w",
            "-fno-strict-aliasing"]


class BuildError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def sources():
    pk = os.path.join(REPO, "implicit")
    res = []
    for d, dirs, files in os.walk(pk):
        dirs[:] = sorted(x for x in dirs if x != "__pycache__")
        for f in sorted(files):
            if f.endswith((".py", ".pyx", ".pxd", ".pxi", ".h", ".hpp", ".cpp", ".cc", ".cuh")):
                p = os.path.join(d, f)
                if f.endswith(".cpp") and os.path.exists(p[:-4] + ".pyx"):
                    continue  # generated by cython
                res.append(os.path.relpath(p, REPO))
    return res


def digest(files):
    h = hashlib.sha256()
    for f in files:
        h.update(f.encode())
        with open(os.path.join(REPO, f), "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    for f in ("simrt.cpp", "iofault.c", "build.py"):
        with open(os.path.join(HERE, f), "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]


def includes():
    o = run([PY, "-c", "import numpy, sysconfig; print(numpy.get_include()); print(sysconfig.get_paths()['include'])"])
    np_inc, py_inc = o.split()
    if not os.path.exists(os.path.join(py_inc, "Python.h")):
        py_inc = "/usr/include/python3.12"
    return ["-I" + np_inc, "-I" + py_inc]


def build(verbose=False):
    files = sources()
    h = digest(files)
    final = os.path.join(OUT, h)
    if os.path.exists(os.path.join(final, "ok")):
        os.utime(final)
        return final
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(final, "ok")):
            return final
        t0 = time.time()
        # keep the cache small
        old = sorted((d for d in glob.glob(os.path.join(OUT, "*")) if os.path.isdir(d)), key=os.path.getmtime)
        for d in old[:-12]:
            shutil.rmtree(d, ignore_errors=True)
        tmp = final + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        pkg = os.path.join(tmp, "pkg")
        os.makedirs(pkg)
        inc = includes()
        pyx = []
        for f in files:
            dst = os.path.join(pkg, f)
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            shutil.copyfile(os.path.join(REPO, f), dst)
            if f.endswith(".pyx") and not f.startswith("implicit/gpu/"):
                pyx.append(f)
        rt = os.path.join(tmp, "simrt" + SUFFIX)

        def runtime():
            # linked under its own name so that the modules' DT_NEEDED and `import simrt` are one object
            run([CXX, "-std=gnu++17", "-O2", "-g", "-fPIC", "-shared", "-w", "-fvisibility=hidden",
                 "-Wl,-soname,simrt" + SUFFIX, "-o", rt, os.path.join(HERE, "simrt.cpp"), "-pthread"] + inc)

        def iof():
            run(["gcc", "-O2", "-fPIC", "-shared", "-w", "-o", os.path.join(tmp, "libiofault.so"),
                 os.path.join(HERE, "iofault.c"), "-ldl"])

        def module(f):
            src = os.path.join(pkg, f)
            cpp = src[:-4] + ".cpp"
            run([PY, "-m", "cython"] + CYFLAGS + ["-I", pkg, src, "-o", cpp], cwd=pkg)
            obj = src[:-4] + ".o"
            run([CXX, "-c"] + CXXFLAGS + ["-I" + pkg] + inc + [cpp, "-o", obj])
            os.unlink(cpp)
            return obj

        with ThreadPoolExecutor(10) as ex:
            a, b = ex.submit(runtime), ex.submit(iof)
            objs = list(ex.map(module, pyx))
            a.result(), b.result()
            list(ex.map(lambda o: link(o, tmp), objs))
        with open(os.path.join(tmp, "ok"), "w") as fh:
            fh.write("built in %.1f s\n" % (time.time() - t0))
        shutil.rmtree(final, ignore_errors=True)
        os.rename(tmp, final)
        if verbose:
            print("built %s in %.1f s" % (final, time.time() - t0), file=sys.stderr)
    return final


def link(obj, tmp):
    so = obj[:-2] + SUFFIX
    depth = os.path.relpath(tmp, os.path.dirname(so))
    run([CXX, "-shared", "-o", so, obj, "-Wl,--no-undefined-version", "-L" + tmp, "-l:simrt" + SUFFIX,
         "-Wl,-rpath,$ORIGIN/" + depth] + ["-Wl,--wrap=" + w for w in WRAPS])
    os.unlink(obj)


if __name__ == "__main__":
    print(build(verbose=True))
