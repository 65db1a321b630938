#!/usr/bin/env python3
"""Build the complete devsim module (and modelcomp) from /repo's working tree.

/repo's sources are mirrored, by content, into BUILD/src; they are compiled
there with /repo's own CMakeLists.txt.  The symdiff library (a git submodule
that is absent) and the BLAS/LAPACK/PARDISO libraries devsim loads at run time
are supplied by /verif/harness.  Nothing is written below /repo.
"""
import fcntl
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
PYINC = "/usr/include/python3.12"


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        sys.stderr.write(p.stdout[-8000:])
        sys.stderr.write("\nbuild step failed: %s\n" % " ".join(cmd))
        raise SystemExit(2)
    return p.stdout


def newer(target, *deps):
    return os.path.exists(target) and all(os.path.getmtime(target) >= os.path.getmtime(d) for d in deps)


def build(targets=("devsim_py3", "modelcomp")):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        return _build(targets)


def _build(targets):
    src = os.path.join(BUILD, "src")
    os.makedirs(src, exist_ok=True)
    what = [os.path.join(REPO, x) for x in ("CMakeLists.txt", "cmake", "src", "testing", "external")]
    what = [w for w in what if os.path.exists(w)]
    # -c: by content; no -t: a changed file gets a fresh time stamp
    run(["rsync", "-rlpc", "--delete", "--exclude", ".git"] + what + [src + "/"])
    pk = os.path.join(BUILD, "pkg", "devsim")
    os.makedirs(pk, exist_ok=True)
    run(["rsync", "-rlpc", "--delete", "--exclude", "__pycache__",
         os.path.join(REPO, "python_packages"), pk + "/"])
    h = os.path.join(VERIF, "harness")
    sd, sdsrc = os.path.join(BUILD, "libsymdiff.a"), os.path.join(h, "symdiff", "symdiff.cc")
    inc = os.path.join(h, "symdiff", "include")
    if not newer(sd, sdsrc):
        o = os.path.join(BUILD, "symdiff.o")
        run(["g++", "-std=c++17", "-O1", "-fPIC", "-fvisibility=hidden", "-I", inc, "-c", sdsrc, "-o", o])
        run(["ar", "rcs", sd, o])
    msrc = os.path.join(h, "mathshim", "mathshim.cc")
    for lib, extra in (("libmathshim.so", []), ("libmathshim_nomkl.so", ["-DNO_MKL"])):
        m = os.path.join(BUILD, lib)
        if not newer(m, msrc):
            run(["g++", "-O1", "-fPIC", "-shared", "-fvisibility=hidden", msrc, "-o", m] + extra)
    g = os.path.join(BUILD, "getrf")
    env = dict(os.environ, CC="gcc", CXX="g++", FC="gfortran")
    if not os.path.exists(os.path.join(g, "build.ninja")):
        run(["cmake", "-S", os.path.join(src, "external", "getrf"), "-B", g, "-G", "Ninja",
             "-DCMAKE_BUILD_TYPE=none",
             "-DCMAKE_Fortran_FLAGS=-O1 -freal-8-real-16 -ffixed-line-length-0 -fPIC"], env=env)
    run(["ninja", "-C", g, "getrf"])
    d = os.path.join(BUILD, "devsim")
    if not os.path.exists(os.path.join(d, "build.ninja")):
        run(["cmake", "-S", src, "-B", d, "-G", "Ninja", "-Wno-dev",
             "-DCMAKE_BUILD_TYPE=none",
             "-DCMAKE_CXX_FLAGS=-fvisibility=hidden -O1 -DDEVSIM_VERIF",
             "-DCMAKE_POSITION_INDEPENDENT_CODE=ON",
             "-DDEVSIM_EXTENDED_PRECISION=ON", "-DMKL_PARDISO=ON", "-DPYTHON3=ON",
             "-DPYTHON3_INCLUDE=" + PYINC,
             "-DFLEX=/usr/bin/flex", "-DBISON=/usr/bin/bison",
             "-DBOOST_INCLUDE=/usr/include", "-DQUADMATH_ARCHIVE=-lquadmath",
             "-DEXTENDED_BLAS_ARCHIVE=" + os.path.join(g, "libgetrf.a"),
             "-DSYMDIFF_INCLUDE=" + inc, "-DSYMDIFF_ARCHIVE=" + sd], env=env)
    run(["ninja", "-C", d] + list(targets), env=env)
    so = os.path.join(d, "src", "main", "devsim_py3.so")
    if "devsim_py3" in targets:
        t = os.path.join(pk, "devsim_py3.so")
        run(["rsync", "-c", so, t])
        with open(os.path.join(pk, "__init__.py"), "w") as f:
            f.write("from .devsim_py3 import *\nfrom .devsim_py3 import __version__\n")
    return BUILD


if __name__ == "__main__":
    build()
    print(BUILD)
