"""Builds the library under test from /repo's working tree into /verif/build (git-ignored).

A build is keyed by the content of every source/header it can see plus the flags, so an unchanged tree
is never rebuilt and a changed one always is.
"""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys

REPO = os.environ.get("VT_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(HERE, "build")
CXX = "clang++-18"
INC = ["-I%s/include" % REPO, "-I%s/3rdparty" % REPO, "-I%s/prec" % REPO, "-I/opt/vp/include"]
BASE = ["-std=c++20", "-fPIC", "-g1", "-w", "-fno-omit-frame-pointer", "-DJM_VERIF"]

FLAVOURS = {
    "asan": ["-O1", "-fsanitize=address"],
    "plain": ["-O1"],
    # instrumented for drivers/sched.hpp, which takes the place of the sanitizer's runtime
    "sched": ["-O1", "-fsanitize=thread", "-mllvm", "-tsan-instrument-read-before-write=1"],
}


def die(msg):
    print("BUILD-ERROR: " + msg[:3000], file=sys.stderr)
    sys.exit(2)


def _sources():
    mk = os.path.join(REPO, "Makefile")
    r = subprocess.run(["make", "-s", "-f", "-", "vt_print"], cwd=REPO, text=True, capture_output=True,
                       input="include %s\nvt_print:\n\t@echo $(SOURCES)\n" % mk)
    srcs = [s for s in r.stdout.split() if s.endswith(".cpp")]
    if not srcs:
        srcs = [os.path.relpath(s, REPO) for s in sorted(glob.glob(REPO + "/src/core/*.cpp"))
                if not s.endswith("URI.cpp")]
    return srcs


def _inputs():
    out = []
    for pat in ("include/**/*", "src/core/*", "prec/*.hpp", "prec/*.h", "3rdparty/**/*.h", "Makefile"):
        out += [p for p in glob.glob(os.path.join(REPO, pat), recursive=True)
                if os.path.isfile(p) and not p.endswith((".o", ".to", ".pch"))]
    return sorted(set(out))


def tree_key(flavour):
    h = hashlib.sha256()
    for p in _inputs():
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    h.update(repr((BASE, FLAVOURS[flavour])).encode())
    return h.hexdigest()[:20]


def _run(cmd):
    r = subprocess.run(cmd, text=True, capture_output=True)
    return r.returncode, r.stdout + r.stderr


def _prune(prefix, keep):
    ds = sorted(glob.glob(os.path.join(BUILD, prefix + "*")), key=os.path.getmtime, reverse=True)
    for d in ds[keep:]:
        shutil.rmtree(d, ignore_errors=True)


def lib(flavour="asan"):
    """Returns (directory, archive, compile flags) of the built library."""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock-" + flavour), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    key = tree_key(flavour)
    d = os.path.join(BUILD, "lib-%s-%s" % (flavour, key))
    ar = os.path.join(d, "libcore.a")
    flags = BASE + FLAVOURS[flavour]
    if os.path.exists(ar):
        os.utime(d)
        return d, ar, flags
    tmp = d + ".tmp"
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    pch = os.path.join(tmp, "prec.pch")
    rc, out = _run([CXX] + flags + INC + ["-x", "c++-header", REPO + "/prec/PrecompiledCore.hpp", "-o", pch])
    if rc:
        die("precompiled header:\n" + out)
    srcs = _sources()

    def one(s):
        o = os.path.join(tmp, s.replace("/", "_")[:-4] + ".o")
        rc, out = _run([CXX] + flags + INC + ["-include-pch", pch, "-c", os.path.join(REPO, s), "-o", o])
        return s, o, rc, out
    objs = []
    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for s, o, rc, out in ex.map(one, srcs):
            if rc:
                die("compiling %s:\n%s" % (s, out))
            objs.append(o)
    rc, out = _run(["ar", "rcs", os.path.join(tmp, "libcore.a")] + objs)
    if rc:
        die("ar: " + out)
    for o in objs:
        os.unlink(o)
    os.unlink(pch)
    os.rename(tmp, d)
    _prune("lib-" + flavour, 3)
    return d, ar, flags


def driver(name, flavour="asan", extra=()):
    """Builds /verif/drivers/<name>.cpp against the library; returns the executable."""
    d, ar, flags = lib(flavour)
    if flavour == "sched":
        flags = [f for f in flags if f not in FLAVOURS["sched"][1:]] + ["-rdynamic"]
    src = os.path.join(HERE, "drivers", name + ".cpp")
    h = hashlib.sha256(repr((flags, extra)).encode())
    for p in sorted(glob.glob(os.path.join(HERE, "drivers", "*.hpp"))) + [src]:
        h.update(open(p, "rb").read())
    exe = os.path.join(d, "%s-%s" % (name, h.hexdigest()[:12]))
    lock = open(os.path.join(d, ".lock-" + name), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    if not os.path.exists(exe):
        rc, out = _run([CXX] + flags + INC + ["-I" + os.path.join(HERE, "drivers"), src, ar, "-o", exe + ".tmp",
                                             "-pthread", "-ldl", "-lz"] + list(extra))
        if rc:
            die("compiling driver %s:\n%s" % (name, out))
        os.rename(exe + ".tmp", exe)
    return exe


if __name__ == "__main__":
    import time
    t = time.time()
    print(lib(sys.argv[1] if len(sys.argv) > 1 else "asan")[1], "%.1fs" % (time.time() - t))
