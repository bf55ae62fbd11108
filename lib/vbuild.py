"""Builds the engine, the bitcode of /repo's current sources, and the native replay objects. Everything is keyed by a hash of the
inputs, so a changed tree is always rebuilt and an unchanged one may be reused."""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import os
import re
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
LLVM = "/usr/lib/llvm-18/bin/"
JOBS = os.cpu_count() or 4

BUILD_AUTO = """#pragma once
#define CFGOPTDEF_CONFIG_PATH "/etc/pgbackrest"
#define FN_EXTERN extern
#define HAVE_BUILTIN_TYPES_COMPATIBLE_P
#define HAVE_LIBSSH2
#define HAVE_LIBSYSTEMD
#define HAVE_LIBZST
#define VR_EXTERN_DECLARE extern
#define VR_EXTERN_DEFINE
#ifdef __clang__
#define VR_NON_STRING
#else
#define VR_NON_STRING __attribute__((nonstring))
#endif
#define ZLIB_CONST
"""


class BuildError(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if r.returncode:
        raise BuildError("%s\n%s%s" % (" ".join(cmd[:6]), r.stdout[-2000:], r.stderr[-4000:]))
    return r.stdout


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.path = os.path.join(BUILD, name + ".lock")

    def __enter__(self):
        self.f = open(self.path, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def engine():
    """Build the symbolic execution engine."""
    with Lock("engine"):
        run(["make", "-C", os.path.join(VERIF, "engine"), "-j%d" % JOBS])
    return os.path.join(BUILD, "engine", "symx")


def sources():
    text = open(os.path.join(REPO, "src/meson.build")).read()
    m = re.search(r"src_pgbackrest\s*=\s*\[(.*?)\]", text, re.S)
    return re.findall(r"'([^']+\.c)'", m.group(1))


def tree_hash():
    h = hashlib.sha256()
    for base in ("src", "build"):
        for root, dirs, files in sorted(os.walk(os.path.join(REPO, base))):
            dirs.sort()
            if "__pycache__" in root:
                continue
            for f in sorted(files):
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, REPO).encode() + b"\0")
                h.update(open(p, "rb").read() + b"\0")
    h.update(open(os.path.abspath(__file__), "rb").read())
    return h.hexdigest()[:16]


def gen(tree):
    """Generated headers for the tree."""
    g = os.path.join(tree, "gen")
    if os.path.exists(os.path.join(g, "ok")):
        return g
    shutil.rmtree(g, ignore_errors=True)
    for d in ("src/command/help", "src/postgres"):
        os.makedirs(os.path.join(g, d))
    for what in ("help", "postgres"):
        run([sys.executable, os.path.join(REPO, "build/build.py"), what, "--repo-path=" + REPO, "--build-path=" + g],
            env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
    open(os.path.join(g, "src/build.auto.h"), "w").write(BUILD_AUTO)
    open(os.path.join(g, "ok"), "w").close()
    return g


def flags(g):
    return ["-std=c11", "-D_FILE_OFFSET_BITS=64", "-D_POSIX_C_SOURCE=200809L", "-w", "-I" + g + "/src", "-I" + REPO + "/src",
            "-I" + g + "/src/command/help", "-I" + g + "/src/postgres", "-I/usr/include/postgresql", "-I/usr/include/libxml2",
            "-I" + VERIF + "/rt", "-I" + VERIF + "/harness", "-I" + VERIF]


BCFLAGS = ["-O1", "-gline-tables-only", "-fno-vectorize", "-fno-slp-vectorize", "-fno-pic", "-fno-stack-protector", "-U_FORTIFY_SOURCE",
           "-DXXH_VECTOR=0", "-fno-unroll-loops", "-emit-llvm", "-c"]
NATFLAGS = ["-O1", "-g1", "-fsanitize=address", "-fno-sanitize-address-use-after-scope", "-fno-omit-frame-pointer", "-U_FORTIFY_SOURCE", "-fno-pic", "-c"]


def objname(s):
    return s.replace("/", "_")


def compile_all(jobs):
    """jobs: list of commands; runs them in parallel."""
    with cf.ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(run, jobs))


def tree_dir():
    t = os.path.join(BUILD, "tree-" + tree_hash())
    os.makedirs(t, exist_ok=True)
    # Keep only a few trees
    old = sorted((d for d in glob.glob(os.path.join(BUILD, "tree-*")) if d != t), key=os.path.getmtime)
    for d in old[:-3]:
        shutil.rmtree(d, ignore_errors=True)
    os.utime(t)
    return t


def bitcode(exclude=()):
    """Bitcode of every source file; returns the list of files, without those excluded (which a harness includes itself)."""
    t = tree_dir()
    with Lock("tree"):
        g = gen(t)
        d = os.path.join(t, "bc")
        os.makedirs(d, exist_ok=True)
        srcs = sources()
        jobs = []
        for s in srcs:
            o = os.path.join(d, objname(s) + ".bc")
            if not os.path.exists(o):
                jobs.append((o, [LLVM + "clang", *BCFLAGS, *flags(g), os.path.join(REPO, "src", s), "-o", o + ".tmp"]))
        compile_all([j[1] for j in jobs])
        for o, _ in jobs:
            os.rename(o + ".tmp", o)
    return [os.path.join(d, objname(s) + ".bc") for s in srcs if s not in exclude and s != "main.c"], g, t


def native(exclude=()):
    """Native (address sanitizer, gcc) objects of every source file with the environment's functions redirected to the model."""
    t = tree_dir()
    with Lock("tree"):
        g = gen(t)
        d = os.path.join(t, "nat")
        os.makedirs(d, exist_ok=True)
        srcs = sources()
        jobs = []
        for s in srcs:
            o = os.path.join(d, objname(s) + ".o")
            if not os.path.exists(o):
                jobs.append((o, ["gcc", *NATFLAGS, *flags(g), os.path.join(REPO, "src", s), "-o", o + ".tmp"]))
        compile_all([j[1] for j in jobs])
        for o, _ in jobs:
            os.rename(o + ".tmp", o)
    return [os.path.join(d, objname(s) + ".o") for s in srcs if s not in exclude and s != "main.c"], g, t
