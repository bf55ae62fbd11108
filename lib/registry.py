"""Collects the properties from props/*.py. Each file calls P(...)."""
import glob
import os

PROPS = {}
TRUSTED = [
    "the engine (engine/), Z3 4.8.12, clang 18 -O1 as the front end, and the libc subset in rt/rt.c; sampled paths are replayed natively against gcc+ASan objects of the same sources and must agree",
    "the environment model in rt/vm_posix.c and rt/vm_lib.c (POSIX file system with volatile and durable state, clock, users, message digests) stands for the operating system and the libraries",
    "release configuration (DEBUG off), 64-bit little-endian, memory allocation never fails",
]
NA = []


def P(id, title, statement, over, qtext, why, files, mechanism, runs, assumptions=(), observe=(), state=(), note=""):
    assert id not in PROPS, id
    assert len(title) <= 80, title
    PROPS[id] = dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mechanism=mechanism, runs=runs, assumptions=list(assumptions), observe=list(observe), state=list(state), note=note)


def excluded(harness):
    """Source files that a harness includes itself, from its "// exclude:" line."""
    for line in open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", harness)):
        if line.startswith("// exclude:"):
            return line.split(":", 1)[1].split()
    return []


def R(name, harness, bounds, entry="harness", args=None, **kw):
    a = args or {}
    if isinstance(a, (list, tuple)):
        a = dict(enumerate(a))
    t = kw.pop("thorough", None)
    kw.setdefault("exclude", excluded(harness))
    r = dict(name=name, harness=harness, entry=entry, bounds=bounds, args=a, **kw)
    if t is not None:
        r["thorough_args"] = dict(enumerate(t)) if isinstance(t, (list, tuple)) else t
    return r


for f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "props", "*.py"))):
    exec(compile(open(f).read(), f, "exec"), dict(P=P, R=R, NA=NA))
