"""Link a harness with the code under test, run the engine on it, and replay cases natively."""
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import time

import vbuild
from vbuild import BCFLAGS, LLVM, NATFLAGS, VERIF, BuildError, flags, run

RT_ENGINE = ["rt.c", "rt_env.c", "vm_posix.c", "vm_lib.c"]
RT_NATIVE = ["vm_posix.c", "vm_lib.c"]


def redefs():
    """Symbols of the environment that the model provides (vm_X): X is redirected to vm_X in native objects."""
    names = set()
    for f in RT_NATIVE:
        for m in re.finditer(r"^[A-Za-z_][A-Za-z_0-9 \*]*?\bvm_([A-Za-z_0-9]+)\(", open(os.path.join(VERIF, "rt", f)).read(), re.M):
            names.add(m.group(1))
    own = {"reset", "lookup", "ent", "mkdirs", "put", "putz", "putlink", "exists", "equal", "remove", "recover", "allDurable", "fdOpenCount", "dump", "pipeFd"}
    return sorted(names - own)


def rt_hash():
    h = hashlib.sha256()
    for f in sorted(glob.glob(os.path.join(VERIF, "rt", "*")) + glob.glob(os.path.join(VERIF, "harness", "*.h"))):
        h.update(open(f, "rb").read())
    return h.hexdigest()[:12]


def link(harness, exclude, work, g, bcs, defines=()):
    os.makedirs(work, exist_ok=True)
    objs = []
    for f in RT_ENGINE:
        o = os.path.join(work, f + ".bc")
        extra = ["-fno-builtin"] if f != "vm_posix.c" else ["-fno-builtin", "-D_FILE_OFFSET_BITS=64"]
        run([LLVM + "clang", "-O1", "-gline-tables-only", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-emit-llvm", "-c", "-w", *extra, "-I" + VERIF + "/rt", os.path.join(VERIF, "rt", f), "-o", o])
        objs.append(o)
    o = os.path.join(work, "harness.bc")
    run([LLVM + "clang", *BCFLAGS, *flags(g), "-DVH_ENGINE=1", *defines, os.path.join(VERIF, "harness", harness) if not harness.startswith("/") else harness, "-o", o])
    out = os.path.join(work, "linked.bc")
    run([LLVM + "llvm-link", "-o", out, o, *bcs, *objs])
    return out


def engine_run(symx, bc, out, entry, args, seconds, procs=8, samples=12, max_steps=400000000, retry=True):
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    cmd = [symx, "--out", out, "--entry", entry, "--time", str(seconds), "--procs", str(procs), "--samples", str(samples), "--max-steps", str(max_steps)]
    for k, v in sorted(args.items()):
        cmd += ["--arg", str(k), str(v)]
    cmd.append(bc)
    t = time.time()
    try:
        r = subprocess.run(["bash", "-c", 'ulimit -s unlimited; ulimit -v 12000000; exec "$@"', "x", *cmd], capture_output=True, text=True, timeout=seconds + 120, errors="replace")
        rc, log = r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired as e:
        rc, log = 2, "engine timeout " + str(e)
    res = {"rc": rc, "log": log, "wall": time.time() - t}
    p = os.path.join(out, "result.json")
    if os.path.exists(p):
        res.update(json.load(open(p)))
    elif rc < 0 and retry:
        return engine_run(symx, bc, out, entry, args, seconds, procs, samples, max_steps, False)    # killed from outside
    return res


def native_build(harness, exclude, work, entry, defines=()):
    objs, g, t = vbuild.native(exclude)
    d = os.path.join(t, "natmodel-" + rt_hash())
    with vbuild.Lock("tree"):
        if not os.path.exists(os.path.join(d, "ok")):
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            with open(os.path.join(d, "redef"), "w") as f:
                for n in redefs():
                    f.write("%s vm_%s\n" % (n, n))
            for f in RT_NATIVE:
                run(["gcc", "-O1", "-g1", "-w", "-fsanitize=address", "-D_FILE_OFFSET_BITS=64", "-I" + VERIF + "/rt", "-c", os.path.join(VERIF, "rt", f), "-o", os.path.join(d, f + ".o")])
            vbuild.compile_all([["objcopy", "--redefine-syms=" + os.path.join(d, "redef"), o, os.path.join(d, os.path.basename(o))] for o in glob.glob(os.path.join(t, "nat", "*.o"))])
            open(os.path.join(d, "ok"), "w").close()
    os.makedirs(work, exist_ok=True)
    ho = os.path.join(work, "harness.o")
    run(["gcc", *NATFLAGS, *flags(g), *defines, os.path.join(VERIF, "harness", harness) if not harness.startswith("/") else harness, "-o", ho])
    run(["objcopy", "--redefine-syms=" + os.path.join(d, "redef"), ho])
    no = os.path.join(work, "vh_native.o")
    run(["gcc", "-O1", "-g1", "-w", "-fsanitize=address", "-DVH_ENTRY=" + entry, "-I" + VERIF + "/rt", "-c", os.path.join(VERIF, "rt", "vh_native.c"), "-o", no])
    exe = os.path.join(work, "replay")
    rsp = os.path.join(work, "link.rsp")
    open(rsp, "w").write("\n".join([ho, no] + [os.path.join(d, f + ".o") for f in RT_NATIVE] + [os.path.join(d, os.path.basename(o)) for o in objs]))
    run(["gcc", "-no-pie", "-fsanitize=address", "-o", exe, "@" + rsp, "-Wl,--gc-sections", "-lssl", "-lcrypto", "-lz", "-lbz2", "-llz4", "-lzstd", "-lxml2", "-lpq", "-lssh2", "-lsystemd", "-lm"])
    return exe


def replay(exe, case, args, timeout=60):
    tmp = case + ".run"
    with open(tmp, "w") as f:
        for k, v in sorted(args.items()):
            f.write("a %s %s\n" % (k, v))
        f.write(open(case).read())
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0", TZ="UTC")
    try:
        r = subprocess.run([exe, tmp], capture_output=True, text=True, timeout=timeout, env=env, errors="replace")
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 98, "replay timeout"
