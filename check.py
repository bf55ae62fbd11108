#!/usr/bin/env python3
"""Decide one property: check.py <property id> [--tier quick|thorough]

Exit 0: the property held on every path within the stated bounds. Exit 1: violated (a VIOLATION line names the replay file). Exit 2: no
answer (build failure, unsupported construct, or a bound of the engine was reached)."""
import glob
import json
import os
import shutil
import sys
import time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vbuild  # noqa: E402
import vrun  # noqa: E402
from registry import PROPS, TRUSTED  # noqa: E402

VERIF = vbuild.VERIF


def known_findings(prop):
    """Committed findings: lines 'finding: property=<id> match=<text> | <what fails>'."""
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("finding: property=%s " % prop):
                m = line.split("match=", 1)[1]
                match, what = m.split(" | ", 1)
                out.append((match.strip(), what.strip()))
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    keep = False
    a = sys.argv[2:]
    while a:
        x = a.pop(0)
        if x == "--tier":
            tier = a.pop(0)
        elif x == "--only":
            only = a.pop(0)
        elif x == "--keep":
            keep = True
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = PROPS[prop]
    t0 = time.time()
    work = os.path.join(VERIF, "build", "run", prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    outdir = os.path.join(VERIF, "build", "replay", prop)
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    symx = vbuild.engine()
    known = known_findings(prop)
    violations = []
    errors = []
    tot = dict(paths=0, forks=0, instructions=0, queries=0, sat=0, unsat=0, cache_hits=0, solver_s=0.0, asserts=0, asserts_by_solver=0)
    funcs = set()
    samples = []
    runs = []
    validated = 0
    knownHit = []
    linked = {}
    for r in spec["runs"]:
        if tier == "quick" and r.get("thorough_only"):
            continue
        if only and r["name"] != only:
            continue
        harness = r["harness"]
        exclude = tuple(r.get("exclude", ()))
        defines = tuple(r.get("defines", ()))
        args = dict(r.get("args", {}))
        if tier == "thorough":
            args.update(r.get("thorough_args", {}))
        seconds = r.get("time", 300) if tier == "quick" else r.get("thorough_time", 3000)
        w = os.path.join(work, r["name"])
        key = (harness, exclude, defines)
        try:
            if key not in linked:
                bcs, g, _ = vbuild.bitcode(exclude)
                linked[key] = vrun.link(harness, exclude, w, g, bcs, defines)
        except vbuild.BuildError as e:
            errors.append("%s: build failed: %s" % (r["name"], e))
            continue
        out = os.path.join(w, "out")
        res = vrun.engine_run(symx, linked[key], out, r.get("entry", "harness"), args, seconds, max_steps=r.get("max_steps", 100000000), samples=r.get("samples", 8))
        for k in tot:
            tot[k] += res.get(k, 0)
        for f in res.get("functions", []):
            if "/repo/" in f or f.startswith("src/"):
                funcs.add(f.split("/repo/")[-1])
        missing = [x for x in r.get("labels", []) if x not in res.get("labels", {})]
        runs.append(dict(name=r["name"], entry=r.get("entry", "harness"), args=args, bounds=r["bounds"], paths=res.get("paths"), forks=res.get("forks"), queries=res.get("queries"), unsat=res.get("unsat"), solver_s=res.get("solver_s"), max_query_s=res.get("max_query_s"), wall_s=round(res["wall"], 2), complete=res.get("complete"), labels=res.get("labels")))
        viol = res.get("violations", 0)
        if res["rc"] == 3 or "complete" not in res:
            errors.append("%s: engine error\n%s" % (r["name"], res["log"][-3000:]))
            continue
        cases = sorted(glob.glob(os.path.join(out, "sample*.case")))
        vcases = sorted(glob.glob(os.path.join(out, "viol*.case")))
        exe = None
        if cases or vcases:
            try:
                exe = vrun.native_build(harness, exclude, os.path.join(w, "nat"), r.get("entry", "harness"), defines)
            except vbuild.BuildError as e:
                errors.append("%s: replay build failed: %s" % (r["name"], e))
                continue
        if viol:
            for c in vcases:
                msg = [x[4:].strip() for x in open(c) if x.startswith("end ")][0]
                rc, log = vrun.replay(exe, c, args)
                hit = [k for k in known if k[0] in msg]
                if rc in (1, 98, 99) or rc < 0:
                    if hit:
                        knownHit += [k for k in hit if k not in knownHit]
                        continue
                    dst = os.path.join(outdir, "%s-%s.txt" % (r["name"], os.path.basename(c)))
                    with open(dst, "w") as f:
                        f.write("property %s, run %s, args %s\n%s\n\n%s\n\nnative replay (exit %d):\n%s\n" % (prop, r["name"], args, msg, open(c).read(), rc, log[-4000:]))
                    violations.append((dst, "%s: %s" % (r["name"], msg)))
                else:
                    errors.append("%s: engine reported '%s' but it does not reproduce natively (%d): %s\n%s" % (r["name"], msg, rc, log[-1500:], open(c).read()[-1500:]))
        elif not res.get("complete"):
            errors.append("%s: exploration incomplete: %s" % (r["name"], res["log"][-2000:]))
        if missing and not viol and res.get("complete"):
            dst = os.path.join(outdir, r["name"] + "-unreachable.json")
            json.dump(dict(property=prop, run=r["name"], args=args, required_but_unreachable=missing, reached=res.get("labels")), open(dst, "w"), indent=1)
            violations.append((dst, "%s: required outcome cannot be reached for any input: %s" % (r["name"], ", ".join(missing))))
        for c in cases:
            rc, log = vrun.replay(exe, c, args)
            if rc == 0:
                validated += 1
                if len(samples) < 6:
                    samples.append(dict(run=r["name"], inputs=[x[2:].strip() for x in open(c) if x.startswith("s ")][:40], observations=sum(1 for x in open(c) if x.startswith("o "))))
            else:
                errors.append("%s: path %s differs natively (%d): %s" % (r["name"], os.path.basename(c), rc, log[-1500:]))
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking",
              coverage=dict(states=tot["paths"], transitions=tot["forks"] + tot["paths"], traces_validated_against_impl=validated, samples=samples or [dict(note="no completed path")], exhaustive=not errors and not violations, queries_discharged=tot["queries"], queries_unsat=tot["unsat"], queries_sat=tot["sat"], query_cache_hits=tot["cache_hits"], solver_time_s=round(tot["solver_s"], 3), llvm_instructions_executed=tot["instructions"], assertions_checked=tot["asserts"], assertions_decided_by_solver=tot["asserts_by_solver"], functions_encoded=len(funcs), functions=sorted(funcs)[:400], runs=runs),
              assumptions=list(spec.get("assumptions", [])) + TRUSTED, wall_s=round(time.time() - t0, 2), violations=len(violations))
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print("%s tier=%s paths=%d forks=%d queries=%d solver=%.1fs validated=%d functions=%d wall=%.1fs" % (prop, tier, tot["paths"], tot["forks"], tot["queries"], tot["solver_s"], validated, len(funcs), time.time() - t0))
    for r in runs:
        print("  run %-24s paths=%s queries=%s wall=%ss labels=%s" % (r["name"], r["paths"], r["queries"], r["wall_s"], r["labels"]))
    for k in knownHit:
        print("KNOWN-FINDING: property=%s %s" % (prop, k[1]))
    if not keep:
        for d in glob.glob(os.path.join(work, "*")):
            for x in glob.glob(os.path.join(d, "*.bc")) + glob.glob(os.path.join(d, "nat")):
                shutil.rmtree(x, ignore_errors=True) if os.path.isdir(x) else os.remove(x)
    for e in errors:
        print("ERROR " + e)
    if violations:
        for dst, msg in violations:
            print(msg)
        for dst, msg in violations[:1]:
            print("VIOLATION property=%s replay=%s" % (prop, dst))
        return 1
    return 2 if errors else 0


if __name__ == "__main__":
    try:
        rc = main()
    except vbuild.BuildError as e:
        print("ERROR build failed: %s" % e)
        rc = 2
    sys.exit(rc)
