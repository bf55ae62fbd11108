#!/usr/bin/env python3
"""Regenerate properties.jsonl and MANIFEST.json from props/*.py."""
import json
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from registry import NA, PROPS
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for i in sorted(PROPS):
        p = PROPS[i]
        an = dict(files=p["files"], mechanism=[dict(name=m[0], where=m[1]) for m in p["mechanism"]])
        if p["observe"]:
            an["observe_at"] = p["observe"]
        if p["state"]:
            an["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in p["state"]]
        an["hook_needed"] = None
        f.write(json.dumps(dict(id=i, title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"], anchors=an)) + "\n")
    for n in NA:
        f.write(json.dumps(n["prop"]) + "\n")
m = dict(version=1, setup_cmd="python3 lib/setup.py", checks=[], not_applicable=[dict(property=n["prop"]["id"], reason=n["reason"]) for n in NA],
         notes="Every check is check.py <property>: it compiles /repo's current sources to LLVM IR, executes the harness symbolically (engine/), decides each assertion with Z3 and replays counterexamples natively.")
for i in sorted(PROPS):
    p = PROPS[i]
    m["checks"].append(dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="python3 check.py %s --tier thorough" % i, technique="bounded symbolic execution of the real code's LLVM IR with Z3, counterexamples replayed natively", level="model_checking",
                            level_note="Exhaustive within the stated bounds: " + " | ".join("%s: %s" % (r["name"], r["bounds"]) for r in p["runs"] if not r.get("thorough_only")) + ". " + (p["note"] + " " if p["note"] else "") + "Trusts the engine, Z3, clang and the environment model; nothing is claimed outside the bounds."))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
# Generated part of DESIGN.md
d = os.path.join(V, "DESIGN.md")
mark = "<!-- GENERATED BOUNDS TABLE -->"
text = open(d).read().split(mark)[0] + mark + "\n\n"
for i in sorted(PROPS):
    p = PROPS[i]
    text += "### %s %s\n\n%s\n\nWhy the tests cannot settle it: %s\n\nObserved: %s. Anchors: %s.\n\n" % (i, p["title"], p["qtext"][0].upper() + p["qtext"][1:] + ".", p["why"], ", ".join(p["observe"]) or "results", "; ".join("%s (%s)" % m for m in p["mechanism"]))
    for r in p["runs"]:
        text += "- `%s`%s: harness/%s `%s`; %s\n" % (r["name"], " (thorough only)" if r.get("thorough_only") else " (more in the thorough tier)" if r.get("thorough_args") else "", r["harness"], r["entry"], r["bounds"])
    text += "\n"
open(d, "w").write(text)
print(len(PROPS), "properties")
