#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from texts.py and props.py"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
import props, texts

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for k in sorted(list(texts.T) + list(texts.NA)):
        d = dict(id=k)
        d.update(texts.T[k] if k in texts.T else texts.NA[k][0])
        f.write(json.dumps(d) + "\n")
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^hook:"], stdout=subprocess.PIPE, text=True).stdout.split()
TECH = "symbolic execution of the compiler's LLVM IR of the real code; z3/cvc5 decide every path feasibility and every obligation over all inputs in the stated boxes; counterexamples replayed natively"
checks = [dict(property=k, quick_cmd="python3 bin/check.py " + k, thorough_cmd="VERIF_TIER=thorough python3 bin/check.py %s --tier thorough" % k, evidence_file="evidence/%s.json" % k,
               technique=props.PROPS[k].get("technique", TECH), level="model_checking", level_note="bounded: " + props.PROPS[k]["bounds"]) for k in sorted(props.PROPS)]
na = [dict(property=k, reason=texts.NA[k][1]) for k in sorted(texts.NA)] + [dict(property=k, reason="check not registered yet") for k in sorted(texts.T) if k not in props.PROPS]
m = dict(version=1, setup_cmd="bash bin/setup.sh", hooks=dict(guard="cfg(posidonius_verif)", enable='RUSTFLAGS="--cfg posidonius_verif"', source_commits=hooks), checks=checks, not_applicable=na)
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
