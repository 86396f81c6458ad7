#!/bin/bash
# replay.sh <replay.json>: runs the recorded counterexample against the natively compiled /repo
cd "$(dirname "$0")/.." && exec python3 - "$1" <<'P'
import sys, json
sys.path.insert(0, "bin")
import check
r = json.load(open(sys.argv[1]))
k = check.src_key(); check.lockfile()
st, ids, txt = check.run_native(check.build_native(k), r["harness"], r["point"])
print(txt); print(st, ids)
sys.exit(1 if st == "violated" else 0)
P
