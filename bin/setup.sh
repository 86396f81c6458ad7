#!/bin/bash
# builds the engine and warms the two builds of /repo (checks rebuild whatever is stale themselves)
cd "$(dirname "$0")/.." && exec python3 - <<'P'
import sys
sys.path.insert(0, "bin")
import os, check
os.makedirs(check.W, exist_ok=True)
k = check.src_key()
check.lockfile()
check.build_engine(); check.build_ir(k); check.build_native(k)
print("setup ok")
P
