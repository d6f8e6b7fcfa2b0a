#!/bin/bash
# Builds the driver and the Python extension once, so that a broken toolchain shows up early.
# Checks do not depend on it: each builds what it needs from /repo's current tree.
set -e
cd "$(dirname "$0")/.."
mkdir -p work evidence replays
python3 - <<'P'
import sys
sys.path.insert(0, "bin")
import check
env = check.base_env()
print(check.build_driver(env))
print(check.build_driver(env, "internals"))
print(check.build_extension(env))
P
