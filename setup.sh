#!/bin/bash
# Builds the engine and the harness groups (offline). Checks do the same on demand.
cd "$(dirname "$0")" || exit 1
python3 - <<'PY'
import sys
sys.path.insert(0, ".")
from vcommon import *
from checks import CHECKS
build_engine()
for g in sorted({p["group"] for c in CHECKS.values() for p in c["parts"]}):
    print(g, *build_group(g))
PY
