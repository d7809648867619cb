#!/bin/bash
# Builds the MIR driver and warms the dumps of the configurations of the quick tier.
set -e
cd "$(dirname "$0")"
python3 - <<'P'
import sys
sys.path.insert(0, "engine")
import infra
infra.build_driver()
for c in ("default", "full", "sync", "icu", "ext"): print(infra.ensure_dump(c))
P
# the build directories of the checks that compile (C14, C43)
python3 check.py C43 > /dev/null 2>&1 || true
python3 check.py C14 > /dev/null 2>&1 || true
