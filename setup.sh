#!/bin/bash
# builds the recorder once, so that a broken toolchain shows before any check
set -e
cd "$(dirname "$0")"
python3 - <<'P'
import sys
sys.path.insert(0, ".")
import check
print(check.build())
P
