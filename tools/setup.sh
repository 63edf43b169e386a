#!/bin/bash
# Builds the harness from the committed files and /repo's working tree, offline.
cd "$(dirname "$0")/.." || exit 1
mkdir -p work evidence target
python3 - <<'P'
import sys
sys.path.insert(0, "tools")
import lib
for c in lib.SETUP:
    print(lib.build(c))
P
