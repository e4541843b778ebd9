#!/bin/bash
# Builds every harness crate from the committed files, against /repo's working tree.
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
python3 - <<'P'
import os, sys
sys.path.insert(0, "lib")
import vlib
for n in sorted(os.listdir("harness")):
    vlib.build(n, [n])
P
