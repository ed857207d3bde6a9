#!/bin/sh
# Builds the harness crates from the committed files; every check builds again from /repo's tree.
set -e
cd "$(dirname "$0")/.."
python3 - <<'PY'
import sys
sys.path.insert(0, "checks")
import vlib
vlib.build("tid")
vlib.build("drive")
PY
