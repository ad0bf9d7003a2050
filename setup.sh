#!/bin/bash
# Build the harness crates once, so that checks only rebuild what changed.
cd "$(dirname "$0")" || exit 2
python3 - <<'PY'
import sys; sys.path.insert(0, "lib")
import vlib
vlib.build("harness")
vlib.build("netharness")
for kind in vlib.KINDS:
    vlib.build("redharness:" + kind)
PY
