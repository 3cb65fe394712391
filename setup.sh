#!/bin/bash
# Warms the build cache; the checks build whatever they still need themselves.
cd "$(dirname "$0")" || exit 3
mkdir -p build evidence replays
python3 - <<'PY'
import sys
sys.path.insert(0, "tools")
import run
for v in ("asan", "strict"):
    run.build_lib(v)
PY
