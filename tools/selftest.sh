#!/bin/sh
# the repository's own tests against the INSTRUMENTED package (concrete runs):
# the instrumentation must not change what the code computes.
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
cp -a "${PYVC_REPO:-/repo}/test" "$T/test"
cat > "$T/vcplugin.py" <<'P'
import sys
sys.path.insert(0, "/verif")
from pyvc import instrument
instrument.install()
P
cd "$T/test" && PYTHONPATH="$T:$T/test" PYTHONDONTWRITEBYTECODE=1 python3-vt -m pytest -q -x -p vcplugin -p no:cacheprovider . "$@" 2>&1 | tail -8
