#!/bin/sh
# builds what the checks need from the committed files and /repo's working tree (offline)
set -e
cd "$(dirname "$0")"
mkdir -p .cache evidence
exec python3 - <<'P'
import sys; sys.path.insert(0, "lib")
import osqpdrv, trace
trace.compile_java(); print(osqpdrv.build())
P
