#!/bin/bash
# Nothing to compile: the checks are Python and import /repo's working tree directly.
set -e
cd "$(dirname "$0")"
mkdir -p evidence replays
/opt/venv/bin/python -B - <<'P'
import sys
sys.dont_write_bytecode = True
sys.path[:0] = [".", "/repo"]
import importlib
for i in range(1, 22):
    importlib.import_module(f"checks.c{i:02}").CHECK
print("ok")
P
