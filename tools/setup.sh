#!/bin/bash
# The specification needs no building; make sure the tools the checks use are there.
set -e
cd "$(dirname "$0")/.."
command -v java >/dev/null && command -v cmake >/dev/null && command -v ninja >/dev/null && command -v gcc >/dev/null
python3 -m py_compile check.py driver/*.py
mkdir -p evidence replays
