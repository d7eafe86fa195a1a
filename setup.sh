#!/bin/bash
# Builds the instrumented library once so that the checks only relink what changed.
cd "$(dirname "$0")" || exit 1
python3 lib/vbuild.py asan core collision planning || exit 1
