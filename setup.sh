#!/bin/sh
# Builds both simulator executables from /repo's working tree.
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
python3 tools/build.py $(python3 -c 'import sys; sys.path.insert(0,"tools"); import propinfo; print(" ".join(sorted({v for p in propinfo.PROPS.values() for v in p["variants"]})))')
