#!/bin/bash
# Nothing is installed: only says whether the tools the checks use are there.
cd "$(dirname "$0")" || exit 2
for t in /opt/pypyvenv/bin/python /usr/bin/python3; do [ -x "$t" ] || { echo "missing $t"; exit 1; }; done
for t in yosys clang clang-18 clang++-18; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
mkdir -p evidence
echo ready
