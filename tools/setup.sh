#!/bin/bash
# Checks that the tools the checks need are there; every check compiles its own harness.
set -e
cd "$(dirname "$0")/.."
for t in clang++ python3; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
python3 -c 'import xml.etree, json'
mkdir -p build evidence replay
echo ok
