#!/bin/bash
# nothing to install; checks that the tools the checks use are there
set -e
command -v python3-vt clang++-18 g++ >/dev/null
python3-vt -c 'import z3'
python3-vt -m compileall -q lnv >/dev/null 2>&1 || true
mkdir -p build evidence
