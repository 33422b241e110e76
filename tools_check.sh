#!/bin/bash
# setup: nothing to build; make sure the tools the checks use are there
set -e
cd "$(dirname "$0")"
for t in clang++ llvm-link opt llvm-dis c++filt; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
/opt/veriftools/pyvenv/bin/python -c 'import z3; print("z3", z3.get_version_string())'
mkdir -p evidence out
/opt/veriftools/pyvenv/bin/python -m compileall -q llvc run.py
