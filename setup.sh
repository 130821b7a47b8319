#!/bin/bash
# Nothing to build ahead of time: every check compiles its harness from /repo's current tree. Verifies the tools are there.
set -e
cd "$(dirname "$0")"
mkdir -p evidence
command -v clang++-18 opt-18 python3-vt cvc5 >/dev/null
python3-vt -c "import sys; sys.path.insert(0,'vc'); import z3, llvmir, vexec, loops, contract"
