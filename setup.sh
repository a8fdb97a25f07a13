#!/bin/bash
# nothing to compile: checks that the interpreter, the solvers and the package load
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
mkdir -p evidence
/opt/venv/bin/python - <<'P' || exit 1
import sys
sys.path.insert(0, '.')
from pv import solver, loader, engine
loader.sym('')
print('engine ready')
P
command -v cvc5 >/dev/null || echo 'cvc5 not found: z3 only'
exit 0
