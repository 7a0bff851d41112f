#!/bin/bash
# Nothing to build: check that the interpreters and solvers are there.
set -e
cd "$(dirname "$0")"
export PYTHONDONTWRITEBYTECODE=1
/opt/veriftools/pyvenv/bin/python -c "import z3, numpy"
/opt/venv/bin/python -c "import torch, scipy"
command -v cvc5 >/dev/null
echo setup ok
