#!/bin/bash
# nothing to compile: check that the tools the checks use are there
set -e
cd "$(dirname "$0")"
mkdir -p evidence
PY=$(command -v python3-vt || echo /opt/veriftools/pyvenv/bin/python)
PYTHONDONTWRITEBYTECODE=1 "$PY" -c "import sympy, mpmath, z3, pycparser; print('tools ok', sympy.__version__)"
chmod +x run_check.sh
