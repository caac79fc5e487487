#!/bin/bash
# Nothing to compile: checks import calliope from /repo/src. Verify that the interpreter and the solvers are there.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
export PATH=/opt/venv/bin:$PATH PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python -c "import calliope, gurobipy, pyomo" && command -v cbc glpsol >/dev/null
