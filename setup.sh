#!/bin/bash
# Nothing to build: check that the interpreter, z3 and lambeq are importable.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
export PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python -W ignore -c "
import sys; sys.path.insert(0, '.')
import vsym.boot, z3; print('z3', z3.get_version_string())"
