#!/bin/bash
# nothing to compile: checks the interpreters the framework needs
set -e
cd "$(dirname "$0")"
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python - <<'PY'
import sys
sys.path.insert(0, '.')
from vs import paths
paths.setup()
import sympy, z3
print('sympy', sympy.__version__, sympy.__file__)
print('z3', z3.get_version_string())
PY
