"""Locations and interpreter set-up shared by checks and replays."""
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VS_REPO', '/repo')
VENV_PY = '/opt/venv/bin/python'
VT_SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


def setup(solver=True):
    """sympy comes from the project's venv; z3 (only) from the verification venv."""
    sys.dont_write_bytecode = True
    for p in (VERIF, REPO):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)
    if solver and VT_SITE not in sys.path:
        sys.path.append(VT_SITE)
