#!/usr/bin/env python3
"""run_check.py <ID> [--tier quick|thorough] [--seed N] [--replay FILE]"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
WANT = {
    'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0', 'MPLBACKEND': 'Agg',
    'PYTHONNOUSERSITE': '1', 'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1',
}
if any(os.environ.get(k) != v for k, v in WANT.items()) or (
        os.path.exists(PY) and os.path.realpath(sys.prefix) != '/opt/venv'):
    os.environ.update(WANT)
    exe = PY if os.path.exists(PY) else sys.executable
    os.execv(exe, [exe, os.path.abspath(__file__), *sys.argv[1:]])
sys.path.insert(0, HERE)
from pfcmon.core import main  # noqa: E402

if __name__ == '__main__':
    sys.exit(main())
