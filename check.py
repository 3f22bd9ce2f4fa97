#!/usr/bin/env python3
"""Entry point of every check:  check.py <PROPERTY> [--tier quick|thorough] [--replay FILE]

Exit 0: the property held on everything explored.
Exit 1: `VIOLATION property=<id> replay=<path>` was printed.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = os.environ.get('VERIF_PYTHON', '/opt/venv/bin/python')
if not os.path.exists(PY):
    PY = sys.executable

# One fixed environment for the whole run.  Workers get their own PYTHONHASHSEED.
WANT = {'PYTHONDONTWRITEBYTECODE': '1', 'OMP_NUM_THREADS': '1', 'LC_ALL': 'C.UTF-8',
        'PYTHONUNBUFFERED': '1', 'SYMPY_USE_CACHE': 'yes'}
if os.environ.get('VERIF_CHILD') != '1':
    env = dict(os.environ)
    env.update(WANT)
    env.setdefault('PYTHONHASHSEED', '0')
    if not env['PYTHONHASHSEED'].isdigit():
        env['PYTHONHASHSEED'] = '0'
    env['VERIF_CHILD'] = '1'
    for k in ('PYTHONPATH', 'PYTHONSTARTUP', 'PYTHONINSPECT', 'PYTHONWARNINGS'):
        env.pop(k, None)
    os.execve(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path.insert(0, HERE)
from sim import runner       # noqa: E402

if __name__ == '__main__':
    sys.exit(runner.main(sys.argv[1:]))
