#!/usr/bin/env python3
"""setup_cmd: nothing has to be compiled; checks that the interpreter and the simulator are usable."""
import os
import subprocess
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in ('evidence', 'replays'):
    os.makedirs(os.path.join(here, d), exist_ok=True)
py = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
code = ('import sys; sys.path.insert(0, %r)\nimport sympy, mpmath\n'
        'from sim import runner, btree, files, kin, numeric, assign, gen, latexnum, eqsys\nprint("ok")' % here)
env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', VERIF_CHILD='1')
sys.exit(subprocess.call([py, '-c', code], env=env, cwd=here))
