#!/usr/bin/env python3
"""Checks of hat-event by deterministic simulation.

    check.py check PROP            decide property (VERIF_SEED, VERIF_TIER)
    check.py replay FILE [-v]      execute replay file
    check.py run SCENARIO PROP N   execute single generated plan (debugging)
    check.py determinism [N]       execute N plans of each property twice
    check.py setup                 prepare and self test
"""

import os
import sys

PY = '/opt/venv/bin/python'

if (os.environ.get('PYTHONHASHSEED') is None or
        os.environ.get('VERIF_CHILD') != '1'):
    env = dict(os.environ, VERIF_CHILD='1', PYTHONDONTWRITEBYTECODE='1',
               LC_ALL='C.UTF-8', TZ='UTC')
    env.setdefault('PYTHONHASHSEED', '0')
    env.pop('PYTHONPATH', None)
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, os.path.abspath(__file__), *sys.argv[1:]], env)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from sim import main  # NOQA

sys.exit(main.main(sys.argv[1:]))
