#!/usr/bin/env python3
"""Entry point: run.py <property> [--tier T] [--replay FILE] [--cases N]

Runs the runtime-monitoring check of one property against the working tree of
/repo (RV_REPO overrides the location for experiments in scratch copies).
"""
import os
import sys

PY = '/opt/venv/bin/python'
if os.environ.get('RV_CHILD') != '1':
    env = dict(os.environ)
    env.update(RV_CHILD='1', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1',
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    for k in ('PYTHONPATH', 'PYTHONHOME'):
        env.pop(k, None)
    os.execve(PY, [PY, '-B'] + sys.argv, env)

sys.dont_write_bytecode = True
# Never read stale bytecode of the code under test.
sys.pycache_prefix = '/nonexistent-pycache'
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from rv import core  # noqa: E402

if '--selftest' in sys.argv:
    core.prepare_process()
    import glob
    import importlib
    for f in sorted(glob.glob(os.path.join(core.VERIF, 'rv/checks/c*.py'))):
        importlib.import_module('rv.checks.' + os.path.basename(f)[:-3])
    print('ok')
    sys.exit(0)
sys.exit(core.main(sys.argv[1:]))
