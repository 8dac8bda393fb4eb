#!/usr/bin/env python3
"""Entry point of all checks: ``check.py <PROPERTY> [--tier T] [--seed S]``"""
import os
import sys

PY = '/opt/venv/bin/python'
ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('QV_REPO', '/repo')
ENV = dict(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg',
           PYTHONPATH=REPO + '/src' + ':' + ROOT, OMP_NUM_THREADS='1',
           OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', QV_STAGE='1',
           PYTHONWARNINGS='ignore')

if os.environ.get('QV_STAGE') != '1':
    env = dict(os.environ)
    env.update(ENV)
    os.execve(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path.insert(0, ROOT)
import qnet  # noqa
assert os.path.abspath(qnet.__file__).startswith(
    os.path.abspath(REPO + '/src') + os.sep), qnet.__file__
from qv import runner  # noqa
from qv.props import REGISTRY  # noqa

prop = sys.argv[1]
sys.exit(runner.main(prop, REGISTRY[prop], sys.argv[2:]))
