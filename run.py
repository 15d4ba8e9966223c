#!/usr/bin/env python3
"""Entry point of every check:  run.py <PROPERTY> [--replay FILE] [--tier T]

Re-executes itself under the project's interpreter with a pinned environment
(so verdicts do not depend on who calls it), then runs checks/<property>.py
under vlib.core.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VENV = '/opt/venv/bin/python'
PIN = {
    'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1', 'MPLBACKEND': 'Agg',
    'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1',
    'NUMBA_DISABLE_JIT': '1', 'TZ': 'UTC', 'SEISMOVERIF': '1',
    'PYTHONNOUSERSITE': '1',
}


def main():
    if os.environ.get('SEISMOVERIF') != '1':
        env = dict(os.environ)
        env.update(PIN)
        for k in ('PYTHONPATH', 'PYTHONWARNINGS', 'MPLCONFIGDIR'):
            env.pop(k, None)
        exe = VENV if os.path.exists(VENV) else sys.executable
        os.execve(exe, [exe, os.path.join(HERE, 'run.py')] + sys.argv[1:], env)
    sys.path.insert(0, HERE)
    from vlib import core
    sys.exit(core.main(sys.argv[1:]))


if __name__ == '__main__':
    main()
