#!/usr/bin/env python3
"""Entry point of every check:  run_check.py <property> [--replay FILE] [--tier T] [--seed N]"""
import argparse
import os
import sys
import tempfile

PY = '/opt/venv/bin/python'
HERE = os.path.dirname(os.path.abspath(__file__))


def main():
    if os.environ.get('SIM_BOOTED') != '1':
        env = dict(os.environ, SIM_BOOTED='1', PYTHONUTF8='1', OMP_NUM_THREADS='1',
                   OPENBLAS_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1',
                   PYTHONPYCACHEPREFIX=os.path.join(tempfile.gettempdir(), 'nrwalsim-nocache'),
                   PYTHONHASHSEED=os.environ.get('SIM_HASHSEED', '0'))
        for k in ('PYTHONPATH', 'PYTHONSTARTUP', 'PYTHONHOME', 'PYTHONBREAKPOINT'):
            env.pop(k, None)
        py = PY if os.path.exists(PY) else sys.executable
        os.execve(py, [py, '-B', os.path.abspath(__file__)] + sys.argv[1:], env)
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--replay')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    a = ap.parse_args()
    sys.path.insert(0, HERE)
    from sim import boot, core
    boot.boot()
    import importlib
    prop = importlib.import_module('sim.props.' + a.property.lower())
    if hasattr(prop, 'prepare'):
        prop.prepare()
    if a.replay:
        return core.replay(prop, a.replay)
    return core.check(prop, a.seed, 'thorough' if a.tier == 'thorough' else 'quick')


if __name__ == '__main__':
    sys.exit(main())
