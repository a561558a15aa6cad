"""Every check on every behaviour-preserving edit: python3 selftest/run_refactors.py [--tests] [--checks C01,C02] prefix..."""
import concurrent.futures as cf
import os
import shutil
import sys

import run_mutants as rm
import refactors


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    props = [a.split('=')[1].split(',') for a in sys.argv if a.startswith('--checks=')]
    props = props[0] if props else ['C%02d' % i for i in range(1, 15)]
    todo = [x for x in refactors.R if not args or any(x[0].startswith(a) for a in args)]
    base = '/tmp/refactors.%d' % os.getpid()
    os.makedirs(base)
    try:
        dirs = {x[0]: rm.make(x, base) for x in todo}
        with cf.ThreadPoolExecutor(int(os.environ.get('JOBS', '8'))) as ex:
            bad = dict(zip(dirs, ex.map(rm.tests, dirs.values()))) if '--tests' in sys.argv else {}
        for name in dirs:
            if bad.get(name):
                print('%-18s TESTS-FAIL %s' % (name, bad[name][:2]), flush=True)
                continue
            out = []
            for p in props:
                rc, line = rm.check(dirs[name], p)
                if rc:
                    out.append('%s: %s' % (p, line[:200]))
            print('%-18s %s' % (name, 'ALARM ' + ' | '.join(out) if out else 'quiet'), flush=True)
    finally:
        shutil.rmtree(base)


if __name__ == '__main__':
    main()
