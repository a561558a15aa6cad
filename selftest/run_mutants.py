"""Applies the mutants to scratch copies of /repo: python3 selftest/run_mutants.py [--tests] [--all] name-prefix...

--tests also runs the repository's tests on each copy; --all runs every check, not only the mutant's own."""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
PY = '/opt/venv/bin/python'


def make(mut, base):
    name, prop, edits = mut
    d = os.path.join(base, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for x in ('NRWAL', 'tests', 'README.rst', 'setup.py'):
        s = os.path.join('/repo', x)
        (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, os.path.join(d, x))
    for f, old, new in edits:
        p = os.path.join(d, f)
        t = open(p).read()
        if t.count(old) < 1:
            raise SystemExit('%s: text not found in %s: %r' % (name, f, old[:80]))
        open(p, 'w').write(t.replace(old, new))
    return d


def tests(d):
    out = os.path.join(d, 'junit.xml')
    env = dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    subprocess.run([PY, '-m', 'pytest', '-q', 'tests', '-p', 'no:cacheprovider', '--timeout=300', '-x',
                    '-o', 'junit_family=xunit2', '--junitxml=' + out], cwd=d, env=env, capture_output=True)
    import xml.etree.ElementTree as ET
    bad = []
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    for c in ET.parse(out).getroot().iter('testcase'):
        if c.find('failure') is not None or c.find('error') is not None:
            n = '%s::%s' % (c.get('classname'), c.get('name'))
            if n in stable:
                bad.append(n)
    return bad


def check(d, prop, seed='1'):
    env = dict(os.environ, NRWAL_REPO=d, VERIF_SEED=seed, VERIF_TIER='quick')
    r = subprocess.run(['python3', 'run_check.py', prop, '--tier', 'quick'], cwd=ROOT, env=env,
                       capture_output=True, text=True)
    line = [x for x in r.stdout.splitlines() if x.startswith(('VIOLATION', 'OK'))]
    return r.returncode, (line or [r.stdout[-300:] + r.stderr[-300:]])[0]


def main():
    import mutants
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    todo = [x for x in mutants.M if not args or any(x[0].startswith(a) for a in args)]
    base = '/tmp/mutants.%d' % os.getpid()
    os.makedirs(base)
    try:
        dirs = {x[0]: make(x, base) for x in todo}
        res = {}
        if '--tests' in sys.argv:
            with cf.ThreadPoolExecutor(int(os.environ.get("JOBS", "8"))) as ex:
                res = dict(zip([x[0] for x in todo], ex.map(lambda x: tests(dirs[x[0]]), todo)))
        for name, prop, _ in todo:
            t = res.get(name)
            if t:
                print('%-24s %s TESTS-FAIL %s' % (name, prop, t[:2]), flush=True)
                continue
            props = ['C%02d' % i for i in range(1, 15)] if '--all' in sys.argv else [prop]
            for p in props:
                rc, line = check(dirs[name], p)
                if p == prop or rc:
                    print('%-24s %s %s %s' % (name, p, {0: 'MISSED', 1: 'caught'}.get(rc, 'ERROR'), line[:150]),
                          flush=True)
    finally:
        shutil.rmtree(base)


if __name__ == '__main__':
    main()
