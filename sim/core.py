"""Runner: seeded runs in forked processes, minimisation, replay files, evidence."""
import collections
import errno
import hashlib
import json
import os
import pickle
import random
import resource
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback

from . import sched

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('NRWAL_REPO', '/repo')


class Violation(Exception):
    """The property under check is broken. `cls` is the violation class kept while shrinking."""

    def __init__(self, cls, msg):
        super().__init__('%s: %s' % (cls, msg))
        self.cls = cls
        self.msg = msg


class Ctx:
    """Per-run context: scratch directory, event log, counters."""

    def __init__(self, scratch):
        self.scratch = scratch
        self.log = []
        self.stats = collections.Counter()
        self.explicit = None        # scenario patch making the run explicit (thread switches)
        self.sig = None             # interleaving signature
        self.steps = 0

    def ev(self, *a):
        self.log.append(a)

    def hit(self, name, n=1):
        self.stats[name] += n


def digest(x):
    return hashlib.sha256(repr(x).encode()).hexdigest()[:16]


def subseed(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:8], 'big')


# ------------------------------------------------------------------ forked execution

def fork_call(fn, timeout, scratch_root):
    """Run fn(scratch) in a forked child; returns ('ok', value) or ('timeout'|'died', text)."""
    scratch = tempfile.mkdtemp(prefix='run-', dir=scratch_root)
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(rfd)
            os.setpgid(0, 0)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            dn = os.open(os.devnull, os.O_RDWR)
            os.dup2(dn, 0)
            if not os.environ.get('SIM_DEBUG'):
                os.dup2(dn, 1)
                os.dup2(dn, 2)
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
            os.chdir(scratch)
            try:
                val = ('ok', fn(scratch))
            except BaseException:
                val = ('error', traceback.format_exc()[-4000:])
            data = pickle.dumps(val)
            while data:
                n = os.write(wfd, data[:65536])
                data = data[n:]
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(wfd)
    buf = []
    end = time.monotonic() + timeout
    status = None
    try:
        while True:
            left = end - time.monotonic()
            if left <= 0:
                status = 'timeout'
                break
            r, _, _ = select.select([rfd], [], [], left)
            if not r:
                status = 'timeout'
                break
            chunk = os.read(rfd, 1 << 16)
            if not chunk:
                break
            buf.append(chunk)
    finally:
        os.close(rfd)
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(pid, 0)
        shutil.rmtree(scratch, ignore_errors=True)
    if status == 'timeout':
        return ('timeout', 'no answer within %.0f s' % timeout)
    try:
        return pickle.loads(b''.join(buf))
    except Exception:
        return ('died', 'child ended without a result')


def pure(fn):
    """Value of fn() computed in a forked copy of this process, which is thereby left untouched (no
    cache of NRWAL is warmed)."""
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rfd)
            try:
                val = ('ok', fn())
            except BaseException as e:
                fr = [f for f in traceback.extract_tb(e.__traceback__)
                      if f.filename.startswith(REPO + os.sep)]
                val = ('repo' if fr and isinstance(e, Exception) else 'error',
                       traceback.format_exc()[-3000:])
            with os.fdopen(wfd, 'wb') as f:
                pickle.dump(val, f)
        finally:
            os._exit(0)
    os.close(wfd)
    with os.fdopen(rfd, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    st, val = pickle.loads(data)
    if st == 'repo':
        # the kind of error is part of the class, so that shrinking cannot trade it for another
        kind = (val.strip().splitlines() or ['?'])[-1].split(':')[0]
        raise Violation('unexpected_error ' + kind, val[-600:])
    if st == 'error':
        raise RuntimeError(val)
    return val


def process_state():
    """Process-wide settings that library calls must leave alone."""
    import logging
    import warnings
    import numpy as np
    return {'numpy error handling': str(sorted(np.geterr().items())), 'working directory': os.getcwd(),
            'recursion limit': sys.getrecursionlimit(), 'module search path': tuple(sys.path),
            'environment': digest(sorted(os.environ.items())),
            'random state': digest(random.getstate()),
            'numpy random state': digest(str(np.random.get_state())),
            'warning filters': len(warnings.filters), 'log level': logging.getLogger().level,
            'print options': str(sorted((k, str(v)) for k, v in np.get_printoptions().items())),
            'logging disabled below': logging.root.manager.disable}


def run_child(prop, sc, scratch):
    """Body of a run, in the child. Returns a plain dict."""
    ctx = Ctx(scratch)
    res = {'status': 'ok', 'cls': None, 'msg': None}
    try:
        prop.execute(sc, ctx)
    except Violation as v:
        res.update(status='violation', cls=v.cls, msg=v.msg.replace(scratch, '$SCRATCH'))
    except sched.SimAbort as e:
        res.update(status='violation', cls='hang', msg='a call does not end: %s' % e)
    except Exception as e:
        # a call that has to succeed failed inside NRWAL; errors of the harness are re-raised
        fr = [f for f in traceback.extract_tb(e.__traceback__)
              if f.filename.startswith(REPO + os.sep)]
        if not fr:
            raise
        res.update(status='violation', cls='unexpected_error ' + type(e).__name__,
                   msg='%s: %s (in %s, line %d)' % (type(e).__name__, str(e)[:300].replace(
                       scratch, '$SCRATCH'), fr[-1].name, fr[-1].lineno))
    res['log'] = digest([' '.join(map(str, e)).replace(scratch, '$SCRATCH') for e in ctx.log])
    res['tail'] = [' '.join(str(x) for x in e)[:300].replace(scratch, '$SCRATCH')
                   for e in ctx.log[-40:]]
    res['stats'] = dict(ctx.stats)
    res['explicit'] = ctx.explicit
    res['sig'] = ctx.sig
    res['steps'] = ctx.steps
    return res


RUN_TIMEOUT = 60.0


def run_one(prop, sc, scratch_root, timeout=None):
    st, val = fork_call(lambda s: run_child(prop, sc, s), timeout or RUN_TIMEOUT, scratch_root)
    if st == 'ok':
        return val
    if st == 'timeout' and getattr(prop, 'TIMEOUT_IS_VIOLATION', True):
        return {'status': 'violation', 'cls': 'hang', 'msg': 'no end within %s s of wall time'
                % (timeout or RUN_TIMEOUT), 'log': 'timeout', 'tail': [], 'stats': {},
                'explicit': None, 'sig': None, 'steps': 0}
    return {'status': 'harness', 'cls': st, 'msg': val, 'log': '', 'tail': [], 'stats': {},
            'explicit': None, 'sig': None, 'steps': 0}


# ------------------------------------------------------------------ batches

def make_scenario(prop, seed, idx, tier, scratch_root):
    rng = random.Random(subseed(seed, prop.ID, idx))
    sc = prop.generate(rng, tier, idx)
    sc = json.loads(json.dumps(sc))
    if getattr(prop, 'PROFILE', None):
        # fault-free dry run in its own process: where can a fault land?
        st, prof = fork_call(lambda s: prop.PROFILE(sc, Ctx(s)), RUN_TIMEOUT, scratch_root)
        sc = prop.place(sc, prof if st == 'ok' else None,
                        random.Random(subseed(seed, prop.ID, idx, 'place')))
        sc = json.loads(json.dumps(sc))
    return sc


def worker(prop, seed, tier, indices, wfd, scratch_root, deadline, stopfd):
    out = os.fdopen(wfd, 'wb', buffering=0)
    for i in indices:
        if time.monotonic() > deadline:
            break
        try:
            sc = make_scenario(prop, seed, i, tier, scratch_root)
            r = run_one(prop, sc, scratch_root)
        except Exception:
            sc = None
            r = {'status': 'harness', 'cls': 'generator', 'msg': traceback.format_exc()[-3000:],
                 'log': '', 'tail': [], 'stats': {}, 'explicit': None, 'sig': None, 'steps': 0}
        r['i'] = i
        r['sc_hash'] = digest(sc)
        r['sample'] = sc if (i < 3 or r['status'] != 'ok') else None
        data = pickle.dumps(r)
        data = len(data).to_bytes(4, 'big') + data
        while data:
            n = os.write(wfd, data)
            data = data[n:]
        if r['status'] == 'violation':
            break
    os._exit(0)


def batch(prop, seed, tier, nruns, wall, workers=None, on_result=None):
    """Run indices 0..nruns-1 over forked workers; returns the list of results."""
    workers = workers or min(os.cpu_count() or 4, 8)
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
    scratch_root = tempfile.mkdtemp(prefix='nrwalsim-', dir=base)
    deadline = time.monotonic() + wall
    pids, fds, bufs = [], {}, {}
    results = []
    try:
        for w in range(workers):
            r, wf = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    os.setpgid(0, 0)
                    try:            # one core per worker: cheap hand-over between threads
                        cpus = sorted(os.sched_getaffinity(0))
                        os.sched_setaffinity(0, {cpus[w % len(cpus)]})
                    except OSError:
                        pass
                    worker(prop, seed, tier, range(w, nruns, workers), wf, scratch_root,
                           deadline, None)
                finally:
                    os._exit(1)
            os.close(wf)
            pids.append(pid)
            fds[r] = pid
            bufs[r] = b''
        found = None
        while fds:
            rr, _, _ = select.select(list(fds), [], [], 1.0)
            for r in rr:
                chunk = os.read(r, 1 << 16)
                if not chunk:
                    os.close(r)
                    del fds[r]
                    continue
                bufs[r] += chunk
                while len(bufs[r]) >= 4:
                    n = int.from_bytes(bufs[r][:4], 'big')
                    if len(bufs[r]) < 4 + n:
                        break
                    res = pickle.loads(bufs[r][4:4 + n])
                    bufs[r] = bufs[r][4 + n:]
                    results.append(res)
                    if on_result:
                        on_result(res)
                    if res['status'] == 'violation' and found is None:
                        found = time.monotonic()
            # after a violation give the other workers a moment, then stop
            if found is not None and time.monotonic() - found > 3:
                break
            if time.monotonic() > deadline + 2 * RUN_TIMEOUT + 10:
                break
    finally:
        for pid in pids:
            for k in (os.killpg, os.kill):
                try:
                    k(pid, signal.SIGKILL)
                except OSError:
                    pass
        for pid in pids:
            try:
                os.waitpid(pid, 0)
            except ChildProcessError:
                pass
        shutil.rmtree(scratch_root, ignore_errors=True)
    return results


# ------------------------------------------------------------------ minimisation

def _lists(sc, path=()):
    """Paths of all lists of the scenario that may be shortened (declared by the property)."""
    if isinstance(sc, dict):
        for k in sorted(sc):
            yield from _lists(sc[k], path + (k,))
    elif isinstance(sc, list):
        yield path
        for i, v in enumerate(sc):
            yield from _lists(v, path + (i,))


def _get(sc, path):
    for p in path:
        sc = sc[p]
    return sc


def _set(sc, path, val):
    sc = json.loads(json.dumps(sc))
    cur = sc
    for p in path[:-1]:
        cur = cur[p]
    if path:
        cur[path[-1]] = val
        return sc
    return val


def shrink(prop, sc, cls, scratch_root, budget_s=60, max_tries=600):
    """Greedy delta debugging over the lists the property declares shrinkable."""
    end = time.monotonic() + budget_s
    tries = 0

    def fails(cand):
        nonlocal tries
        tries += 1
        try:
            r = run_one(prop, cand, scratch_root, timeout=20)
        except Exception:
            return False
        return r['status'] == 'violation' and r['cls'] == cls

    changed = True
    while changed and time.monotonic() < end and tries < max_tries:
        changed = False
        for path in prop.shrinkable(sc):
            try:
                cur = _get(sc, path)
            except (KeyError, IndexError, TypeError):
                continue
            if isinstance(cur, dict):
                keys = list(cur)
                for k in keys:
                    if time.monotonic() > end or tries > max_tries:
                        break
                    cand = _set(sc, path, {a: b for a, b in cur.items() if a != k})
                    if fails(cand):
                        sc = cand
                        cur = _get(sc, path)
                        changed = True
                continue
            if not isinstance(cur, list) or not cur:
                continue
            size = max(1, len(cur) // 2)
            while size >= 1:
                i = 0
                while i < len(cur):
                    if time.monotonic() > end or tries > max_tries:
                        break
                    cand = _set(sc, path, cur[:i] + cur[i + size:])
                    if fails(cand):
                        sc = cand
                        cur = _get(sc, path)
                        changed = True
                    else:
                        i += size
                if size == 1 or time.monotonic() > end:
                    break
                size //= 2
    return sc, tries


def report_violation(prop, seed, tier, res):
    """Make explicit, minimise, store, re-run from the stored file. Returns the path."""
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
    scratch_root = tempfile.mkdtemp(prefix='nrwalsim-', dir=base)
    try:
        sc = res['sample']
        if res.get('explicit'):
            cand = dict(sc, **res['explicit'])
            r = run_one(prop, cand, scratch_root)
            if r['status'] == 'violation' and r['cls'] == res['cls']:
                sc = cand
        if res['cls'] != 'hang':
            sc, tries = shrink(prop, sc, res['cls'], scratch_root)
        else:
            tries = 0
        # two executions of the minimised scenario must agree
        rs = [run_one(prop, sc, scratch_root) for _ in range(2)]
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%d-%d.json' % (prop.ID, seed, res['i']))
        with open(path, 'w') as f:
            json.dump({'property': prop.ID, 'seed': seed, 'run': res['i'], 'tier': tier,
                       'class': rs[0]['cls'], 'message': rs[0]['msg'], 'tail': rs[0]['tail'],
                       'event_log': rs[0]['log'], 'shrink_tries': tries,
                       'replays_identically': rs[0]['log'] == rs[1]['log']
                       and rs[0]['status'] == rs[1]['status'],
                       'scenario': sc}, f, indent=1)
        return path, rs[0]
    finally:
        shutil.rmtree(scratch_root, ignore_errors=True)


# ------------------------------------------------------------------ check entry

def check(prop, seed, tier):
    t0 = time.monotonic()
    cfg = prop.TIERS[tier]
    nruns, wall = cfg['runs'], cfg['wall']
    if os.environ.get('SIM_RUNS'):
        nruns = int(os.environ['SIM_RUNS'])
    stats = collections.Counter()
    sigs, hashes, logs = set(), set(), set()
    samples, viol, bad = [], [], []
    steps = 0
    n_nontrivial = set()

    def on(r):
        nonlocal steps
        for k, v in r['stats'].items():
            stats[k] += v
        steps += r['steps']
        hashes.add(r['sc_hash'])
        if r['sig'] is not None:
            sigs.add(r['sig'])
        logs.add(r['log'])
        if r['stats'].get('nontrivial'):
            n_nontrivial.add((r['sc_hash'], r['log']))
        if r['status'] == 'violation':
            viol.append(r)
        elif r['status'] == 'harness':
            bad.append(r)
        elif r['sample'] is not None and len(samples) < 3:
            samples.append({'run': r['i'], 'scenario': r['sample'], 'events': r['tail'][-12:]})

    results = batch(prop, seed, tier, nruns, wall, on_result=on)
    extra = {}
    if not viol and hasattr(prop, 'extra_phase'):
        extra, ev = prop.extra_phase(seed, tier)
        if ev is not None:
            viol.append(ev)
    known = load_known(prop.ID)
    rc = 0
    lines = []
    viol.sort(key=lambda r: r['i'])
    reported = 0
    for k in known:
        lines.append('KNOWN-FINDING: property=%s %s' % (prop.ID, k['what']))
    if viol:
        r = viol[0]
        path, rr = report_violation(prop, seed, tier, r) if r.get('sample') is not None \
            else (r['path'], r)
        lines.append('violation class=%s seed=%d run=%d: %s' % (r['cls'], seed, r['i'], rr['msg']))
        lines.append('VIOLATION property=%s replay=%s' % (prop.ID, path))
        reported = 1
        rc = 1
    elif bad and len(bad) > 0:
        lines.append('HARNESS ERROR (%d of %d runs, first: run %d): %s\n%s'
                     % (len(bad), len(results), bad[0]['i'], bad[0]['cls'], bad[0]['msg']))
        rc = 2
    wall_s = time.monotonic() - t0
    cov = {
        'evaluations': len(results) + extra.get('evaluations', 0),
        'distinct_nontrivial': len(n_nontrivial) + extra.get('distinct_nontrivial', 0),
        'rule': prop.RULE,
        'samples': samples[:2] or [{'note': 'no passing run recorded'}],
        'planned_runs': nruns,
        'seeds_per_hour': int(len(results) / max(wall_s, 1e-6) * 3600),
        'simulated_steps': steps,
        'simulated_time': 'the code reads no clock; simulated time is counted in scheduler steps '
                          '(monitored lines or bytecodes of NRWAL code)',
        'distinct_event_logs': len(logs),
        'distinct_scenarios': len(hashes),
        'distinct_interleavings': len(sigs),
        'interleaving_measure': 'hash of the sequence (function, line or bytecode offset, '
                                'from-thread, to-thread) of all preemptions of a run',
        'faults_and_probes': {k: stats[k] for k in sorted(stats)},
        'real_components': ['NRWAL (all handlers)', 'PyYAML', 'json', 'numpy', 'pandas', 'CPython'],
        'stubbed_components': prop.STUBS,
        'harness_errors': len(bad),
    }
    cov.update({k: v for k, v in extra.items() if k not in cov})
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop.ID + '.json'), 'w') as f:
        json.dump({'property': prop.ID, 'tier': tier, 'seed': seed, 'level': 'exploration',
                   'coverage': cov, 'assumptions': prop.ASSUMPTIONS,
                   'wall_s': round(wall_s, 2), 'violations': reported}, f, indent=1, default=str)
    for ln in lines:
        print(ln)
    if rc == 0:
        print('OK property=%s runs=%d distinct=%d wall=%.1fs' % (
            prop.ID, len(results), len(n_nontrivial), wall_s))
    sys.stdout.flush()
    return rc


def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    try:
        with open(p) as f:
            return [k for k in json.load(f).get('findings', []) if k['property'] == pid]
    except FileNotFoundError:
        return []


def replay(prop, path):
    with open(path) as f:
        rec = json.load(f)
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
    scratch_root = tempfile.mkdtemp(prefix='nrwalsim-', dir=base)
    try:
        r = run_one(prop, rec['scenario'], scratch_root)
    finally:
        shutil.rmtree(scratch_root, ignore_errors=True)
    print(json.dumps({k: r[k] for k in ('status', 'cls', 'msg', 'log', 'tail')}, indent=1))
    if r['status'] == 'violation':
        print('same event log as recorded: %s' % (r['log'] == rec['event_log']))
        print('VIOLATION property=%s replay=%s' % (prop.ID, path))
        return 1
    return 0 if r['status'] == 'ok' else 2
