"""Deterministic scheduling of NRWAL code.

Steps are `sys.monitoring` LINE (or INSTRUCTION) events of NRWAL code objects and of the
formulas it evaluates.  Exactly one simulated thread is runnable at any time; at each step the
policy decides who runs next and whether an asynchronous exception is delivered.
"""
import _thread
import ast
import io
import random
import sys
import threading
import types

MON = sys.monitoring
TOOL = 4
EV = MON.events

_active = None          # the object whose .step(code, pos) is called
_codes = []             # NRWAL code objects with local events
_prefix = None
_level = EV.LINE


class SimAbort(BaseException):
    """Unwinds simulated threads when a run is given up (step budget, deadlock)."""


class Hang(Exception):
    """The step budget of a call was exceeded."""


def _cb(code, pos):
    a = _active
    if a is not None:
        a.step(code, pos)


def _start(code, off):
    if code.co_filename == '<string>' or code.co_filename.startswith(_prefix or '?'):
        _codes.append(code)
        MON.set_local_events(TOOL, code, _level)
    return MON.DISABLE


def _walk(code, out):
    if code in out:
        return
    out.add(code)
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            _walk(c, out)


def _gather(obj, seen, out):
    if id(obj) in seen:
        return
    seen.add(id(obj))
    if isinstance(obj, types.FunctionType):
        _walk(obj.__code__, out)
    elif isinstance(obj, (staticmethod, classmethod)):
        _gather(obj.__func__, seen, out)
    elif isinstance(obj, property):
        for f in (obj.fget, obj.fset, obj.fdel):
            if f is not None:
                _gather(f, seen, out)
    elif isinstance(obj, type):
        for v in list(vars(obj).values()):
            _gather(v, seen, out)
    elif hasattr(obj, '__wrapped__'):
        _gather(obj.__wrapped__, seen, out)


def install(prefix):
    """Register the step source for every NRWAL code object."""
    global _prefix
    _prefix = prefix
    MON.use_tool_id(TOOL, 'nrwal-sim')
    MON.register_callback(TOOL, EV.LINE, _cb)
    MON.register_callback(TOOL, EV.INSTRUCTION, _cb)
    MON.register_callback(TOOL, EV.PY_START, _start)
    out = set()
    for name, m in sorted(sys.modules.items()):
        if name == 'NRWAL' or name.startswith('NRWAL.'):
            seen = set()
            for v in list(vars(m).values()):
                if getattr(v, '__module__', None) == name or isinstance(v, property):
                    _gather(v, seen, out)
    for c in out:
        if c.co_filename.startswith(prefix):
            _codes.append(c)
            MON.set_local_events(TOOL, c, EV.LINE)
    MON.set_events(TOOL, EV.PY_START)
    return len(_codes)


def set_level(op):
    """LINE steps (op=False) or single-bytecode steps (op=True)."""
    global _level
    lvl = EV.INSTRUCTION if op else EV.LINE
    if lvl != _level:
        _level = lvl
        for c in _codes:
            MON.set_local_events(TOOL, c, lvl)


_shielded = {}          # file name -> lines where no asynchronous exception is delivered


def _lines(filename):
    """Header lines of `with` and `try`, and the bodies of `finally` and `except`.  CPython delivers an
    asynchronous exception after calls, at function entries and at the end of loops: not between the end
    of a block and its clean-up."""
    if filename not in _shielded:
        out = set()
        try:
            with no_steps(), io.open_code(filename) as f:
                tree = ast.parse(f.read())
        except (OSError, SyntaxError):
            tree = ast.Module([], [])
        for n in ast.walk(tree):
            if isinstance(n, ast.With):
                out.update(range(n.lineno, n.body[0].lineno))
            elif isinstance(n, ast.Try):
                out.update(range(n.lineno, n.body[0].lineno))
                for b in n.finalbody[:1]:
                    out.update(range(b.lineno, n.finalbody[-1].end_lineno + 1))
                for h in n.handlers:
                    out.update(range(h.lineno, h.end_lineno + 1))
        _shielded[filename] = out
    return _shielded[filename]


def interruptible(code, pos):
    if code.co_filename == '<string>':
        return True
    if _level == EV.INSTRUCTION:
        pos = next((ln for a, b, ln in code.co_lines() if a <= pos < b), None)
    return pos not in _lines(code.co_filename)


class Meter:
    """Steps of a call made on the main thread: count, budget, one asynchronous exception: at step
    `at`, or (negative) where the call reaches its -at-th distinct code location for the first time, so
    that rarely executed lines are hit as often as loops."""

    def __init__(self, budget=2_000_000, at=None, exc=None, sites=None):
        self.n = 0
        self.budget = budget
        self.at = at
        self.exc = exc
        self.fired = None
        self.hung = False
        self.sites = sites
        self._seen = set() if at is not None and at < 0 else None

    def step(self, code, pos):
        self.n += 1
        if self._seen is not None and self.fired is None and interruptible(code, pos):
            self._seen.add((code, pos))
            if len(self._seen) == -self.at:
                self.fired = '%s:%s' % (code.co_name, pos)
                raise self.exc('injected at location %d' % -self.at)
        if self.sites is not None:
            self.sites.add((code.co_name, pos))
        if self.at is not None and self.fired is None and self.n >= self.at > 0 \
                and interruptible(code, pos):
            self.fired = '%s:%s' % (code.co_name, pos)
            raise self.exc('injected at step %d' % self.n)
        if self.n > self.budget:
            self.hung = True
            raise SimAbort('step budget')

    def __enter__(self):
        global _active
        self._old = _active
        _active = self
        return self

    def __exit__(self, *a):
        global _active
        _active = self._old


class no_steps:
    """Suspend stepping (harness code calling into NRWAL for its own purposes)."""

    def __enter__(self):
        global _active
        self._old = _active
        _active = None

    def __exit__(self, *a):
        global _active
        _active = self._old


# ---------------------------------------------------------------- policies

class RandomPolicy:
    def __init__(self, seed, p):
        self.r = random.Random(seed)
        self.p = p

    def at_step(self, sim, cur, others):
        if others and self.r.random() < self.p:
            return self.r.choice(others)
        return cur

    def at_end(self, sim, others):
        return self.r.choice(others)


class PctPolicy:
    """Random priorities, lowered at a few random change points (PCT)."""

    def __init__(self, seed, nthreads, k, horizon):
        r = random.Random(seed)
        self.prio = list(range(1, nthreads + 1))
        r.shuffle(self.prio)
        self.changes = {r.randrange(1, max(2, horizon)) for _ in range(k)}
        self.low = 0

    def _best(self, cands):
        return max(cands, key=lambda t: self.prio[t])

    def at_step(self, sim, cur, others):
        if sim.steps in self.changes:
            self.low -= 1
            self.prio[cur] = self.low
        return self._best(others + [cur])

    def at_end(self, sim, others):
        return self._best(others)


class SitePolicy:
    """Preempts where chosen code locations are reached, and hardly elsewhere.

    A race needs the switch inside one particular window; choosing the location uniformly
    from all locations the calls visit gives rare lines the weight of frequent ones."""

    def __init__(self, seed, sites, p):
        self.r = random.Random(seed)
        self.sites = {tuple(x) for x in sites}
        self.p = p
        self.left = None

    def _other(self, others):
        # how long the other thread is let run: log-uniform, or to its end
        self.left = None if self.r.random() < 0.4 else int(2 ** self.r.uniform(0, 10))
        return self.r.choice(others)

    def at_step(self, sim, cur, others):
        if not others:
            return cur
        if sim.at in self.sites and self.r.random() < self.p:
            return self._other(others)
        if self.left is not None:
            self.left -= 1
            if self.left <= 0:
                return self._other(others)
        return cur

    def at_end(self, sim, others):
        return self.r.choice(others)


class ExplicitPolicy:
    def __init__(self, switches):
        self.sw = {int(s): int(t) for s, t in switches}

    def at_step(self, sim, cur, others):
        t = self.sw.get(sim.steps)
        return t if t is not None and t in others else cur

    def at_end(self, sim, others):
        t = self.sw.get(sim.steps)
        return t if t is not None and t in others else min(others)


def make_policy(spec, nthreads):
    kind = spec['kind']
    if kind == 'random':
        return RandomPolicy(spec['seed'], spec['p'])
    if kind == 'pct':
        return PctPolicy(spec['seed'], nthreads, spec['k'], spec['horizon'])
    if kind == 'site':
        return SitePolicy(spec['seed'], spec['sites'], spec['p'])
    if kind == 'explicit':
        return ExplicitPolicy(spec['switches'])
    raise ValueError(kind)


def gen_policy(rng, horizon, sites=True):
    if sites and rng.random() < 0.45:
        return {'kind': 'site', 'seed': rng.getrandbits(32), 'sites': 'auto',
                'n': rng.choice([1, 1, 1, 2, 3]), 'p': rng.choice([1.0, 0.7, 0.3])}
    if rng.random() < 0.6:
        return {'kind': 'random', 'seed': rng.getrandbits(32),
                'p': rng.choice([0.5, 0.2, 0.08, 0.03, 0.01, 0.003])}
    return {'kind': 'pct', 'seed': rng.getrandbits(32), 'k': rng.randint(1, 5),
            'horizon': horizon}


def fill_policy(spec, steps, sites):
    """Completes an 'auto' policy with what a run without preemption visited."""
    if spec.get('horizon') == 'auto':
        spec['horizon'] = max(20, steps)
    if spec.get('sites') == 'auto':
        r = random.Random(spec['seed'] + 1)
        names = sorted({x[0] for x in sites})
        spec['sites'] = []
        for _ in range(spec['n'] if sites else 0):
            c = sites
            if r.random() < 0.5:        # each function counts the same, however long it is
                n = r.choice(names)
                c = [x for x in sites if x[0] == n]
            spec['sites'].append(r.choice(c))


# ---------------------------------------------------------------- threads

class ThreadSim:
    """Runs bodies in real threads of which exactly one proceeds at a time."""

    def __init__(self, bodies, policy_spec, budget=400_000, interrupts=None):
        self.bodies = bodies
        self.n = len(bodies)
        self.policy = make_policy(policy_spec, self.n)
        self.budget = budget
        self.steps = 0
        self.cur = None
        self.runnable = set(range(self.n))
        self.gates = []
        self.done = _thread.allocate_lock()
        self.done.acquire()
        self.switches = []      # (step, thread) actually taken
        self.where = []         # (code name, pos, from, to): for interleaving signatures
        self.abort = None
        self.errors = {}
        self.idents = {}
        self.preemptions = 0
        self.at = None
        self.blocked = {}       # thread -> lock it waits for

    # called from the monitoring callback, on the current simulated thread
    def step(self, code, pos):
        me = self.idents.get(_thread.get_ident())
        if me is None:
            return
        if self.abort:
            raise SimAbort(self.abort)
        self.steps += 1
        if self.steps > self.budget:
            self.abort = 'budget'
            raise SimAbort('budget')
        others = sorted(self.runnable - {me} - set(self.blocked))
        self.at = (code.co_name, pos)
        nxt = self.policy.at_step(self, me, others)
        if nxt != me:
            self.preemptions += 1
            self.where.append((code.co_name, pos, me, nxt))
            self._switch(me, nxt)

    def _switch(self, me, nxt):
        self.switches.append((self.steps, nxt))
        self.cur = nxt
        self.gates[nxt].release()
        self.gates[me].acquire()
        if self.abort:
            raise SimAbort(self.abort)

    def yield_blocked(self, lock):
        """The running thread cannot take a lock: let another one run."""
        me = self.idents[_thread.get_ident()]
        self.steps += 1
        self.blocked[me] = lock
        others = sorted(self.runnable - set(self.blocked))
        if not others or self.steps > self.budget:
            self.abort = 'deadlock' if not others else 'budget'
            raise SimAbort(self.abort)
        nxt = self.policy.at_end(self, others)
        self._switch(me, nxt)

    def unblock(self, lock):
        """A lock was released: threads that wait for it may try again."""
        for t in [t for t, x in self.blocked.items() if x is lock]:
            del self.blocked[t]

    def in_sim(self):
        return _thread.get_ident() in self.idents

    def _main(self, i):
        self.gates[i].acquire()
        self.idents[_thread.get_ident()] = i
        try:
            if not self.abort:
                self.bodies[i]()
        except SimAbort:
            pass
        except BaseException as e:      # harness error inside a body
            self.errors[i] = e
        finally:
            self.idents.pop(_thread.get_ident(), None)
            self.runnable.discard(i)
            self.steps += 1
            if self.runnable:
                others = sorted(self.runnable - set(self.blocked))
                if not others:          # all wait for a lock this thread kept
                    self.abort = self.abort or 'deadlock'
                    others = sorted(self.runnable)
                nxt = self.policy.at_end(self, others)
                if nxt != others[0]:
                    self.switches.append((self.steps, nxt))
                self.cur = nxt
                self.gates[nxt].release()
            else:
                self.done.release()

    def run(self):
        global _active
        for i in range(self.n):
            g = _thread.allocate_lock()
            g.acquire()
            self.gates.append(g)
        for i in range(self.n):
            _thread.start_new_thread(self._main, (i,))
        old, _active = _active, self
        try:
            first = self.policy.at_end(self, list(range(self.n)))
            if first != 0:
                self.switches.append((0, first))
            self.cur = first
            self.gates[first].release()
            self.done.acquire()
        finally:
            _active = old
        return self


# ---------------------------------------------------------------- cooperative locks

_real_lock, _real_rlock = threading.Lock, threading.RLock


class _CoopLock:
    def __init__(self, real):
        self._l = real

    def acquire(self, blocking=True, timeout=-1):
        a = _active
        if isinstance(a, ThreadSim) and a.in_sim() and blocking:
            while not self._l.acquire(False):
                a.yield_blocked(self)
            return True
        if blocking and timeout in (-1, None) and len(threading._active) <= 1:
            # nobody else can release it
            if not self._l.acquire(False):
                raise SimAbort('deadlock: blocking acquire of a lock that is never released')
            return True
        return self._l.acquire(blocking, timeout) if blocking else self._l.acquire(False)

    def release(self):
        self._l.release()
        if isinstance(_active, ThreadSim):
            _active.unblock(self)

    def locked(self):
        return self._l.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def __getattr__(self, k):
        return getattr(self.__dict__['_l'], k)


def patch_locks():
    threading.Lock = lambda: _CoopLock(_real_lock())
    threading.RLock = lambda: _CoopLock(_real_rlock())
