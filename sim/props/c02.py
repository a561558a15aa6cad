"""C02: failed loads leave no residue; a retry succeeds once faults stop."""
import copy
import os

from .. import core, fsim, gen, match, model, obs, sched, world
from ..core import Violation
from . import c01

ID = 'C02'
TIERS = {'quick': {'runs': 900, 'wall': 22}, 'thorough': {'runs': 40000, 'wall': 800}}
RULE = ('A run preloads one object, then attempts a load one to three times under disk errors, damaged '
        'or vanished files, an exception delivered at an arbitrary line or bytecode step, or bad '
        'arguments; after every attempt residue is checked, then the faults stop and the load is '
        'retried. Non-trivial: at least one attempt failed.')
STUBS = ['disk: real files behind wrapped open/read/listdir/scandir/stat/lstat with injected errors',
         'asynchronous exceptions: raised from sys.monitoring callbacks at a chosen step']
ASSUMPTIONS = ['step bound of the retry: 3 times the steps of the fault-free load + 5000',
               'a file whose handle an interrupt cut off may be closed by the garbage collector']

KINDS = ['dir', 'dir', 'group', 'vars', 'config', 'config', 'gdict', 'cdict', 'cdict', 'gadd', 'dadd']


def generate(rng, tier, idx):
    kind = rng.choice(KINDS)
    sc = {'kind': kind, 'op': rng.random() < 0.2, 'chunk': rng.choice([0, 0, 0, 7, 64]),
          'shuffle': rng.choice([None, idx]), 'rel': rng.random() < 0.4}
    if kind in ('config', 'cdict'):
        lib = gen.config_tree(rng, 2)
        tr, path = c01.config_files(rng, lib, {'nmax': 4})
        sc['path'] = path
        if kind == 'cdict':
            e = gen.valid_config(rng, lib, nmax=4)
            tr = {k: v for k, v in tr.items() if k.startswith('lib/')}
            sc['entries'] = dict({'equation_directory': '$ROOT/lib'}, **e)
            if rng.random() < 0.5:
                sc['entries'][rng.choice(model.FLAGS)] = rng.random() < 0.5
            sc['inputs'] = {v: gen.value(rng, rng.choice([None, 2])) for v in
                            rng.sample(gen.INP, 2)}
    elif kind in ('dir', 'dadd'):
        tr = gen.tree(rng, maxdirs=2, maxfiles=2)
        sc['path'] = '.'
        if kind == 'dadd':
            tr = {'b/' + k: v for k, v in tr.items()}
            tr.update({'a/' + k: v for k, v in gen.tree(rng, 1, 1, depth=1).items()})
            sc['path'] = 'b'
    elif kind in ('group', 'gadd'):
        sc['path'] = 'turbine' + rng.choice(gen.EXTS)
        tr = {sc['path']: gen.group(rng, gen.VARS)}
        if kind == 'gadd':
            tr['left.yaml'] = gen.group(rng, gen.VARS)
    elif kind == 'vars':
        sc['path'] = 'variables' + rng.choice(gen.EXTS)
        tr = {sc['path']: gen.varfile(rng, gen.VARS, 1, 4)}
    else:
        tr = {}
        sc['entries'] = gen.group(rng, gen.VARS)
        sc['path'] = ''
    tr['pre/other.yaml'] = gen.group(rng, gen.VARS)
    tr['pre/variables.yaml'] = gen.varfile(rng, gen.VARS)
    sc['tree'] = tr
    sc['attempts'] = []
    for _ in range(rng.randint(1, 3)):
        m = rng.choice(['io', 'io', 'int', 'int', 'damage', 'args'])
        if m == 'io' and kind == 'gdict':
            m = 'int'
        if m == 'args' and kind not in ('gdict', 'cdict', 'config'):
            m = 'damage' if kind != 'gdict' else 'int'
        if m == 'damage' and kind in ('gdict', 'cdict'):
            m = 'args'
        a = {'mode': m}
        if m == 'damage':
            c = [f for f in sorted(tr) if not f.startswith(('pre/', 'a/', 'left')) and
                 not tr[f].get('equation_directory')]
            if not c:
                a['mode'] = 'int'
            else:
                f = rng.choice(c)
                a['damage'] = [f, None if rng.random() < 0.25 else
                               gen.raw(gen.corrupt(rng, gen.dump(f, tr[f]))[1])]
        if m == 'args':
            a['bad'] = rng.choice(['list', 'none', 'num', 'cycle', 'inputs'])
        if idx % 11 == 4 and m != 'int':
            a['times'] = 40             # a long outage
        sc['attempts'].append(a)
    return sc


# ---------------------------------------------------------------- one load

def arguments(sc, sim, bad=None):
    """The (positional, keyword) arguments of the load; fresh objects."""
    k = sc['kind']
    path = sim.root + '/' + sc['path']
    if sc['rel']:
        path = os.path.relpath(path)
    if k in ('dir', 'group', 'vars'):
        return [path], {}
    if k == 'config':
        kw = {}
        if bad:
            kw['inputs'] = {'p_in': 2, 'q_in': 'text'} if bad != 'none' else {3: 2.0}
        return [path], kw
    if k == 'gdict':
        d = copy.deepcopy(sc['entries'])
        if bad == 'list':
            d['zz_last'] = ['x', 1]
        elif bad == 'none':
            d['zz_last'] = None
        elif bad == 'num':
            d['7'] = 'x * 2'
        elif bad:
            d['zz_a'] = 'zz_b * 2'
            d['zz_b'] = 'zz_a + 1'
        return [d], {}
    if k == 'cdict':
        d = world.subst_root(copy.deepcopy(sc['entries']),
                             os.path.relpath(sim.root) if sc['rel'] else sim.root)
        inp = copy.deepcopy(sc['inputs'])
        import numpy as np
        inp = {a: np.array(b) if isinstance(b, list) else b for a, b in inp.items()}
        if bad == 'list':
            d['zz_last'] = [1, 2]
        elif bad == 'none':
            d['zz_last'] = {'a': 1}
        elif bad == 'num':
            d['7'] = 'p_in * 2'
        elif bad == 'cycle':
            d['zz_a'] = 'zz_b * 2'
            d['zz_b'] = 'zz_a + 1'
        elif bad == 'inputs':
            inp['zz_text'] = 'text'
        return [d], {'inputs': inp}
    return [path], {}


def run_load(sc, sim, args, kw, left):
    k = sc['kind']
    if k in ('gadd', 'dadd'):
        return left + args[0]
    return world.load({'gdict': 'group', 'cdict': 'config'}.get(k, k), *args, **kw)


def setup(sc, ctx):
    sim = world.make(ctx, sc['tree'])
    sim.chunk, sim.shuffle = sc['chunk'], sc['shuffle']
    pre = world.load('dir', sim.root + '/pre')
    left = None
    if sc['kind'] == 'gadd':
        left = world.load('group', sim.root + '/left.yaml')
    if sc['kind'] == 'dadd':
        left = world.load('dir', sim.root + '/a')
    return sim, pre, left


def snap(pre, left):
    return obs.any_obj(pre), None if left is None else obs.any_obj(left)


def argsnap(args, kw):
    return repr(args) + repr([(k, type(v).__name__, repr(v)) for k, v in sorted(kw.items())])


def look(o, sim):
    return core.digest(repr(obs.any_obj(o)).replace(sim.root, '$R'))


def ident(sc):
    return core.digest([sorted((k, repr(v)) for k, v in sc['tree'].items()), sc.get('entries'),
                        sc.get('inputs')])


def PROFILE(sc, ctx):
    sim, pre, left = setup(sc, ctx)
    sched.set_level(sc['op'])
    m = sched.Meter(world.BUDGET * 4)
    args, kw = arguments(sc, sim)
    with sim, m:
        o = run_load(sc, sim, args, kw, left)
    return {'io': sim.n, 'steps': m.n, 'look': look(o, sim), 'of': ident(sc)}


def place(sc, prof, rng):
    if not prof:
        prof = {'io': 10, 'steps': 1000, 'look': None, 'of': None}
    sc['ref'] = prof
    for a in sc['attempts']:
        if a['mode'] == 'io':
            a['faults'] = [{'at': rng.randint(1, max(1, prof['io'])),
                            'errno': rng.choice(fsim.ERRNOS), 'span': rng.choice([1, 1, 3])}]
        elif a['mode'] == 'int':
            a['at'] = rng.randint(1, max(1, prof['steps'])) if rng.random() < 0.6 else -rng.randint(1, 150)
            a['exc'] = rng.choice(['KeyboardInterrupt', 'KeyboardInterrupt', 'MemoryError'])
    return sc


EXC = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError}


def execute(sc, ctx):
    sim, pre, left = setup(sc, ctx)
    sched.set_level(sc['op'])
    base = snap(pre, left)
    for j, a in enumerate(sc['attempts']):
        args, kw = arguments(sc, sim, a.get('bad') if a['mode'] == 'args' else None)
        before = argsnap(args, kw)
        if a.get('damage'):
            f, d = a['damage']
            sim.put(f, world.content(sim, f, d))
        m = sched.Meter(world.BUDGET * 4, at=a.get('at'), exc=EXC.get(a.get('exc')))
        result, failed = None, None
        strict = None
        state = core.process_state()
        try:
            with sim, m:
                for _ in range(a.get('times', 1)):
                    sim.faults = [dict(f, at=f['at'] + sim.n) for f in a.get('faults', [])]
                    try:
                        result = run_load(sc, sim, args, kw, left)
                    except (Exception, KeyboardInterrupt) as e:
                        failed = type(e).__name__
                        if not m.fired:
                            strict = sim.open_files(collect=False)
        except sched.SimAbort:
            raise Violation('hang', 'load does not end')
        ctx.steps += m.n
        ctx.ev('attempt', j, a['mode'], failed, m.fired)
        if m.fired:
            ctx.hit('interrupt_' + a['exc'])
        if failed:
            ctx.hit('attempt_failed_' + a['mode'])
            ctx.hit('nontrivial')
        del result
        sim.faults = []
        if strict:
            raise Violation('open_file', 'failed load (%s) leaves %s open' % (failed, strict))
        left_open = sim.open_files()
        if left_open:
            raise Violation('open_file', 'after the load (%s) %s are still open'
                            % (failed, left_open))
        now = core.process_state()
        if now != state:
            raise Violation('process_state', 'a load that ended with %s changed %s' % (
                failed, [k for k in state if state[k] != now[k]]))
        if argsnap(args, kw) != before:
            raise Violation('argument_changed', 'arguments changed by a load that ended with %s: '
                            '%s -> %s' % (failed, before[:300], argsnap(args, kw)[:300]))
        now = snap(pre, left)
        if now != base:
            raise Violation('earlier_object_changed', 'a load that ended with %s changed an object '
                            'loaded before: %s' % (failed, obs.diff(base, now)))
        if a.get('damage'):
            f = a['damage'][0]
            sim.put(f, world.content(sim, f, sc['tree'][f]))
    # faults have stopped
    args, kw = arguments(sc, sim)
    before = argsnap(args, kw)
    valid_ref = sc['ref']['of'] == ident(sc)      # not while minimising
    limit = 3 * sc['ref']['steps'] + 5000 if valid_ref else world.BUDGET * 4
    m = sched.Meter(limit)
    try:
        with sim, m:
            o = run_load(sc, sim, args, kw, left)
    except sched.SimAbort:
        raise Violation('retry_unbounded', 'retry needs more than %d steps' % limit)
    except Exception as e:
        raise Violation('retry_failed', 'load after the faults stopped failed: %s: %s'
                        % (type(e).__name__, str(e)[:300]))
    ctx.steps += m.n
    if argsnap(args, kw) != before:
        raise Violation('argument_changed', 'retry changed its arguments')
    if sim.open_files():
        raise Violation('open_file', 'retry leaves %s open' % sim.open_files())
    got = look(o, sim)
    ctx.ev('retry', got)
    if valid_ref and got != sc['ref']['look']:
        raise Violation('retry_differs', 'object loaded after the faults differs from one loaded '
                        'without faults: %s' % explain(sc, o, sim, left))
    explain(sc, o, sim, left, strict=True)
    if snap(pre, left) != base:
        raise Violation('earlier_object_changed', 'retry changed an object loaded before')


def explain(sc, o, sim, left, strict=False):
    """Compare with the model; message, or Violation when strict."""
    files = {r: v[-1][1] for r, v in sim.timeline.items() if v[-1][1] is not None}
    k = sc['kind']
    try:
        if k in ('dir', 'group', 'vars', 'config'):
            m = world.meaning({'kind': k, 'path': sc['path']}, {
                f: b for f, b in files.items() if k == 'config' or True}, sim.root)
            world.check_target(o, m, k)
        elif k == 'gdict':
            match.obj(o, model.build_group(sc['entries']), 'group')
        elif k == 'cdict':
            md = model.build_dir({f[4:]: b for f, b in files.items() if f.startswith('lib/')})
            e = {a: b for a, b in sc['entries'].items()
                 if a != 'equation_directory' and a not in model.FLAGS}
            world.check_config(o, model.MConfig(e, md))
    except model.Unclear:
        return 'unclear'
    except match.Mismatch as e:
        if strict:
            raise Violation('retry_wrong', str(e))
        return str(e)
    return 'matches the model'


def shrinkable(sc):
    return [('attempts',), ('tree',)] + [('tree', f) for f in sorted(sc['tree'])
                                         if '__raw__' not in sc['tree'][f]]
