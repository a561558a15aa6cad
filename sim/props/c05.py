"""C05: default variables follow directory scope, and overrides do not persist."""
import copy
import os

import numpy as np

from .. import gen, match, model, obs, sched, world
from ..core import Violation

ID = 'C05'
TIERS = {'quick': {'runs': 1100, 'wall': 22}, 'thorough': {'runs': 50000, 'wall': 800}}
RULE = ('A run loads one or two directories (variables files at random levels) and performs 3-10 '
        'operations: default updates at any directory, group or equation, forced or not, evaluations '
        'with overrides (some failing or interrupted midway), reloads. After every operation all '
        'defaults and values are compared with the scope model. Non-trivial: at least one update or '
        'override took effect in a tree with two or more directories or groups.')
STUBS = ['disk: real files behind wrapped calls', 'interrupts raised from sys.monitoring callbacks']
ASSUMPTIONS = ['an update that is forced and later followed by an unforced one lets the variables file '
               'of the directory win again (documented behaviour of unforced updates)']


def paths(tr):
    """('::' path tuple, kind) of all objects of a tree."""
    out = {(): 'dir'}

    def walk(data, pre):
        for k, v in data.items():
            if isinstance(v, dict):
                out[pre + (k,)] = 'group'
                walk(v, pre + (k,))
            else:
                out[pre + (k,)] = 'eqn'
    for rel, data in tr.items():
        parts = rel.split('/')
        if any(p.startswith(('.', '__')) for p in parts) or not model.is_def(parts[-1]):
            continue
        parts[-1] = model.stem(parts[-1])
        for i in range(1, len(parts)):
            out[tuple(parts[:i])] = 'dir'
        if parts[-1] == 'variables':
            continue
        out[tuple(parts)] = 'group'
        walk(data, tuple(parts))
    return out


def generate(rng, tier, idx):
    tr = gen.tree(rng, maxdirs=3, maxfiles=2, var_p=0.6, vars_=gen.VARS[:8])
    ps = paths(tr)
    by = {k: sorted(p for p in ps if ps[p] == k) for k in ('dir', 'group', 'eqn')}
    ops = []
    nd = rng.choice([1, 1, 2])
    for _ in range(rng.randint(3, 10)):
        which = rng.randrange(nd)
        r = rng.random()
        if r < 0.5:
            k = rng.choice(['dir', 'dir', 'group', 'eqn'])
            if not by[k]:
                k = 'dir'
            vs = gen.varfile(rng, gen.VARS[:10]) if rng.random() < 0.92 else None
            if vs and rng.random() < 0.25:
                vs[rng.choice(sorted(vs))] = rng.choice([0, 0.0, -1.5, [2.0, 3.0], [4.0, 0.5]])
            ops.append({'op': 'set', 'd': which, 'path': rng.choice(by[k]), 'kind': k, 'vars': vs,
                        'force': k == 'dir' and rng.random() < 0.3})
        elif by['eqn']:
            p = rng.choice(by['eqn'])
            op = {'op': 'eval', 'd': which, 'path': p,
                  'over': {v: gen.value(rng, rng.choice([None, None, 2])) for v in
                           rng.sample(gen.VARS[:8], rng.randint(1, 4))}}
            if rng.random() < 0.25:
                op['at'] = rng.randint(1, 60) if rng.random() < 0.5 else -rng.randint(1, 50)
            if rng.random() < 0.2:
                op['over']['w'] = 'text'
            ops.append(op)
        if rng.random() < 0.1:
            ops.append({'op': 'reload', 'd': which})
    vf = [f for f in sorted(tr) if f.rsplit('/', 1)[-1].startswith('variables.')]
    if vf and rng.random() < 0.25:
        f = rng.choice(vf)
        tr[f][rng.choice(sorted(tr[f]))] = rng.choice([0, 0.0, -2.5])
    return {'tree': tr, 'nd': nd, 'ops': ops, 'outer': gen.varfile(rng, gen.VARS[:8], 3, 6)}


def arrays(d):
    return d if d is None else {k: np.array(v) if isinstance(v, list) else v for k, v in d.items()}


def get(o, path):
    for p in path:
        o = o[p]
    return o


def mget(m, path):
    for p in path:
        m = m.items[p]
    return m


def execute(sc, ctx):
    sim = world.make(ctx, sc['tree'])
    files = gen.files_of(sc['tree'])
    sim.shuffle = 1
    # a variables file above the loaded root is none of its business
    for ext in ('yaml', 'yml', 'json'):
        with open(os.path.join(ctx.scratch, 'variables.' + ext), 'wb') as f:
            f.write(gen.dump('variables.' + ext, sc.get('outer', {})))

    def load():
        with sim:
            return world.load('dir', sim.root), model.build_dir(files)
    try:
        pairs = [load() for _ in range(sc['nd'])]
    except (model.Unclear, model.Reject):
        return

    def verify(what):
        for i, (o, m) in enumerate(pairs):
            try:
                match.directory(o, m, 'dir%d' % i)
            except match.Mismatch as e:
                raise Violation('wrong_defaults', 'after %s: %s' % (what, e))
    verify('load')
    for j, op in enumerate(sc['ops']):
        o, m = pairs[op['d']]
        ctx.ev('op', j, op['op'], op.get('path'))
        if op['op'] == 'reload':
            pairs[op['d']] = load()
        elif op['op'] == 'set':
            try:
                ro, mo = get(o, op['path']), mget(m, op['path'])
            except KeyError:
                continue
            new = arrays(op['vars'])
            d = arrays(op['vars'])
            keep = copy.deepcopy(d)
            if op['kind'] == 'dir':
                if op['force']:
                    ro.set_default_variables(d, force_update=True)
                else:
                    ro.set_default_variables(d)
                mo.set_defaults(new or {}, op['force'])
            else:
                ro.set_default_variables(d)
                if op['vars'] is not None:
                    mo.set_defaults(new)
            if obs.norm(d) != obs.norm(keep):
                raise Violation('argument_changed', 'set_default_variables changed its argument: '
                                '%s -> %s' % (keep, d))
            if d is not None:            # later edits of the caller's dictionary have no effect
                for k in d:
                    if isinstance(d[k], np.ndarray):
                        d[k][:] = -999.0
                    d[k] = -999.0
            ctx.hit('set_%s%s' % (op['kind'], '_forced' if op['force'] else ''))
            if sum(1 for _ in m.items) > 1:
                ctx.hit('nontrivial')
        else:
            try:
                ro, mo = get(o, op['path']), mget(m, op['path'])
            except KeyError:
                continue
            over = {k: np.array(v) if isinstance(v, list) else v for k, v in op['over'].items()}
            keep = copy.deepcopy(over)
            meter = sched.Meter(at=op.get('at'), exc=KeyboardInterrupt)
            try:
                with meter:
                    got = ('ok', ro.eval(**over))
            except (Exception, KeyboardInterrupt) as e:
                got = ('exc', type(e).__name__)
            ctx.steps += meter.n
            if meter.fired:
                ctx.hit('interrupted_eval')
            if obs.norm(over) != obs.norm(keep):
                raise Violation('argument_changed', 'evaluation changed its arguments')
            if not meter.fired:
                try:
                    if any(isinstance(v, str) for v in over.values()):
                        raise ValueError('text')
                    env = {k: (v.astype(np.float32) if isinstance(v, np.ndarray) else v)
                           for k, v in over.items()}
                    want = ('ok', mo.value(env))
                except Exception as e:
                    want = ('exc', type(e).__name__)
                if got[0] != want[0] or (got[0] == 'ok' and not np.allclose(
                        got[1], want[1], rtol=1e-4, atol=1e-6, equal_nan=True)):
                    raise Violation('override_wrong', 'evaluation of %s with %s gave %s, expected '
                                    '%s' % (op['path'], op['over'], got, want))
                ctx.hit('eval_' + got[0])
                if any(k in mo.defaults for k in over) and got[0] == 'ok':
                    ctx.hit('override_of_default')
                    ctx.hit('nontrivial')
        verify('operation %d %s' % (j, {k: v for k, v in op.items()}))


def shrinkable(sc):
    return [('ops',), ('tree',)] + [('tree', f) for f in sorted(sc['tree'])]
