"""C08: derived objects are exact and independent of their operands."""
import copy
import os

import numpy as np

from .. import core, gen, match, model, obs, queries, sched, world
from ..core import Violation
from . import c05

ID = 'C08'
TIERS = {'quick': {'runs': 1200, 'wall': 24}, 'thorough': {'runs': 60000, 'wall': 800}}
RULE = ('A run keeps a pool of objects (directories, groups and equations loaded from one or two trees, '
        'and everything derived from them) next to their reference models and performs 4-12 '
        'operations: arithmetic, replaced formulas, merges of groups and directories (objects, paths, '
        'dictionaries), default updates, and derivations interrupted at a seeded step. After every '
        'operation every object of the pool is compared with its model. Non-trivial: an object was '
        'compared after its operand or result had been updated or derived from.')
STUBS = ['disk: real files behind wrapped calls', 'interrupts raised from sys.monitoring callbacks']
ASSUMPTIONS = ['the defaults of the right operand of a merge apply to the whole result, as an unforced '
               'default update does']

V = gen.VARS[:9]


def generate(rng, tier, idx):
    trees = [gen.tree(rng, maxdirs=2, maxfiles=2, var_p=0.4, vars_=V, depth=1, junk=False)
             for _ in range(rng.choice([1, 2, 2]))]
    if len(trees) == 2 and rng.random() < 0.5:       # make the keys clash
        for rel in list(trees[0]):
            if rng.random() < 0.5:
                trees[1][rel] = gen.varfile(rng, V) if 'variables' in rel else gen.group(rng, V)
    flags = {}
    if rng.random() < 0.35:             # look-ups by size and year in merged objects
        flags = {f: True for f in model.FLAGS if rng.random() < 0.6}
        for t in trees:
            family(rng, t)
    ps = [c05.paths(t) for t in trees]
    objs = []                   # pool: (kind) ; description mirrors execute
    ops = []
    for i, t in enumerate(trees):
        ops.append({'op': 'load', 't': i, 'id': len(objs)})
        objs.append('dir')
    allp = [[p for p in sorted(q) if p] for q in ps]

    def pick_op(src, t):
        by = [[p for p in allp[t] if ps[t][p] == k] for k in ('eqn', 'group', 'dir')]
        p = rng.choice(rng.choice([b for b in by[:2] + by[:1] + by if b]))
        ops.append({'op': 'pick', 'src': src, 'path': list(p), 'id': len(objs)})
        objs.append(ps[t][p])
    for t in range(len(trees)):
        for _ in range(rng.randint(1, 3)):
            if allp[t]:
                pick_op(t, t)

    def pick(kind):
        c = [i for i, k in enumerate(objs) if k == kind]
        return rng.choice(c) if c else None
    if rng.random() < 0.3:          # objects without files, some of them empty
        for _ in range(rng.randint(1, 2)):
            ops.append({'op': 'mk', 'data': {} if rng.random() < 0.6 else gen.group(rng, V),
                        'id': len(objs)})
            objs.append('group')
    if rng.random() < 0.15:
        ops.append({'op': 'mkdir', 'id': len(objs)})
        objs.append('dir')
    for _ in range(rng.randint(4, 12)):
        r = rng.random()
        if r < 0.04:
            a = pick('eqn')
            if a is not None:       # a negative number as the left operand
                ops.append({'op': 'repl', 'a': a, 'new': rng.choice(['-3', '-2.5', '-4']), 'id': len(objs)})
                objs.append('eqn')
                ops.append({'op': 'comb', 'kind': 'eqn', 'a': len(objs) - 1, 'id': len(objs),
                            'fn': rng.choice(['**', '**', '-', '*', '/']), 'b': {'lit': 2}})
                objs.append('eqn')
        elif r < 0.25:
            t = rng.randrange(len(trees))
            if not allp[t]:
                continue
            pick_op(rng.choice([i for i, kk in enumerate(objs) if kk == 'dir']), t)
        elif r < 0.5:
            k = rng.choice(['eqn', 'eqn', 'group', 'dir'])
            a = pick(k)
            if a is None:
                continue
            b = pick(k)
            op = {'op': 'comb', 'kind': k, 'a': a, 'b': b}
            if k == 'eqn':
                op['fn'] = rng.choice(['+', '-', '*', '/', '**'])
                if op['fn'] == '**':
                    op['b'] = {'lit': rng.choice([2, '2', 3, 1])}
                elif rng.random() < 0.3:
                    op['b'] = {'lit': rng.choice([2, 1.5, '7', 'x * 3 + w', 'span', '-4', '1e-3', 1,
                                                '1'] + [0, 0.0, '0'] * (op['fn'] != '/'))}
            elif k == 'group' and rng.random() < 0.3:
                op['b'] = {'dict': gen.group(rng, V) if rng.random() < 0.8 else {}}
                if flags and op['b']['dict']:
                    op['b']['dict']['set_2'] = dict(gen.group(rng, V, subs=False), **FAMILY)
            elif k == 'group' and rng.random() < 0.2:
                t = rng.randrange(len(trees))
                fs = [f for f in sorted(trees[t]) if 'variables' not in f]
                if fs:
                    op['b'] = {'file': [t, rng.choice(fs)]}
            elif k == 'dir' and rng.random() < 0.3:
                op['b'] = {'tree': rng.randrange(len(trees))}
            if rng.random() < 0.2:
                op['at'] = rng.choice([rng.randint(1, 20), rng.randint(1, 300), -rng.randint(1, 40)])
            ops.append(dict(op, id=len(objs)))
            objs.append(k if 'at' not in op else '-')
        elif r < 0.62:
            a = pick('eqn')
            if a is None:
                continue
            op = {'op': 'repl', 'a': a, 'new': rng.choice(['x * 2 + w', '7', 'depth - area_m / 4',
                                                           'span + np.maximum(x, 2)'])}
            if rng.random() < 0.15:
                op['at'] = rng.choice([1, -1]) * rng.randint(1, 25)
            ops.append(dict(op, id=len(objs)))
            objs.append('eqn' if 'at' not in op else '-')
        elif r < 0.97:
            a = rng.randrange(len(objs))
            d = gen.varfile(rng, V)
            if rng.random() < 0.12:
                d[rng.choice(V)] = [float(rng.randint(1, 9)) for _ in range(2)]
            ops.append({'op': 'set', 'a': a, 'vars': d, 'force': rng.random() < 0.2})
    return {'trees': trees, 'ops': ops, 'flags': flags}


FAMILY = {'install_3MW': 'x + 2', 'install_6MW': 'x * 3 + w', 'capex_2015': 'w * 2', 'capex_2020': 11}
NEAR = ['install_4MW', 'install_9MW', 'capex_2017', 'capex_2030']


def family(rng, tr):
    for f in sorted(tr):
        if 'variables' not in f and rng.random() < 0.7:
            fam = {k: v for k, v in FAMILY.items() if rng.random() < 0.9}
            tr[f] = dict(tr[f], **({rng.choice(gen.SUBS): fam} if rng.random() < 0.6 else fam))


def near(o, pre=()):
    """Answers of look-ups by size and year in the parts of a group or directory."""
    out = {}
    for k, v in o.items():
        if not hasattr(v, 'full') and hasattr(v, 'all_equations') and not hasattr(v, 'var_dict'):
            if type(v).__name__ == 'EquationGroup':
                for n in NEAR:
                    r = obs.call(v.__getitem__, n)
                    out[pre + (k, n)] = (r[0], obs.call(r[1].eval, **obs.env_of(r[1].variables))) \
                        if r[0] == 'ok' else r[:2]
            out.update(near(v, pre + (k,)))
    return out


def printed(o, m, where, Equation):
    """A named formula prints like a new one with the same text and defaults."""
    if m.kind == 'eqn':
        if m.name is not None:
            want = str(Equation(o.full, name=m.name, default_variables=dict(o.default_variables)))
            if str(o) != want:
                raise Violation('wrong_content', '%s is printed as %s, expected %s' % (where, o, want))
    elif m.kind in ('group', 'dir'):
        for k, v in m.items.items():
            printed(o[k], v, '%s::%s' % (where, k), Equation)


def arr(d):
    return {k: np.array(v) if isinstance(v, list) else v for k, v in d.items()}


def execute(sc, ctx):
    sims = [world.make(ctx, t, 'disk%d' % i) for i, t in enumerate(sc['trees'])]
    files = [gen.files_of(t) for t in sc['trees']]
    pool = {}                       # id -> (real, model)
    Equation = world.api()[4]
    flags = sc.get('flags', {})
    derived = False

    def verify(what):
        for i, e in pool.items():
            try:
                match.obj(e[0], e[1], 'object %d' % i)
            except match.Mismatch as x:
                raise Violation('wrong_content', 'after %s: %s' % (what, x))
            printed(e[0], e[1], 'after %s: object %d' % (what, i), Equation)

    for j, op in enumerate(sc['ops']):
        ctx.ev('op', j, op['op'], len(pool))
        k = op['op']
        if k == 'load':
            try:
                with sims[op['t']] as s:
                    pool[op['id']] = (world.load('dir', s.root, **flags),
                                      model.build_dir(files[op['t']]))
            except (model.Unclear, model.Reject):
                return
            verify('load')
            continue
        if k == 'mk':
            try:
                pool[op['id']] = (world.api()[2](copy.deepcopy(op['data']), **flags),
                                  model.build_group(op['data']))
            except (model.Unclear, model.Reject):
                pass
            continue
        if k == 'mkdir':
            d = os.path.join(ctx.scratch, 'empty%d' % j)
            os.makedirs(d)
            pool[op['id']] = (world.load('dir', d, **flags), model.build_dir({}))
            continue
        src = pool.get(op.get('src'))
        a = pool.get(op.get('a'))
        if k == 'pick':
            try:
                o, m = src
                for p in op['path']:
                    o, m = o[p], m.items[p]
                pool[op['id']] = (o, m)
            except (KeyError, TypeError):
                pass
            continue
        if a is None:
            continue
        if k == 'set':
            d = arr(op['vars'])
            if a[1].kind == 'vars' or not hasattr(a[0], 'set_default_variables'):
                continue
            if a[1].kind == 'dir' and op['force']:
                a[0].set_default_variables(d, force_update=True)
                a[1].set_defaults(arr(op['vars']), True)
            else:
                a[0].set_default_variables(d)
                a[1].set_defaults(arr(op['vars']))
            if obs.norm(d) != obs.norm(arr(op['vars'])):
                raise Violation('argument_changed', 'set_default_variables changed its argument')
            for x in d:                 # later edits of the caller's data have no effect
                if isinstance(d[x], np.ndarray):
                    d[x] *= 0
                d[x] = -1.0
            ctx.hit('set_' + a[1].kind)
            if derived:
                ctx.hit('nontrivial')
            verify('update %s of object %d' % (op['vars'], op['a']))
            continue
        meter = sched.Meter(at=op.get('at'), exc=KeyboardInterrupt)
        spec = None
        texts = [(a[0], str(a[0]))]
        try:
            if k == 'repl':
                if a[1].kind != 'eqn':
                    continue
                want = model.MEqn(model.parse_formula(op['new']), a[1].name, copy.deepcopy(
                    a[1].defaults))
                with meter:
                    out = a[0].replace_equation(op['new'])
            else:
                b = op['b']
                if isinstance(b, dict):
                    spec = copy.deepcopy(b)
                    if 'lit' in b:
                        rb, mb = b['lit'], model.MEqn(model.parse_formula(b['lit']))
                    elif 'dict' in b:
                        rb, mb = b['dict'], model.build_group(b['dict'])
                    elif 'file' in b:
                        t, f = b['file']
                        rb = sims[t].root + '/' + f
                        mb = model.build_group(model.load_bytes(files[t][f], f), f)
                    else:
                        rb = sims[b['tree']].root
                        mb = model.build_dir(files[b['tree']])
                else:
                    e = pool.get(b)
                    if e is None:
                            continue
                    rb, mb = e
                if a[1].kind != mb.kind:
                    continue
                if hasattr(rb, 'full') or hasattr(rb, 'all_equations'):
                    texts = [(o, str(o)) for o in (a[0], rb)]
                if a[1].kind == 'eqn':
                    want = a[1].binop(mb, op['fn'])
                    with meter:
                        out = queries.OPS[op['fn']](a[0], rb)
                else:
                    want = a[1].merge(mb)
                    with meter:
                        out = a[0] + rb
                if spec is not None and spec != b:
                    raise Violation('argument_changed', 'the dictionary %s was changed to %s'
                                    % (spec, b))
        except KeyboardInterrupt:
            ctx.hit('interrupted_derivation')
            ctx.hit('nontrivial')
            verify('interrupted ' + k)
            continue
        except (model.Unclear, model.Reject, KeyError):
            continue
        ctx.steps += meter.n
        if op.get('at') and not meter.fired:
            ctx.hit('interrupt_missed')
        derived = True
        for o, text in texts:
            if str(o) != text:
                raise Violation('wrong_content', 'operation %d %s changed the printed form of its operand: '
                                '%s -> %s' % (j, op, text[:200], str(o)[:200]))
        if out is a[0] or (k == 'comb' and out is rb):
            raise Violation('not_new', 'operation %d %s returned its operand' % (j, op))
        if flags and k == 'comb' and a[1].kind != 'eqn':
            # parts taken from the right operand look up what they did there
            right = rb
            if 'dict' in (spec or {}):
                right = type(a[0])(copy.deepcopy(rb), **flags)
            elif spec is not None:
                right = type(a[0])(rb, **flags)
            l, r, got = near(a[0]), near(right), near(out)
            for key in sorted(got):
                src = r if key[0] in mb.items else l
                if key not in src or got[key][0] != src[key][0]:
                    raise Violation('wrong_content', 'operation %d %s: look-up of %s in the result: %s, '
                                    'in the operand: %s' % (j, op, key, got[key], src.get(key)))
            ctx.hit('nearest_in_merged')
        pool[op['id']] = (out, copy.deepcopy(want))
        ctx.hit('%s_%s' % (k, a[1].kind))
        verify('operation %d %s' % (j, op))
        if len(pool) > 3:
            ctx.hit('nontrivial')


def shrinkable(sc):
    out = [('ops',)]
    for i, t in enumerate(sc['trees']):
        out.append(('trees', i))
        out += [('trees', i, f) for f in sorted(t)]
    return out
