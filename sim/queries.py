"""Read-only calls on loaded objects, as data: generation, execution, normalised answers."""
import copy
import re

import numpy as np

from . import gen, obs, world

_HEX = re.compile(r'0x[0-9a-f]+')


class FaultArray(np.ndarray):
    """Array whose arithmetic fails at the n-th operation: a numeric failure or lack of memory in the
    middle of a formula."""

    def __new__(cls, data, n, exc):
        o = np.asarray(data, dtype=float).view(cls)
        o._box = [n, exc]
        return o

    def __array_finalize__(self, o):
        self._box = getattr(o, '_box', None)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        box = self._box
        if box is not None:
            box[0] -= 1
            if box[0] < 0:
                raise box[1]('injected in %s' % ufunc.__name__)
        inputs = [x.view(np.ndarray) if isinstance(x, FaultArray) else x for x in inputs]
        out = getattr(ufunc, method)(*inputs, **kw)
        if isinstance(out, np.ndarray):
            out = out.view(FaultArray)
            out._box = box
        return out

    def __deepcopy__(self, memo):
        return self


EXCS = {'MemoryError': MemoryError, 'FloatingPointError': FloatingPointError,
        'KeyboardInterrupt': KeyboardInterrupt, 'OSError': OSError}


def values(over):
    """JSON overrides to call arguments."""
    out = {}
    for k, v in over.items():
        if isinstance(v, dict) and '$fault' in v:
            v = FaultArray(v.get('data', [1.0, 2.0, 3.0]), v['$fault'], EXCS[v['exc']])
        elif isinstance(v, dict) and '$int' in v:
            v = np.array(v['$int'], dtype=np.int64)
        elif isinstance(v, dict) and '$np' in v:
            v = np.array([3.0, 1.0, 2.0], dtype=np.float32)
        elif isinstance(v, dict) and '$nan' in v:
            v = np.array([float('nan'), 1.0, [0, float('inf'), float('-inf')][v['$nan']]])
        elif isinstance(v, dict) and '$list' in v:
            v = list(v['$list'])
        elif isinstance(v, dict) and '$tuple' in v:
            v = tuple(v['$tuple'])
        elif isinstance(v, list):
            v = np.array(v, dtype=object if any(isinstance(x, str) for x in v) else float)
        out[k] = v
    return out


def keep(x):
    if hasattr(x, 'full'):
        return what(x)
    return obs.norm({k: (np.asarray(v) if isinstance(v, FaultArray) else v)
                     for k, v in x.items()}) if isinstance(x, dict) else obs.norm(x)


def overrides(rng, pool, bad=0.1, fault=0.0):
    out = {}
    names = rng.sample(pool, rng.randint(0, len(pool))) if rng.random() < 0.4 else list(pool)
    mode = rng.choice(['s', 's', 'a', 'm'])
    for n in names:
        if mode == 's' or (mode == 'm' and rng.random() < 0.5):
            out[n] = rng.choice([float(rng.randint(1, 9)), rng.randint(1, 9)])
        else:
            out[n] = rng.choice([gen.value(rng, 3), {'$int': [rng.randint(1, 9)
                                                             for _ in range(3)]}])
    if rng.random() < 0.1:
        out[rng.choice(pool)] = rng.choice([0.0, [0.0, 1.0, 2.0], [1e300, -1.0, 3.0], {'$np': 'f4'},
                                            {'$nan': 1}, {'$nan': 2}, {'$int': [0, 2, 1]}])
    if rng.random() < bad:
        out[rng.choice(pool)] = rng.choice(['text', None, {'$list': [1.0, 2.0, 3.0]},
                                            [1.0, 2.0], True])
    if fault and rng.random() < fault and out:
        out[rng.choice(sorted(out))] = {'$fault': rng.randint(0, 4), 'exc': rng.choice(
            ['MemoryError', 'FloatingPointError', 'KeyboardInterrupt'])}
    return out


KINDS = ['get', 'get', 'math', 'near', 'bad', 'eval', 'eval', 'eval', 'str', 'list', 'comb', 'comb',
         'merge', 'repl', 'derive', 'parse', 'obs']


def swarm(rng):
    """Query kinds of one run: all, or a few so that the same paths meet."""
    return None if rng.random() < 0.25 else rng.sample(
        sorted(set(KINDS)) + ['near', 'near', 'math'], rng.choice([1, 1, 2, 3]))


def one(rng, ps, root, fault=0.0, vars_=None, kinds=None):
    """A query on the object at path `root` of the tree described by ps (path -> kind).  Paths in the
    query are relative to root."""
    vars_ = vars_ or gen.VARS
    n = len(root)
    sub = {p[n:]: k for p, k in ps.items() if p[:n] == root}
    eqs = sorted(p for p, k in sub.items() if k == 'eqn')
    sets = sorted(p for p, k in sub.items() if k != 'eqn')
    isset = sub.get(()) != 'eqn'

    def key(p):
        return '::'.join(p)
    tries = 0
    while True:
        tries += 1
        k = rng.choice(kinds if kinds and tries < 12 else KINDS)
        q = {'q': k}
        if k == 'get' and isset and len(sub) > 1:
            p = rng.choice(sorted(p for p in sub if p))
            q['key'] = key(p)
            if rng.random() < 0.3:
                q['dflt'] = 1
        elif k == 'math' and isset and eqs:
            e = [key(rng.choice(eqs)) for _ in range(3)]
            q['key'] = rng.choice(['{0} + {1}', '{0} * {1} - {2}', '({0} + {1}) * 2', '{0} ** 2',
                                   '{0} / 4 + {1}', '3 * ({0} - {1}) + {2}', '{0} - {1} - {2}',
                                   '({0} * 2 - {1}) / ({2} + 3)', '2 * ({0} - ({1} + {2}))',
                                   '{0} + missing_key', '({0} + {1}']).format(*e)
            q['over'] = overrides(rng, vars_, 0.05, fault)
        elif k == 'near' and isset and sets:
            fam = [p for p in sets if any(p + (x,) in sub for x in ('install_3MW', 'capex_2015'))]
            g = rng.choice(fam if fam and rng.random() < 0.85 else sets)
            q['key'] = key(g + (rng.choice(['install_4MW', 'install_9MW', 'install_20MW',
                                           'capex_2017', 'capex_2030', 'capex_2012',
                                           'install_3MW']),))
            q['find'] = rng.random() < 0.3
            q['over'] = overrides(rng, vars_, 0.0, fault)
        elif k == 'bad' and isset:
            q['key'] = rng.choice(['nothing', 'a::b::c', 'turbine::nothing', '', 'x[1]', '12',
                                   'eqn_a::eqn_b', None, 3, '::', 'turbine::'])
            if len(sub) > 1 and rng.random() < 0.5:
                p = rng.choice(sorted(p for p in sub if p))
                q['key'] = rng.choice(['%s_7MW', '%s_x', '%s::', '%s ', '%s::x', '%s + 1 +', '%s_2017'
                                       ]) % key(p)
                if rng.random() < 0.3:
                    q['key'] = key(p)[:-1]
        elif k == 'eval' and eqs:
            q['path'] = rng.choice(eqs)
            q['over'] = overrides(rng, vars_, 0.12, fault)
        elif k == 'str':
            q['path'] = rng.choice(sorted(sub))
            q['how'] = rng.choice(['str', 'repr', 'head', 'tail', 'full'])
        elif k == 'list':
            q['path'] = rng.choice(sorted(sub))
        elif k == 'comb' and eqs:
            q['a'], q['b'] = rng.choice(eqs), rng.choice(eqs)
            q['op'] = rng.choice(['+', '-', '*', '/', '**'])
            q['lit'] = rng.choice([None, None, 2, 1.5, 'x * 3', 'w', 'import os', [1], 0, 1, 0.0, '0',
                                   {'$eqn': '3'}, {'$eqn': 'x * w'}, {'$eqn': '-2'}])
            q['left'] = rng.random() < 0.5
            q['over'] = overrides(rng, vars_, 0.05, fault)
        elif k == 'merge' and isset and len(sets) > 0:
            ks = rng.choice(['dir', 'group'])
            c = sorted(p for p in sets if sub[p] == ks)
            if not c:
                continue
            q['a'], q['b'] = rng.choice(c), rng.choice(c)
            q['set'] = gen.varfile(rng, vars_) if rng.random() < 0.5 else None
        elif k == 'repl' and eqs:
            q['path'] = rng.choice(eqs)
            q['new'] = rng.choice(['x * 2 + w', '7', 'depth + area_m', 'eval(x)', 'x / 0'])
            q['set'] = gen.varfile(rng, vars_) if rng.random() < 0.5 else None
            q['over'] = overrides(rng, vars_, 0.05, fault)
        elif k == 'derive' and eqs:
            q['a'], q['b'] = rng.choice(eqs), rng.choice(eqs)
            q['set'] = gen.varfile(rng, vars_, 1, 5)
            q['over'] = overrides(rng, vars_, 0.0, fault)
        elif k == 'parse' and eqs:
            q['path'] = rng.choice(eqs)
        elif k == 'obs':
            q['path'] = rng.choice(sorted(sub))
        else:
            continue
        return q


def vary(rng, q, ps, root, vars_=None, fault=0.0):
    """A query of the same kind on the same object, with other arguments."""
    for _ in range(6):
        new = one(rng, ps, root, fault, vars_, [q['q']])
        if new['q'] == q['q']:
            break
    else:
        return q
    for k in ('path', 'a', 'b'):
        if k in q:
            new[k] = q[k]
    if q['q'] == 'near':
        g, _, _ = q['key'].rpartition('::')
        new['key'] = g + '::' * bool(g) + new['key'].rpartition('::')[2]
        new['find'] = q['find']
    elif q['q'] == 'get':
        new['key'] = q['key']
    return new


def at(o, path):
    for p in path:
        o = o[p]
    return o


OPS = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b,
       '/': lambda a, b: a / b, '**': lambda a, b: a ** b}


def what(o):
    """Short observation of a returned object."""
    if hasattr(o, 'full'):
        return obs.eqn(o, deep=False)
    if hasattr(o, 'all_equations'):
        return (tuple(o.keys()), str(o), obs.norm(dict(o.default_variables))
                if hasattr(o, 'default_variables') else None)
    if hasattr(o, 'var_dict'):
        return tuple(sorted(o.items()))
    return obs.norm(o)


class ArgChanged(Exception):
    pass


def ev(e, over, out):
    vals = values(over)
    before = keep(vals)
    out.append((vals, before))
    return obs.norm(np.asarray(e.eval(**vals)) if any(isinstance(v, FaultArray)
                                                      for v in vals.values())
                else e.eval(**vals))


def perform(o, q, args):
    """The calls of a query; `args` collects (argument, its value before)."""
    k = q['q']
    if k == 'get':
        if q.get('dflt'):
            return what(o.get(q['key'], 'none'))
        return what(o[q['key']])
    if k == 'bad':
        # the default of a failed look-up is the caller's
        d = world.api()[4]('x * 2 + 1', default_variables={'x': 3.0})
        args.append((d, keep(d)))
        r = obs.call(o.get, q['key'], d)
        return (what(r[1]) if r[0] == 'ok' else obs.nval(r), q['key'] in o, what(o[q['key']]))
    if k == 'math':
        e = o[q['key']]
        return what(e), ev(e, q['over'], args)
    if k == 'near':
        if q['find']:
            g, _, last = q['key'].rpartition('::')
            g = o[g] if g else o
            f = g.find_nearest_power_eqns if 'MW' in last else g.find_nearest_year_eqns
            es, vs = f(last)
            return tuple(what(e) for e in es), obs.norm([float(v) for v in vs])
        e = o[q['key']]
        return what(e), ev(e, q['over'], args)
    if k == 'eval':
        return ev(at(o, q['path']), q['over'], args)
    if k == 'str':
        e = at(o, q['path'])
        h = q['how']
        if h in ('head', 'tail'):
            return getattr(e, h)(3) if hasattr(e, h) else str(e)
        if h == 'full':
            return e.full if hasattr(e, 'full') else str(e)
        return {'str': str, 'repr': repr}[h](e)
    if k == 'list':
        e = at(o, q['path'])
        if hasattr(e, 'full'):
            return tuple(e.variables), obs.norm(dict(e.default_variables)), 'x' in e
        return (tuple(e.keys()), len(e.values()), tuple(a for a, _ in e.items()),
                tuple(str(x) for x in e.all_equations), 'eqn' in e)
    if k == 'comb':
        a = at(o, q['a'])
        b = at(o, q['b']) if q['lit'] is None else copy.deepcopy(q['lit'])
        if isinstance(b, dict):
            b = type(a)(b['$eqn'])
            args.append((b, keep(b)))
            if q.get('left'):
                a, b = b, a
        e = OPS[q['op']](a, b)
        return what(e), ev(e, q['over'], args)
    if k == 'merge':
        a, b = at(o, q['a']), at(o, q['b'])
        e = a + b
        if q['set']:
            e.set_default_variables(dict(q['set']))
        return what(e)
    if k == 'repl':
        e = at(o, q['path']).replace_equation(q['new'])
        if q['set']:
            e.set_default_variables(dict(q['set']))
        return what(e), ev(e, q['over'], args)
    if k == 'derive':
        e = at(o, q['a']) * at(o, q['b']) + at(o, q['a'])
        e.set_default_variables(dict(q['set']))
        return what(e), ev(e, q['over'], args)
    if k == 'parse':
        e = at(o, q['path'])
        c = type(e)
        return (tuple(c.parse_variables(e.full)), c.is_num(e.full), c.is_variable(e.full),
                c.is_equation(e.full))
    if k == 'obs':
        return obs.any_obj(at(o, q['path']))
    raise ValueError(k)


def answer(o, q, args=None):
    """('ok', value) or ('exc', type, text); KeyboardInterrupt is an answer too."""
    args = [] if args is None else args
    try:
        r = ('ok', perform(o, q, args))
    except (Exception, KeyboardInterrupt) as e:
        r = ('exc', type(e).__name__, _HEX.sub('0x', str(e))[:400])
    return r


def changed(args):
    for vals, before in args:
        if keep(vals) != before:
            return 'arguments %s changed to %s' % (before, keep(vals))
    return None
