"""Observation of real NRWAL objects through their public interface, as plain values."""
import numpy as np


def norm(v):
    if isinstance(v, np.ndarray):
        return ('arr', v.dtype.str, v.shape, tuple(repr(x) for x in v.ravel().tolist()))
    if isinstance(v, (bool, int, float, np.floating, np.integer)):
        return ('num', repr(float(v)))
    if isinstance(v, (list, tuple)):
        return tuple(norm(x) for x in v)
    if isinstance(v, dict):
        return tuple((k, norm(v[k])) for k in sorted(v))
    if hasattr(v, 'full'):
        return ('eqn', v.full)
    return repr(v)


def call(fn, *a, **k):
    """('ok', value) or ('exc', type name)."""
    try:
        return ('ok', fn(*a, **k))
    except Exception as e:
        return ('exc', type(e).__name__)


def nval(r):
    return (r[0], norm(r[1])) if r[0] == 'ok' else r


def probe(name, j=0):
    """Deterministic small positive value per variable name."""
    h = 0
    for c in name:
        h = (h * 31 + ord(c)) % 10007
    return float(1 + (h + 7 * j) % 9)


def env_of(names, j=0):
    return {n: probe(n, j) for n in names}


def eqn(e, deep=True):
    vs = list(e.variables)
    d = dict(e.default_variables)
    out = [('full', e.full), ('vars', tuple(vs)), ('defs', norm(d)), ('str', str(e)),
           ('repr', repr(e))]
    if deep:
        env = env_of(vs)
        out.append(('val', nval(call(e.eval, **env))))
        part = {k: v for k, v in env.items() if k not in d}
        out.append(('dval', nval(call(e.evaluate, **part))))
        if part:
            out.append(('miss', nval(call(e.evaluate))))
    return tuple(out)


def any_obj(o, deep=True):
    if hasattr(o, 'full'):
        return ('eqn',) + eqn(o, deep)
    if hasattr(o, 'var_dict'):
        return ('vars', tuple((k, norm(v)) for k, v in o.items()), str(o),
                norm(dict(o.var_dict)))
    if hasattr(o, 'required_inputs'):
        return config(o, deep)
    if hasattr(o, 'items'):
        kids = tuple((k, any_obj(v, deep)) for k, v in o.items())
        return ('set', type(o).__name__, tuple(o.keys()), norm(dict(o.default_variables)), str(o),
                kids, len(o.all_equations))
    return ('raw', norm(o))


def config(c, deep=True):
    return ('config', tuple(c.keys()), norm(dict(c.inputs)), norm(dict(c.outputs)),
            norm(dict(c.global_variables)), tuple(c.all_variables), tuple(c.required_inputs),
            tuple(c.missing_inputs), c.solvable, c.solved, tuple(c.to_be_solved), str(c),
            tuple((k, any_obj(v, deep)) for k, v in c.items()))


def diff(a, b, path=''):
    """First difference of two observations, as text."""
    if type(a) is type(b) and isinstance(a, tuple):
        if len(a) != len(b):
            return '%s: %s != %s' % (path, str(a)[:300], str(b)[:300])
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                tag = a[0] if i and isinstance(a[0], str) else i
                return diff(x, y, '%s/%s' % (path, tag))
        return None
    if a != b:
        return '%s: %s != %s' % (path, str(a)[:300], str(b)[:300])
    return None
