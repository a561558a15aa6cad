"""Comparison of real NRWAL objects with the reference model."""
import numpy as np

from . import obs
from .core import Violation


class Mismatch(Exception):
    pass


def bad(where, fmt, *a):
    raise Mismatch('%s: %s' % (where, fmt % a))


def defaults(real, want, where):
    got = {k: v for k, v in real.items()}
    if set(got) != set(want):
        bad(where, 'defaults %s, expected %s', sorted(got), sorted(want))
    for k in want:
        if obs.norm(got[k]) != obs.norm(want[k]):
            bad(where, 'default %s = %r, expected %r', k, got[k], want[k])


def eqn(real, m, where, defs=True, probes=(0, 1)):
    if not hasattr(real, 'full'):
        bad(where, 'not an equation: %s', type(real).__name__)
    if list(real.variables) != m.variables:
        bad(where, 'variables %s, expected %s', list(real.variables), m.variables)
    if defs:
        defaults(real.default_variables, m.defaults, where)
    for j in probes:
        env = obs.env_of(m.variables, j)
        if j == 1:                       # rely on the defaults
            env = {k: v for k, v in env.items() if k not in m.defaults}
        got = obs.call(real.eval, **env)
        try:
            want = ('ok', m.value(env))
        except Exception as e:
            want = ('exc', type(e).__name__)
        if want[0] != got[0]:
            bad(where, 'evaluates to %s, expected %s', got, want)
        if want[0] == 'ok' and not same(got[1], want[1]):
            bad(where, 'evaluates to %r, expected %r with %s', got[1], want[1], env)
    missing = [v for v in m.variables if v not in m.defaults]
    if missing:
        got = obs.call(real.evaluate)
        if got[0] == 'ok':
            bad(where, 'evaluates without its inputs %s', missing)


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and bool(np.allclose(a, b, rtol=1e-5, atol=0, equal_nan=True))
    try:
        a, b = float(a), float(b)
    except (TypeError, ValueError):
        return False
    return a == b or (a != a and b != b) or abs(a - b) <= 1e-12 * max(abs(a), abs(b))


def group(real, m, where, defs=True):
    if type(real).__name__ != 'EquationGroup' and not hasattr(real, 'all_equations'):
        bad(where, 'not a group: %s', type(real).__name__)
    if list(real.keys()) != list(m.items):
        bad(where, 'keys %s, expected %s', list(real.keys()), list(m.items))
    if defs:
        defaults(real.default_variables, m.defaults, where)
    for k, v in m.items.items():
        w = '%s::%s' % (where, k)
        obj(real[k], v, w, defs)


def variables(real, m, where):
    if not hasattr(real, 'var_dict'):
        bad(where, 'not a variables file: %s', type(real).__name__)
    got = dict(real.items())
    if list(got) != list(m.items) or any(obs.norm(got[k]) != obs.norm(m.items[k]) for k in got):
        bad(where, 'variables %s, expected %s', got, m.items)


def directory(real, m, where='dir', defs=True):
    if type(real).__name__ != 'EquationDirectory':
        bad(where, 'not a directory: %s', type(real).__name__)
    if list(real.keys()) != list(m.items):
        bad(where, 'keys %s, expected %s', list(real.keys()), list(m.items))
    if defs:
        defaults(real.default_variables, m.defaults, where)
    for k, v in m.items.items():
        w = '%s::%s' % (where, k)
        obj(real[k], v, w, defs)


def obj(real, m, where='obj', defs=True):
    if m.kind == 'any':
        return
    {'eqn': eqn, 'group': group, 'dir': directory}[m.kind](real, m, where, defs) \
        if m.kind != 'vars' else variables(real, m, where)


def require(real, m, where, cls='wrong_content', defs=True):
    try:
        obj(real, m, where, defs)
    except Mismatch as e:
        raise Violation(cls, str(e))
