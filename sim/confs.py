"""Config histories: generated configs, inputs and operations, with the model alongside."""
import copy
import os

import numpy as np

from . import gen, match, model, obs, queries, world
from .core import Violation


def scenario(rng, nmax=6, **kw):
    """Library tree + entries + where the config comes from."""
    lib = gen.config_tree(rng, 2)
    e = gen.valid_config(rng, lib, nmax=nmax, **kw)
    return {'tree': {'lib/' + k: v for k, v in lib.items()}, 'entries': e,
            'src': rng.choice(['dict', 'yaml', 'json']), 'n': rng.randint(1, 4)}


def mdir(sc):
    return model.build_dir({k[4:]: v for k, v in gen.files_of(sc['tree']).items()
                            if k.startswith('lib/')})


def build(sc, sim, name='main'):
    """(real config, model config)"""
    mc = model.MConfig(sc['entries'], mdir(sc))
    return build_real(sc, sim, name), mc


def build_real(sc, sim, name='main'):
    NrwalConfig = world.api()[0]
    data = dict(sc['entries'], equation_directory=sim.root + '/lib')
    if sc['src'] == 'dict':
        cfg = NrwalConfig(data)
    else:
        rel = 'configs/%s.%s' % (name, sc['src'])
        sim.put(rel, gen.dump(rel, data))
        with sim:
            cfg = NrwalConfig(os.path.join(sim.root, rel))
    return cfg


def spec_value(rng, n):
    """An input value as data."""
    r = rng.random()
    if r < 0.25:
        return float(rng.randint(1, 9))
    if r < 0.4:
        return rng.randint(1, 9)
    if r < 0.5:
        return {'$int': [rng.randint(1, 9) for _ in range(n)]}
    if r < 0.6:
        return {'$np': float(rng.randint(1, 9))}
    if r < 0.7:
        return {'$f32': [float(rng.randint(1, 9)) for _ in range(n)]}
    return [float(rng.randint(1, 9)) for _ in range(n)]


def to_value(v):
    if isinstance(v, dict) and '$np' in v:
        return np.float64(v['$np'])
    if isinstance(v, dict) and '$f32' in v:
        return np.array(v['$f32'], dtype=np.float32)
    return queries.values({'v': v})['v']


def to_input(spec):
    """Input argument of a config call: dict, DataFrame or something wrong."""
    if spec is None:
        return None
    if spec.get('as') == 'frame':
        import pandas as pd
        return pd.DataFrame({k: to_value(v) for k, v in spec['vals'].items()})
    if spec.get('as') == 'raw':
        return copy.deepcopy(spec['vals'])
    return {k: to_value(v) for k, v in spec['vals'].items()}


def merge(inputs, spec):
    """Model side of an accepted input update."""
    for k, v in spec['vals'].items():
        inputs[k] = to_value(v)


def gen_input(rng, names, n, full=0.5):
    """Input argument over some or all of the names."""
    if not names:
        names = ['p']
    pick = list(names) if rng.random() < full else rng.sample(names, rng.randint(0, len(names)))
    if rng.random() < 0.25 and pick:
        return {'as': 'frame', 'vals': {
            k: {'$int': [rng.randint(1, 9) for _ in range(n)]} if rng.random() < 0.3
            else [float(rng.randint(1, 9)) for _ in range(n)] for k in pick}}
    return {'as': 'dict', 'vals': {k: spec_value(rng, n) for k in pick}}


def model_of(sc):
    return model.MConfig(sc['entries'], mdir(sc))


def names_of(mc):
    """(required, optional) input names; optional ones have a library default."""
    req = mc.required()
    opt = sorted({n for k in mc.formulas for n in mc.late(k)
                  if n not in req and n not in mc.entries})
    return req, opt


def shadows(sc, mc):
    """Entry names that may be given as inputs: formula entries (their formula counts, not the input) and
    constants that only library formulas read (the input counts)."""
    import re
    texts = ' '.join(str(v) for v in sc['entries'].values())
    used = set(re.findall(r'[A-Za-z_]\w*', texts))
    return list(mc.formulas) + [
        k for k in mc.consts if k not in used and model.is_num(sc['entries'][k])]


def check_outputs(mc, got, inputs, where, cls='wrong_value'):
    """Every formula entry has the value of the model for these inputs."""
    want = mc.evaluate(inputs)
    for k in mc.formulas:
        if k not in got:
            raise Violation('incomplete', '%s: no value for entry %s (%s)' % (where, k, sorted(got)))
        if not model.close(got[k], want[k]):
            raise Violation(cls, '%s: entry %s: %s = %r, expected %r with inputs %s' % (
                where, k, mc.entries[k], got[k], want[k][0], obs.norm(inputs)))
    extra = [k for k in got if k not in mc.entries]
    if extra:
        raise Violation('incomplete', '%s: outputs of unknown entries %s' % (where, extra))


def finite(mc, inputs):
    with np.errstate(all='ignore'):
        return all(np.all(np.isfinite(v)) and np.all(np.abs(v) < 1e30)
                   for v, _ in mc.evaluate(inputs).values())


# ------------------------------------------------------------------ inputs in force under faults

def plain(v):
    """Comparable form of an input value: numbers and number arrays by value."""
    try:
        a = np.asarray(v, dtype=np.float64)
        return ('num', a.shape, tuple(a.ravel().tolist()))
    except (TypeError, ValueError):
        return ('other', repr(np.asarray(v, dtype=object).tolist()))


def plain_inputs(d):
    return {k: plain(v) for k, v in d.items()}


def is_poison(v):
    """No reference value for formulas that use this input."""
    return plain(v)[0] != 'num'


def explain(mc, outs, inputs):
    """None if every output is the value its entry has for these inputs, else a text."""
    inputs = dict(inputs)
    poison = {k for k, v in inputs.items() if is_poison(v)}
    for k in poison:
        inputs[k] = 1.0
    for k, v in outs.items():
        if k not in mc.formulas:
            if k in mc.entries:
                continue
            return 'output of unknown entry %s' % k
        deps = mc.deps(k)
        if deps & poison:
            continue
        try:
            want = mc.evaluate(inputs, only=k)[k]
        except (ValueError, KeyError, OverflowError, ZeroDivisionError):
            if any(n not in inputs and n not in mc.entries and n not in mc.defs[k]
                   for n in mc.late(k)):
                return 'entry %s has a value without the inputs it needs' % k
            continue
        if not model.close(np.asarray(v), want):
            return 'entry %s = %r, but %r for inputs %s' % (k, v, want[0], plain_inputs(inputs))
    return None
