"""Pieces shared by the property modules: placing trees on the simulated disk, loading targets and
what a target means."""
import itertools
import os

import numpy as np

from . import gen, match, model, obs
from .core import Violation
from .fsim import FSim

BUDGET = 4_000_000


def subst_root(data, root):
    """Config files name their equation directory by absolute path."""
    if isinstance(data, dict) and data.get('equation_directory', '').startswith('$ROOT') \
            if isinstance(data, dict) else False:
        return dict(data, equation_directory=data['equation_directory'].replace('$ROOT', root))
    return data


def lay(sim, tree):
    for rel in tree:
        sim.put(rel, content(sim, rel, tree[rel]))


def content(sim, rel, data):
    if data is None:
        return None
    b = gen.dump(rel, subst_root(data, sim.root))
    pad = data.get('__pad__') if isinstance(data, dict) else None
    if pad:
        b = gen.dump(rel, subst_root({k: v for k, v in data.items() if k != '__pad__'}, sim.root))
        fill = (b' ' * pad + b'\n') if rel.endswith('.json') else (b'# ' + b'x' * pad + b'\n')
        if pad % 3 == 0:
            # between two top-level entries: what precedes the padding is valid on its own in YAML
            at = [i + 1 for i in range(len(b)) if b[i:i + 1] == b'\n' and b[i + 1:i + 2].strip(b' }')]
            i = at[pad % len(at)] if at else 0
            if rel.endswith('.json'):
                i = b.find(b'\n') + 1
            b = b[:i] + fill + b[i:]
        else:
            b = fill + b if pad % 2 else b.rstrip(b'\n') + b'\n' + fill
    return b


def make(ctx, tree, name='disk'):
    sim = FSim(os.path.join(ctx.scratch, name), ctx)
    lay(sim, tree)
    return sim


def api():
    from NRWAL import NrwalConfig
    from NRWAL.handlers.directories import EquationDirectory
    from NRWAL.handlers.equations import Equation
    from NRWAL.handlers.groups import EquationGroup, VariableGroup
    return NrwalConfig, EquationDirectory, EquationGroup, VariableGroup, Equation


def load(kind, path, **kw):
    NrwalConfig, EquationDirectory, EquationGroup, VariableGroup, _ = api()
    return {'config': NrwalConfig, 'dir': EquationDirectory, 'group': EquationGroup,
            'vars': VariableGroup}[kind](path, **kw)


# ------------------------------------------------------------------ meaning of a target

def relevant(target, files):
    """Files of the tree a load of the target may look at."""
    k, p = target['kind'], target['path']
    if k in ('group', 'vars'):
        return [p]
    if k == 'dir':
        return sorted(f for f in files if p == '.' or f.startswith(p + '/'))
    return sorted(files)


def meaning(target, files, root):
    """Model object of the target for one choice of stored bytes (absent files left out)."""
    k, p = target['kind'], target['path']
    if k in ('group', 'vars'):
        if p not in files:
            raise model.Reject('no file')
        data = model.load_bytes(files[p], p)
        return model.build_vars(data) if k == 'vars' else model.build_group(
            data, os.path.basename(p))
    if k == 'dir':
        sub = files if p == '.' else {f[len(p) + 1:]: b for f, b in files.items()
                                      if f.startswith(p + '/')}
        return model.build_dir(sub, lenient=True)
    return config_meaning(p, files, root)


MARK = ('.json', '.yaml', '.yml')


def config_data(p, files, depth=0):
    if p not in files:
        raise model.Reject('no config file')
    if depth > 4:
        raise model.Reject('pointer cycle')
    data = model.load_bytes(files[p], p)
    if not isinstance(data, dict):
        raise model.Reject('config is not a mapping')
    data = dict(data)
    eqn_dir = data.pop('equation_directory', None)
    for k, v in list(data.items()):
        if isinstance(v, str) and any(m in v for m in MARK):
            fp, _, key = v.partition('::')
            q = os.path.normpath(os.path.join(os.path.dirname(p), fp))
            sub, _ = config_data(q, files, depth + 1)
            if key not in sub:
                raise model.Reject('pointer to a missing entry')
            data[k] = sub[key]
    return data, eqn_dir


def config_meaning(p, files, root):
    data, eqn_dir = config_data(p, files)
    if eqn_dir is None or not isinstance(eqn_dir, str):
        raise model.Unclear('no equation directory')
    rel = os.path.relpath(eqn_dir, root)
    if rel.startswith('..') or not any(f.startswith(rel + '/') for f in files):
        raise model.Unclear('equation directory is elsewhere')
    md = model.build_dir({f[len(rel) + 1:]: b for f, b in files.items()
                          if f.startswith(rel + '/')})
    for k, v in data.items():
        if not isinstance(k, str) or isinstance(v, bool):
            raise model.Unclear('entry')
        if model.is_num(k) or not isinstance(v, (str, int, float)):
            raise model.Reject('entry')
        if isinstance(v, str) and any(c in v for c in '[]{}^%<>=,\'"\\#;@!$&|~?`') \
                and 'np.' not in v:
            raise model.Unclear('text')
    try:
        mc = model.MConfig(data, md)
        if not mc.order_ok():
            raise model.Unclear('order')
        mc.required()
    except model.Cycle:
        raise model.Reject('circular')
    except (KeyError, SyntaxError, AttributeError, TypeError, ValueError) as e:
        raise model.Unclear('config text: %r' % e)
    return mc


def check_config(cfg, mc, where='config', arr=3):
    """Real config against its model: entries, required inputs, values."""
    if list(cfg.keys()) != list(mc.entries):
        match.bad(where, 'entries %s, expected %s', list(cfg.keys()), list(mc.entries))
    if list(cfg.required_inputs) != mc.required():
        match.bad(where, 'required inputs %s, expected %s', list(cfg.required_inputs),
                  mc.required())
    inp = obs.env_of(mc.required())
    want = mc.evaluate(inp)
    if any(not np.all(np.isfinite(v)) for v, _ in want.values()):
        return                       # a zero denominator: evaluation may be refused
    got = cfg.evaluate(dict(inp))
    for k in mc.formulas:
        if k not in got:
            match.bad(where, 'no output for %s', k)
        if not model.close(got[k], want[k]):
            match.bad(where, 'entry %s = %r, expected %r (inputs %s)', k, got[k], want[k][0], inp)


def check_target(real, m, where):
    if isinstance(m, model.MConfig):
        check_config(real, m, where)
    else:
        match.obj(real, m, where)


def choices(sim, target, start, limit=32):
    """Stored states of the relevant files during a load, as dicts rel -> bytes."""
    rel = relevant(target, list(sim.timeline))
    opts = [[(r, v) for v in sim.versions(r, start)] for r in rel]
    out = []
    for combo in itertools.islice(itertools.product(*opts), limit):
        out.append({r: v for r, v in combo if v is not None})
    return out


def judge(sim, target, start, outcome, ctx, must=None):
    """exact-or-loud: outcome is ('ok', obj) or ('exc', exception)."""
    kinds, why = [], []
    for files in choices(sim, target, start):
        try:
            m = meaning(target, files, sim.root)
        except model.Reject as e:
            kinds.append('reject')
            why.append(str(e))
            continue
        except model.Unclear as e:
            kinds.append('unclear')
            continue
        kinds.append('valid')
        if outcome[0] == 'ok':
            try:
                check_target(outcome[1], m, target['kind'])
                ctx.hit('load_exact')
                return 'exact'
            except match.Mismatch as e:
                why.append(str(e))
            except Exception as e:
                why.append('%s: %s' % (type(e).__name__, e))
    if outcome[0] == 'ok':
        if 'unclear' in kinds:
            ctx.hit('load_unclear')
            return 'unclear'
        if 'valid' in kinds:
            raise Violation('not_exact', 'load of %s returned something no stored state explains: '
                            '%s' % (target, '; '.join(why)[:800]))
        raise Violation('invalid_accepted', 'load of %s succeeded although the stored definition '
                        'is invalid (%s)' % (target, '; '.join(why)[:400]))
    errs = [f for f in sim.fired if f[0] == 'err']
    gone = any(v is None for r in relevant(target, list(sim.timeline))
               for v in sim.versions(r, start)[0:] if len(sim.versions(r, start)) > 1)
    if not errs and not gone and set(kinds) == {'valid'}:
        raise Violation('spurious_failure', 'load of %s failed without cause: %s: %s'
                        % (target, type(outcome[1]).__name__, str(outcome[1])[:300]))
    ctx.hit('load_refused')
    return 'refused'
