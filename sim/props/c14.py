"""C14: circular definitions end in an error; nothing ever hangs."""
import copy
import os

import numpy as np

from .. import confs, core, gen, match, model, obs, sched, world
from ..core import Violation
from . import c05

ID = 'C14'
TIMEOUT_IS_VIOLATION = True
TIERS = {'quick': {'runs': 2600, 'wall': 24}, 'thorough': {'runs': 120000, 'wall': 800}}
RULE = ('A run draws a random reference graph (rings, chains, diamonds, dense) over 1-9 formulas of a '
        'group, entries of a config (also through variables of library formulas) or pointers between 1-5 '
        'config files, loads or builds and evaluates it under a step budget, and compares refusal with '
        'the cycles of the graph. Then files are edited one reference at a time until no cycle is left '
        'and the load has to succeed and be exact. Every 97th run is a chain or ring of 8-125 references. Non-trivial: the graph had a cycle, or a chain of '
        'four or more.')
STUBS = ['disk: real files behind wrapped calls',
         'time: a step counter over NRWAL code (lines) with a budget, plus a wall limit of 60 s']
ASSUMPTIONS = ['files that point at each other do so only through a cycle of entries',
               'inputs do not name entries of the config itself']

STEPS = 3_000_000


def graph(rng, names):
    """name -> names it refers to"""
    n = len(names)
    kind = rng.choice(['ring', 'chain', 'sparse', 'sparse', 'dense', 'tail', 'self', 'diamond'])
    g = {k: [] for k in names}
    o = rng.sample(names, n)
    if kind == 'ring':
        for i in range(n):
            g[o[i]] = [o[(i + 1) % n]]
    elif kind == 'chain':
        for i in range(n - 1):
            g[o[i]] = [o[i + 1]]
    elif kind == 'tail':                # a chain that leads into a cycle it is not part of
        m = rng.randint(1, n)
        for i in range(n - 1):
            g[o[i]] = [o[i + 1]]
        g[o[n - 1]] = [o[n - m]] if n > 1 or rng.random() < 0.5 else []
    elif kind == 'self':
        g[o[0]] = [o[0]]
        for i in range(1, n):
            if rng.random() < 0.5:
                g[o[i]] = [o[rng.randrange(i)]]
    elif kind == 'diamond':
        for i in range(min(n, 6) - 1):
            g[o[i]] = [o[i + 1]] * rng.choice([1, 2])
            if i + 2 < n:
                g[o[i]] = g[o[i]] + [o[i + 2]]
        if rng.random() < 0.4:
            g[o[min(n, 6) - 1]] = [o[rng.randrange(n)]]
    else:
        p = 0.15 if kind == 'sparse' else 0.3
        for a in names[:7]:
            for b in names:
                if rng.random() < p:
                    g[a].append(b)
            g[a] = g[a][:3]
    return g


def text(rng, refs, free, np_ok=True):
    """A formula that mentions exactly the given names."""
    parts = list(refs)
    parts += rng.sample(free, rng.randint(0, min(2, len(free))))
    if not parts:
        parts = [rng.choice(gen.NUMS)]
    rng.shuffle(parts)
    out = parts[0]
    for p in parts[1:]:
        r = rng.random()
        if np_ok and r < 0.15 and '(' not in out:
            out = 'np.maximum(%s, %s)' % (out, p)
        elif r < 0.3:
            out = '(%s) * %s' % (out, p)
        elif r < 0.4:
            out = rng.choice(['1 ** (%s) + %s', '%s / 4 + 1 ** %s', '%s - 1 ** %s']) % (out, p)
        else:
            out = '%s %s %s' % (out, rng.choice(['+', '-', '*', '/']), p)
    if rng.random() < 0.4:
        out = '%s + %s' % (out, rng.choice(gen.NUMS))
    return out


def generate(rng, tier, idx):
    mode = rng.choice(['group', 'group', 'config', 'config', 'late', 'pointer'])
    if idx % 97 == 13:
        return long_chain(rng)
    sc = {'mode': mode}
    if mode == 'group':
        names = rng.sample(gen.KEYS, rng.choice([1, 2, 2, 3, 3, 4, 5, 7, 9, 13]))
        g = graph(rng, names)
        body = {k: text(rng, g[k], gen.VARS) for k in names}
        sc['via'] = rng.choice(['dict', 'group', 'group', 'dir', 'sub'])
        if sc['via'] == 'sub':
            body = {'sub': body, 'top_x': 'x * 2'}
        sc['body'] = body
        sc['ext'] = rng.choice(gen.EXTS)
    elif mode == 'config':
        sc.update(confs.scenario(rng, nmax=3, groups=False, late_names=False))
        names = rng.sample(gen.CONF, rng.choice([1, 2, 2, 3, 3, 4, 5, 7, 11]))
        g = graph(rng, names)
        lib = ['::'.join(p) for p, v in sorted(c05.paths({f[4:]: d for f, d in sc['tree'].items()}).items())
               if v == 'eqn']
        sc['entries'] = {}
        for k in names:
            if rng.random() < 0.2 and len(g[k]) == 1:
                sc['entries'][k] = g[k][0]
            else:
                sc['entries'][k] = cfg_text(rng, g[k], lib)
    elif mode == 'late':
        # entries named like variables of library formulas: dependencies that only exist when the
        # config is evaluated
        names = rng.sample(gen.VARS, rng.randint(1, 5))
        g = graph(rng, names)
        lib = {'f_' + k: text(rng, g[k], ['k1', 'k2']) for k in names}
        sc['tree'] = {'lib/form.yaml': lib}
        sc['entries'] = {k: rng.choice(['form::f_%s', 'form::f_%s', 'form::f_%s + p', '2 * form::f_%s'])
                         % k for k in names}
        for k in names:
            if g[k] and rng.random() < 0.2:
                sc['entries'][k] = 'np.maximum(%s, p)' % g[k][0]
        sc['src'], sc['n'] = rng.choice(['dict', 'yaml']), 2
    else:
        nf = rng.randint(1, 5)
        files = ['c%d%s' % (i, rng.choice(['.yaml', '.yml', '.json'])) for i in range(nf)]
        kind = rng.choice(['ring', 'chain', 'tail'])
        sc['files'] = {}
        for i, f in enumerate(files):
            body = {'own_%d' % i: 'p_in * %d' % (i + 1)}
            nxt = i + 1
            if nxt == nf:
                nxt = {'ring': 0, 'chain': None, 'tail': rng.randrange(nf)}[kind]
            if nxt is not None:
                body['ptr_%d' % i] = './%s::%s' % (files[nxt], 'ptr_%d' % nxt if (
                    kind != 'chain' or nxt + 1 < nf) else 'own_%d' % nxt)
            sc['files'][f] = body
        sc['main'] = files[0]
    sc['late_inputs'] = rng.randrange(1, 9)
    sc['fix'] = rng.random() < 0.6
    return sc


def cfg_text(rng, refs, lib=()):
    parts = list(refs) + rng.sample(gen.INP, rng.randint(0, 2))
    if lib and rng.random() < 0.3:
        parts.append(rng.choice(lib))
    if not parts:
        parts = [rng.choice(gen.INP + ['3'])]
    rng.shuffle(parts)
    if len(parts) > 1 and rng.random() < 0.15:
        return rng.choice(['1 ** %s + %s', '%s / 1 ** %s', '2 * %s + 1 ** %s']) % (
            ' + '.join(parts[:-1]), parts[-1])
    if len(parts) == 2 and rng.random() < 0.2:
        return 'np.maximum(%s, %s)' % tuple(parts)
    out = parts[0]
    for p in parts[1:]:
        out = '(%s) * %s' % (out, p) if rng.random() < 0.2 else '%s %s %s' % (
            out, rng.choice(['+', '-', '*', '/']), p)
    return out + rng.choice(['', ' + 2', ' * 3'])


def long_chain(rng):
    kind = rng.choice(['late', 'text', 'group', 'pointer'])
    n = {'late': rng.randint(90, 125), 'text': rng.randint(20, 40), 'group': rng.randint(20, 45),
         'pointer': rng.randint(8, 20)}[kind]
    order = list(range(n))
    o = rng.choice(['up', 'down', 'mixed'])
    if o == 'down':
        order.reverse()
    elif o == 'mixed':
        rng.shuffle(order)
    ring = None if rng.random() < 0.6 else rng.choice([0, n // 2, n - 1, rng.randrange(n)])
    return {'mode': 'long', 'kind': kind, 'n': n, 'order': order, 'ring': ring}


def run_long(sc, ctx):
    """Entry i refers to entry i + 1; the last one to nothing or back into the chain."""
    NrwalConfig, _, EquationGroup, _, _ = world.api()
    n, kind, ring = sc['n'], sc['kind'], sc['ring']
    sim = world.make(ctx, {'lib/a.yaml': {'e': 'x * 2'}})
    nxt = {i: i + 1 for i in range(n - 1)}
    if ring is not None:
        nxt[n - 1] = ring
    t = {i: 'c%d + 1' % nxt[i] if i in nxt else 'p_in * 2' for i in range(n)}

    def build():
        if kind == 'group':
            return EquationGroup({'c%d' % i: t[i] for i in sc['order']}, name='g')
        body = {'equation_directory': sim.root + '/lib'}
        if kind == 'text':
            return NrwalConfig(dict(body, **{'c%d' % i: t[i] for i in sc['order']}))
        if kind == 'late':
            sim.put('lib/form.json', gen.dump('form.json', {'f%d' % i: t[i] for i in range(n)}))
            return NrwalConfig(dict(body, **{'c%d' % i: 'form::f%d' % i for i in sc['order']}))
        for i in range(n):
            v = './m%d.yaml::c%d' % (nxt[i], nxt[i]) if i in nxt else 'p_in * 2'
            sim.put('configs/m%d.yaml' % i, gen.dump('m.yaml', dict(body, **{'c%d' % i: v})))
        return NrwalConfig(sim.root + '/configs/m0.yaml')
    r = bounded(build, ctx, 'long ' + kind, 60_000_000)
    ctx.hit('nontrivial')
    ctx.hit('long_%s_%s' % (kind, 'chain' if ring is None else 'ring'))
    if r[0] == 'ok' and ring is not None and kind != 'late':
        raise Violation('cycle_accepted', 'a ring of %d (%s) was accepted' % (n - ring, kind))
    if r[0] != 'ok':
        if ring is None:
            raise Violation('refused', 'a chain of %d (%s) was refused: %s: %s' % (
                n, kind, type(r[1]).__name__, str(r[1])[:200]))
        return
    if kind == 'group':
        e = bounded(lambda: {'c0': r[1]['c0'].eval(p_in=3.0)}, ctx, 'evaluate', 60_000_000)
    else:
        e = bounded(lambda: r[1].evaluate({'p_in': 3.0}), ctx, 'evaluate', 60_000_000)
    if ring is not None:
        if e[0] == 'ok' or r[1].solved:
            raise Violation('cycle_accepted', 'a ring of %d (%s) was evaluated' % (n - ring, kind))
        return
    want = 6.0 + (0 if kind == 'pointer' else n - 1)
    if e[0] != 'ok' or abs(e[1]['c0'] - want) > 1e-3:
        raise Violation('refused' if e[0] != 'ok' else 'wrong_content', 'a chain of %d (%s): %s, expected '
                        '%r' % (n, kind, str(e[1])[:300], want))


def bounded(fn, ctx, what, steps=STEPS):
    """('ok', value) or ('exc', exception); a call that does not end is a violation."""
    m = sched.Meter(budget=steps)
    try:
        with m:
            r = ('ok', fn())
    except Exception as e:
        r = ('exc', e)
    except sched.SimAbort:
        raise Violation('hang', '%s did not end within %d steps' % (what, steps))
    ctx.steps += m.n
    ctx.ev(what, r[0], type(r[1]).__name__ if r[0] == 'exc' else '', m.n)
    return r


def has_cycle(refs):
    """refs: name -> names"""
    state = {}

    def visit(k):
        if state.get(k) == 1:
            return True
        if state.get(k) == 2 or k not in refs:
            return False
        state[k] = 1
        if any(visit(x) for x in refs[k]):
            return True
        state[k] = 2
        return False
    return any(visit(k) for k in refs)


def cut(body):
    """Edits that remove one reference after the other; yields the body after each."""
    body = copy.deepcopy(body)
    d = body['sub'] if 'sub' in body else body
    for k in sorted(d):
        d[k] = '7 * w'
        yield copy.deepcopy(body)


def execute(sc, ctx):
    {'group': run_group, 'config': run_config, 'late': run_config, 'pointer': run_pointer,
     'long': run_long}[
        sc['mode']](sc, ctx)


def run_group(sc, ctx):
    sim = world.make(ctx, {})
    _, EquationDirectory, EquationGroup, _, _ = world.api()
    rel = 'lib/grp' + sc['ext']

    def attempt(body):
        try:
            m = model.build_group(copy.deepcopy(body), 'grp')
        except model.Reject:
            m = None
        except model.Unclear:
            return None
        sim.put(rel, gen.dump(rel, body))
        if sc['via'] == 'dict':
            r = bounded(lambda: EquationGroup(copy.deepcopy(body), name='grp'), ctx, 'group')
        elif sc['via'] == 'dir':
            r = bounded(lambda: EquationDirectory(sim.root + '/lib'), ctx, 'dir')
        else:
            r = bounded(lambda: EquationGroup(sim.root + '/' + rel), ctx, 'group')
        if m is None:
            if r[0] == 'ok':
                raise Violation('cycle_accepted', 'the circular group %s was accepted' % body)
            ctx.hit('cycle_refused')
            ctx.hit('nontrivial')
            return False
        if r[0] != 'ok':
            raise Violation('refused', 'the group %s has no cycle but was refused: %s: %s' % (
                body, type(r[1]).__name__, str(r[1])[:200]))
        o = r[1]['grp'] if sc['via'] == 'dir' else r[1]
        try:
            match.group(o, m, 'grp')
        except match.Mismatch as e:
            raise Violation('wrong_content', str(e))
        ctx.hit('acyclic_loaded')
        if len(body) > 3:
            ctx.hit('nontrivial')
        return True
    st = attempt(sc['body'])
    if st is False and sc['fix']:
        for body in cut(sc['body']):
            if attempt(body):
                ctx.hit('loaded_after_edit')
                return
        raise Violation('refused', 'still refused after every reference was removed')


def run_config(sc, ctx):
    sim = world.make(ctx, sc['tree'])

    def attempt(entries):
        s2 = dict(sc, entries=entries)
        parsed = False
        try:
            mc = model.MConfig(entries, confs.mdir(sc))
            parsed = True               # no cycle, or one through variables of library formulas
            ok = mc.order_ok()
        except model.Cycle:
            ok = False
        except (model.Unclear, SyntaxError, KeyError):
            return None
        r = bounded(lambda: confs.build_real(s2, sim), ctx, 'config')
        if not ok:
            if r[0] == 'ok' and not parsed:
                raise Violation('cycle_accepted', 'the config %s was built although its entries refer to '
                                'each other in a circle' % entries)
            if r[0] == 'ok':
                cfg = r[1]
                inp = {n: float(sc['late_inputs']) for n in cfg.required_inputs}
                inp.update({'p': 2.0, 'k1': 3.0, 'k2': 4.0})
                inp = {k: v for k, v in inp.items() if k not in entries}
                e = bounded(lambda: cfg.evaluate(inp), ctx, 'evaluate')
                if e[0] == 'ok':
                    raise Violation('cycle_accepted', 'the circular config %s (library %s) was '
                                    'evaluated: %s' % (entries, sc['tree'], dict(e[1])))
                if cfg.solved:
                    raise Violation('cycle_accepted', 'the circular config %s reports itself solved'
                                    % entries)
                ctx.hit('cycle_refused_at_evaluation')
            else:
                ctx.hit('cycle_refused')
            ctx.hit('nontrivial')
            return False
        if r[0] != 'ok':
            raise Violation('refused', 'the config %s has no cycle but was refused: %s: %s' % (
                entries, type(r[1]).__name__, str(r[1])[:200]))
        cfg = r[1]
        inp = obs.env_of(mc.required())
        e = bounded(lambda: cfg.evaluate(dict(inp)), ctx, 'evaluate')
        if e[0] != 'ok' and 'out of range' in str(e[1]):
            ctx.hit('overflow')         # a power too large for a float
        elif confs.finite(mc, inp):
            if e[0] != 'ok':
                raise Violation('refused', 'the config %s has no cycle but its evaluation failed: %s: '
                                '%s' % (entries, type(e[1]).__name__, str(e[1])[:200]))
            confs.check_outputs(mc, e[1], inp, 'config')
        ctx.hit('acyclic_evaluated')
        if len(entries) > 3:
            ctx.hit('nontrivial')
        return True
    st = attempt(sc['entries'])
    if st is False and sc['fix']:
        for body in cut(sc['entries']):
            if attempt({k: ('7 * p_in' if v == '7 * w' else v) for k, v in body.items()}):
                ctx.hit('loaded_after_edit')
                return
        raise Violation('refused', 'still refused after every reference was removed')


def run_pointer(sc, ctx):
    sim = world.make(ctx, {'lib/a.yaml': {'e': 'x * 2'}})
    NrwalConfig = world.api()[0]

    def put(files):
        for f, b in files.items():
            sim.put('configs/' + f, gen.dump(f, dict(b, equation_directory=sim.root + '/lib')))

    def attempt(files):
        refs = {}
        for f, b in files.items():
            for k, v in b.items():
                refs[f, k] = []
                if str(v).startswith('./'):
                    t, _, key = v[2:].partition('::')
                    refs[f, k].append((t, key))
        # only what the main file reaches counts
        todo, seen = [sc['main']], set()
        while todo:
            f = todo.pop()
            if f in seen or f not in files:
                continue
            seen.add(f)
            todo += [t for (g, k), r in refs.items() if g == f for t, _ in r]
        refs = {k: v for k, v in refs.items() if k[0] in seen}
        if any(t not in refs for r in refs.values() for t in r):
            return None
        put(files)
        r = bounded(lambda: NrwalConfig(sim.root + '/configs/' + sc['main']), ctx, 'pointer')
        if has_cycle(refs):
            if r[0] == 'ok':
                raise Violation('cycle_accepted', 'circular config pointers %s were accepted' % files)
            ctx.hit('pointer_cycle_refused')
            ctx.hit('nontrivial')
            return False
        if r[0] != 'ok':
            raise Violation('refused', 'config pointers %s have no cycle but were refused: %s: %s' % (
                files, type(r[1]).__name__, str(r[1])[:200]))
        cfg = r[1]
        out = cfg.evaluate({'p_in': 3.0})

        def value(f, k):
            v = files[f][k]
            if v.startswith('./'):
                t, _, key = v[2:].partition('::')
                return value(t, key)
            return 3.0 * float(v.split('*')[1])
        for k in files[sc['main']]:
            if abs(out[k] - value(sc['main'], k)) > 1e-9:
                raise Violation('wrong_content', 'pointer %s: %r, expected %r' % (
                    k, out[k], value(sc['main'], k)))
        ctx.hit('pointers_loaded')
        if len(files) > 2:
            ctx.hit('nontrivial')
        return True
    st = attempt(sc['files'])
    if st is False and sc['fix']:
        files = copy.deepcopy(sc['files'])
        for f in sorted(files, reverse=True):
            for k in files[f]:
                if files[f][k].startswith('./'):
                    files[f][k] = 'p_in * 7'
            if attempt(files):
                ctx.hit('loaded_after_edit')
                return
        raise Violation('refused', 'still refused after every pointer was removed')


def shrinkable(sc):
    if sc['mode'] == 'long':
        return []
    if sc['mode'] == 'group':
        return [('body',), ('body', 'sub')]
    if sc['mode'] == 'pointer':
        return [('files',)]
    return [('entries',), ('tree',)] + [('tree', f) for f in sorted(sc['tree'])]
