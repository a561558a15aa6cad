"""C13: a config tells the truth about what it needs and what it has solved."""
import os

import numpy as np

from .. import confs, core, gen, model, obs, queries, sched, world
from ..core import Violation
from . import c09, c10

ID = 'C13'
TIERS = {'quick': {'runs': 1500, 'wall': 24}, 'thorough': {'runs': 70000, 'wall': 800}}
RULE = ('A run takes a generated config (every 47th run: a shipped one, every 149th: a chain of 3-125 entries) through 3-9 calls - input '
        'updates, clears, resets, complete, failing and interrupted evaluations - and after each call '
        'compares missing inputs, solvable, solved and entries to be solved with the reference model, the '
        'inputs and the outputs. Probes then leave out one reported name (evaluation has to be refused) '
        'and supply all of them (it has to complete). Non-trivial: a probe was made after a failed or '
        'interrupted call or with some inputs already given.')
STUBS = ['interrupts raised from sys.monitoring callbacks at lines of NRWAL code',
         'numeric and memory failures raised by an ndarray subclass at its n-th operation']
ASSUMPTIONS = ['inputs do not name constants of the config itself']


def generate(rng, tier, idx):
    if idx % 47 == 5:
        return {'shipped': rng.choice(c09.SHIPPED), 'seed': rng.randrange(10 ** 6),
                'drops': rng.randint(1, 3)}
    if idx % 149 == 20:
        n = rng.choice([rng.randint(3, 60), rng.randint(105, 125), rng.randint(105, 125)])
        return {'chain': n, 'order': rng.sample(range(n), n) if rng.random() < 0.3 else list(range(n))}
    sc = confs.scenario(rng)
    if rng.random() < 0.08:
        # falsy, but a name like any other (so is False, which a yaml file writes as "no")
        e = list(sc['entries'].items()) if rng.random() < 0.6 else []
        e.insert(rng.randint(0, len(e)), ('', rng.choice(['p_in * 2', 'q_in + 1', 'p_in', 'p_in - q_in'])))
        sc['entries'] = dict(e)
    mc = confs.model_of(sc)
    req, opt = confs.names_of(mc)
    n = sc['n']
    names = req + [o for o in opt if rng.random() < 0.3]
    # inputs named like a formula entry do not stand for its result
    names += [k for k in mc.formulas if rng.random() < 0.1]
    ops = []
    for _ in range(rng.randint(3, 9)):
        r = rng.random()
        if r < 0.3:
            op = {'op': 'eval', 'inp': confs.gen_input(rng, names, n, 0.6)}
            if rng.random() < 0.3:
                op['inp'] = c10.bad_input(rng, names, n)
        elif r < 0.5:
            op = {'op': 'set', 'inp': confs.gen_input(rng, names, n, 0.3)}
        elif r < 0.6:
            op = {'op': 'clear'}
        elif r < 0.68:
            op = {'op': 'reset', 'key': rng.choice([None, rng.choice(sorted(sc['entries'])),
                                                    'nothing'])}
        elif r < 0.72:
            op = {'op': 'defs', 'key': rng.choice(sorted(sc['entries'])),
                  'vars': gen.varfile(rng, gen.VARS + gen.INP, 1, 4)}
        elif r < 0.84:
            op = {'op': 'all_but_one', 'pick': rng.random(), 'frame': rng.random() < 0.3}
        else:
            op = {'op': 'supply', 'frame': rng.random() < 0.3, 'extra': rng.random() < 0.3}
        if op['op'] in ('eval', 'set') and rng.random() < 0.4:
            op['at'] = rng.choice([rng.randint(1, 60), rng.randint(1, 800), rng.randint(1, 4000),
                                   -rng.randint(1, 70)])
            op['exc'] = rng.choice(['KeyboardInterrupt', 'MemoryError'])
        ops.append(op)
    sc['ops'] = ops + [{'op': 'supply', 'frame': False, 'extra': False}]
    return sc


def frame(vals, is_frame, n):
    if not is_frame:
        return vals
    import pandas as pd
    return pd.DataFrame({k: np.full(n, v) for k, v in vals.items()})


def truth(cfg, mc, where):
    have = set(cfg.inputs)
    want = sorted(x for x in mc.required() if x not in have)
    if list(cfg.required_inputs) != mc.required():
        raise Violation('untruthful', '%s: required_inputs %s, expected %s' % (
            where, list(cfg.required_inputs), mc.required()))
    if list(cfg.missing_inputs) != want:
        raise Violation('untruthful', '%s: missing_inputs %s, expected %s' % (
            where, list(cfg.missing_inputs), want))
    if bool(cfg.solvable) != (not want):
        raise Violation('untruthful', '%s: solvable is %s with %s missing' % (
            where, cfg.solvable, want))
    c10.state(cfg, mc, where)
    return want


def execute(sc, ctx):
    if 'shipped' in sc:
        return shipped(sc, ctx)
    if 'chain' in sc:
        return chain(sc, ctx)
    sim = world.make(ctx, sc['tree'])
    try:
        cfg, mc = confs.build(sc, sim)
    except (model.Unclear, model.Cycle, KeyError):
        return
    truth(cfg, mc, 'new config')
    failed = False
    for j, op in enumerate(sc['ops']):
        k = op['op']
        where = 'call %d (%s)' % (j, k)
        m = sched.Meter(budget=world.BUDGET, at=op.get('at'),
                        exc=queries.EXCS[op.get('exc', 'KeyboardInterrupt')])
        exc = None
        missing = truth(cfg, mc, 'before ' + where)
        try:
            with m:
                if k in ('eval', 'set', 'clear', 'reset'):
                    arg = confs.to_input(op['inp']) if op.get('inp') else None
                    c10.act(cfg, op, arg)
                elif k == 'defs':
                    ent = dict(cfg.items()).get(op['key'])
                    if op['key'] in mc.formulas and hasattr(ent, 'full'):
                        ent.set_default_variables(dict(op['vars']))
                        mc.defs[op['key']].update(op['vars'])
                elif k == 'all_but_one':
                    drop = missing[int(op['pick'] * len(missing))] if missing else None
                    arg = frame({n: obs.probe(n) for n in missing if n != drop}, op['frame'], sc['n'])
                    cfg.evaluate(arg)
                else:
                    arg = obs.env_of(missing)
                    if op['extra']:
                        arg['unused_name'] = 1.0
                    cfg.evaluate(frame(arg, op['frame'], sc['n']))
        except (Exception, KeyboardInterrupt) as e:
            exc = e
        except sched.SimAbort:
            raise Violation('hang', '%s does not end' % where)
        ctx.steps += m.n
        ctx.ev(k, j, type(exc).__name__, m.fired)
        after = truth(cfg, mc, where)
        if m.fired:
            ctx.hit('interrupted_' + k)
        if k == 'reset' and exc is None:
            gone = mc.formulas if op['key'] is None else [op['key']] if op['key'] in mc.formulas else []
            if any(x not in cfg.to_be_solved for x in gone):
                raise Violation('untruthful', '%s: the result of %s was discarded, but entries to be '
                                'solved are %s' % (where, gone, list(cfg.to_be_solved)))
        if k == 'all_but_one' and missing:
            if exc is None:
                raise Violation('not_refused', '%s: evaluation completed although %s is missing and '
                                'was reported as missing' % (where, drop))
            ctx.hit('probe_refused')
            if failed or len(missing) < len(mc.required()):
                ctx.hit('nontrivial')
        elif k in ('supply', 'all_but_one'):
            poison = any(confs.is_poison(v) or isinstance(v, queries.FaultArray) or
                         np.ndim(v) == 1 and len(v) != sc['n'] for v in cfg.inputs.values())
            if exc is not None and not poison and confs.finite(mc, cfg.inputs):
                raise Violation('refused', '%s: all reported inputs were supplied, but the evaluation '
                                'failed: %s: %s' % (where, type(exc).__name__, str(exc)[:300]))
            if exc is None and not cfg.solved:
                raise Violation('untruthful', '%s: completed but not solved' % where)
            ctx.hit('probe_supplied')
            if failed or len(missing) < len(mc.required()):
                ctx.hit('nontrivial')
        elif k == 'eval' and exc is None and (after or not cfg.solved):
            raise Violation('untruthful', '%s: completed with %s missing' % (where, after))
        failed = failed or exc is not None


def chain(sc, ctx):
    """Many entries, each waiting for the next through a variable of a library formula."""
    n = sc['chain']
    sim = world.make(ctx, {'lib/form.json': {'f%d' % i: 'c%d + q' % (i + 1) if i + 1 < n else 'p_in * 2'
                                             for i in range(n)}})
    cfg = world.api()[0](dict({'c%d' % i: 'form::f%d' % i for i in sc['order']},
                              equation_directory=sim.root + '/lib'))
    names = ['c%d' % i for i in sc['order']]
    if sorted(cfg.missing_inputs) != ['p_in', 'q'] or cfg.solvable or cfg.solved or \
            sorted(cfg.to_be_solved) != sorted(names):
        raise Violation('untruthful', 'new chain of %d: missing %s, to be solved %s' % (
            n, cfg.missing_inputs, cfg.to_be_solved))
    r = obs.call(cfg.evaluate, {'p_in': 3.0})
    if r[0] == 'ok' or list(cfg.missing_inputs) != ['q'] or cfg.solved:
        raise Violation('not_refused', 'chain of %d without q: %s' % (n, r[0]))
    try:
        out = cfg.evaluate({'q': 1.0})
    except Exception as e:
        raise Violation('refused', 'chain of %d: all reported inputs were supplied, but the evaluation '
                        'failed: %s: %s' % (n, type(e).__name__, str(e)[:300]))
    if not cfg.solved or cfg.to_be_solved or sorted(out) != sorted(names) or out['c0'] != 6.0 + n - 1:
        raise Violation('untruthful', 'chain of %d completed: solved %s, to be solved %s, %s' % (
            n, cfg.solved, cfg.to_be_solved, out.get('c0')))
    cfg.reset_output('c%d' % (n // 2))
    if cfg.solved or list(cfg.to_be_solved) != ['c%d' % (n // 2)]:
        raise Violation('untruthful', 'chain after a reset: %s' % cfg.to_be_solved)
    ctx.hit('chain')
    ctx.hit('nontrivial')
    ctx.ev('chain', n)


def shipped(sc, ctx):
    r = np.random.RandomState(sc['seed'])
    cfg = world.api()[0](os.path.join(core.REPO, 'NRWAL', 'default_configs', sc['shipped']))
    req = list(cfg.required_inputs)
    if list(cfg.missing_inputs) != sorted(req) or cfg.solvable or cfg.solved:
        raise Violation('untruthful', '%s: new config: missing %s, required %s, solvable %s, solved %s'
                        % (sc['shipped'], cfg.missing_inputs, req, cfg.solvable, cfg.solved))
    for _ in range(sc['drops']):
        drop = req[r.randint(len(req))]
        cfg.inputs = None
        got = obs.call(cfg.evaluate, {k: np.array([2.0, 3.0]) for k in req if k != drop})
        if got[0] == 'ok' or list(cfg.missing_inputs) != [drop] or cfg.solvable or cfg.solved:
            raise Violation('not_refused', '%s without %s: %s, missing %s' % (
                sc['shipped'], drop, got[0], cfg.missing_inputs))
        ctx.hit('shipped_refused')
    cfg.evaluate({drop: np.array([2.0, 3.0])})
    if not cfg.solved or not cfg.solvable or cfg.missing_inputs or cfg.to_be_solved:
        raise Violation('untruthful', '%s: after a complete evaluation: %s %s %s' % (
            sc['shipped'], cfg.solved, cfg.missing_inputs, cfg.to_be_solved))
    ctx.hit('nontrivial')
    ctx.ev('shipped', sc['shipped'], core.digest(obs.norm(dict(cfg.outputs))))


def shrinkable(sc):
    if 'shipped' in sc or 'chain' in sc:
        return []
    out = [('ops',), ('entries',), ('tree',)] + [('tree', f) for f in sorted(sc['tree'])]
    for i, o in enumerate(sc['ops']):
        if o.get('inp') and isinstance(o['inp'].get('vals'), dict):
            out.append(('ops', i, 'inp', 'vals'))
    return out
