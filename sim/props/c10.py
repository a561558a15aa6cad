"""C10: failed or interrupted config calls never corrupt the config."""
import numpy as np

from .. import confs, core, gen, model, obs, queries, sched, world
from ..core import Violation

ID = 'C10'
TIERS = {'quick': {'runs': 1500, 'wall': 24}, 'thorough': {'runs': 70000, 'wall': 800}}
RULE = ('A run performs 3-9 config calls (input updates, clears, evaluations, resets); most of them are '
        'interrupted by KeyboardInterrupt or MemoryError at a seeded step, fail inside the arithmetic at '
        'its n-th operation, or get bad inputs (wrong types, text, missing names, mismatched lengths, '
        'zeros). After each call the outputs must be explained by one single evaluation, the inputs by '
        'a complete update or none, and the solved state by the outputs; a last evaluation with good '
        'inputs must be exact. Non-trivial: a call failed or was interrupted.')
STUBS = ['interrupts raised from sys.monitoring callbacks at lines or bytecodes of NRWAL code',
         'numeric and memory failures raised by an ndarray subclass at its n-th operation']
ASSUMPTIONS = ['interrupts are delivered at line or bytecode boundaries of NRWAL code',
               'inputs do not name entries of the config itself']


def bad_input(rng, names, n):
    names = names or ['p']
    good = confs.gen_input(rng, names, n, 0.7)
    good['as'] = 'dict'
    r = rng.random()
    k = rng.choice(names)
    if r < 0.2:
        good['vals'][k] = rng.choice(['text', None, {'a': 1}])
    elif r < 0.3:
        return {'as': 'raw', 'vals': rng.choice([[1, 2], 'text', 7])}
    elif r < 0.4:
        good['vals'][k] = []                               # empty array
    elif r < 0.5:
        good['vals'][k] = [1.0] * (n + 1)                  # other length
    elif r < 0.6:
        return {'as': 'frame', 'vals': {x: ['a'] * n if x == k else [2.0] * n for x in names}}
    elif r < 0.7:
        good['vals'][k] = rng.choice([0.0, 0, [0.0] * n])
    elif r < 0.8:
        good['vals'] = {x: v for x, v in good['vals'].items() if x != k}
    else:
        good['vals'][k] = {'$fault': rng.randint(0, 6), 'data': [float(rng.randint(1, 9))
                                                                for _ in range(n)],
                           'exc': rng.choice(['MemoryError', 'FloatingPointError',
                                              'KeyboardInterrupt'])}
    items = list(good['vals'].items())
    rng.shuffle(items)
    good['vals'] = dict(items)
    return good


def generate(rng, tier, idx):
    sc = confs.scenario(rng)
    mc = confs.model_of(sc)
    req, opt = confs.names_of(mc)
    n = sc['n']
    names = req + [o for o in opt if rng.random() < 0.3]
    ops = []
    if rng.random() < 0.8:
        ops.append({'op': 'eval', 'inp': confs.gen_input(rng, names, n, 1.0)})
    for _ in range(rng.randint(2, 8)):
        r = rng.random()
        if r < 0.6:
            op = {'op': 'eval', 'inp': confs.gen_input(rng, names, n, 0.8)
                  if rng.random() < 0.8 else None}
        elif r < 0.85:
            op = {'op': 'set', 'inp': confs.gen_input(rng, names, n, 0.5)}
        elif r < 0.93:
            op = {'op': 'clear'}
        else:
            op = {'op': 'reset', 'key': rng.choice([None, rng.choice(sorted(sc['entries']))])}
        if op.get('inp') and rng.random() < 0.4:
            op['inp'] = bad_input(rng, names, n)
        if rng.random() < 0.55:
            if rng.random() < 0.3:
                op['at'] = rng.choice([rng.randint(1, 12), rng.randint(1, 60), -rng.randint(1, 70)])
            else:
                op['frac'] = rng.random()
            op['exc'] = rng.choice(['KeyboardInterrupt', 'KeyboardInterrupt', 'MemoryError'])
        ops.append(op)
    sc['ops'] = ops
    sc['final'] = {'as': 'dict', 'vals': {k: confs.spec_value(rng, n) for k in req + opt}}
    sc['op'] = rng.random() < 0.25
    return sc


def state(cfg, mc, where):
    """What the config says about itself agrees with its outputs."""
    outs = dict(cfg.outputs)
    todo = [k for k in mc.formulas if outs.get(k) is None]
    if list(cfg.to_be_solved) != todo:
        raise Violation('untruthful', '%s: to_be_solved is %s, entries without a value are %s' % (
            where, list(cfg.to_be_solved), todo))
    if bool(cfg.solved) != (not todo):
        raise Violation('untruthful', '%s: solved is %s with %s without a value' % (
            where, cfg.solved, todo))
    return outs


def snap(outs):
    return {k: obs.norm(np.asarray(v) if isinstance(v, np.ndarray) else v) for k, v in outs.items()}


def act(cfg, op, arg):
    if op['op'] == 'eval':
        return cfg.evaluate(arg) if op.get('inp') else cfg.evaluate()
    if op['op'] == 'reset':
        return cfg.reset_output() if op['key'] is None else cfg.reset_output(op['key'])
    cfg.inputs = arg


def execute(sc, ctx):
    sim = world.make(ctx, sc['tree'])
    try:
        cfg, mc = confs.build(sc, sim)
    except (model.Unclear, model.Cycle, KeyError):
        return
    inputs = {}
    kept = []
    before_out = {}
    for j, op in enumerate(sc['ops'] + [{'op': 'eval', 'inp': sc['final'], 'final': True}]):
        k = op['op']
        where = 'call %d (%s)' % (j, k)
        final = op.get('final')
        if final:
            sched.set_level(False)
        else:
            sched.set_level(sc['op'])
        spec = op.get('inp')
        arg = confs.to_input(spec) if spec else None
        new = dict(inputs)
        rejected = False
        if k == 'clear':
            new = {}
        elif spec and spec['as'] == 'raw':
            rejected = True
        elif spec:
            for a, v in spec['vals'].items():
                v = confs.to_input({'as': spec['as'], 'vals': {a: v}})
                new[a] = v[a] if spec['as'] == 'dict' else v[a].values
        at = op.get('at')
        if 'frac' in op:                # where the call can be interrupted: count on a twin
            twin = confs.build(sc, sim)[0]
            twin.inputs = {k: v for k, v in inputs.items() if not confs.is_poison(v)}
            cm = sched.Meter(budget=world.BUDGET)
            try:
                with cm:
                    act(twin, op, confs.to_input(spec) if spec else None)
            except (Exception, KeyboardInterrupt, sched.SimAbort):
                pass
            at = 1 + int(op['frac'] * cm.n)
        m = sched.Meter(budget=world.BUDGET, at=at,
                        exc=queries.EXCS[op.get('exc', 'KeyboardInterrupt')])
        out, exc = None, None
        keys_before = snap(before_out)
        try:
            with m:
                out = act(cfg, op, arg)
        except (Exception, KeyboardInterrupt) as e:
            exc = e
        except sched.SimAbort:
            raise Violation('hang', '%s does not end' % where)
        ctx.steps += m.n
        ctx.ev(k, j, type(exc).__name__, m.fired)
        if m.fired:
            ctx.hit('interrupted_%s_%s' % (k, op['exc']))
        if exc is not None:
            ctx.hit('failed_' + k)
            ctx.hit('nontrivial')
        # inputs: complete update or none
        have = confs.plain_inputs(cfg.inputs)
        full, old = confs.plain_inputs(new), confs.plain_inputs(inputs)
        if have == full and not (rejected and full != old):
            inputs = new
        elif have == old and (exc is not None):
            pass
        else:
            raise Violation('inputs_torn', '%s: inputs are %s; before %s, update %s (%s)' % (
                where, have, old, full, type(exc).__name__))
        outs = state(cfg, mc, where)
        sn = snap(outs)
        # results returned earlier stay as they were
        for d, s in kept:
            if d is not cfg.outputs and d is not out and snap(d) != s:
                raise Violation('result_altered', '%s altered a result returned before' % where)
        if k == 'reset':
            want = dict(keys_before)
            if op['key'] is None:
                want = {}
            else:
                want.pop(op['key'], None)
            if sn != want and not (exc is not None and sn == keys_before):
                raise Violation('outputs_torn', '%s: outputs %s' % (where, sorted(sn)))
        elif k != 'eval':
            if sn != keys_before and sn:
                raise Violation('outputs_torn', '%s: outputs changed from %s to %s' % (
                    where, sorted(keys_before), sorted(sn)))
        elif exc is None:
            missing = [x for x in mc.required() if x not in inputs]
            if missing:
                raise Violation('not_refused', '%s completed without the inputs %s' % (
                    where, missing))
            bad = [x for x in mc.formulas if x not in out]
            if bad:
                raise Violation('incomplete', '%s returned without a value for %s' % (where, bad))
            t = confs.explain(mc, out, inputs) or confs.explain(mc, outs, inputs)
            if t:
                raise Violation('wrong_value', '%s: %s' % (where, t))
            ctx.hit('eval_ok')
            kept.append((out, snap(out)))
        else:
            # one evaluation only: what was there before, or values for the inputs of this call
            if final and confs.finite(mc, inputs):
                raise Violation('not_recovered', 'evaluation with good inputs failed after %s: %s: %s'
                                % ([o['op'] for o in sc['ops']], type(exc).__name__, str(exc)[:300]))
            if sn == keys_before:
                pass
            else:
                t = confs.explain(mc, outs, inputs)
                if t:
                    raise Violation('outputs_torn', '%s failed (%s) and left outputs that no single '
                                    'evaluation explains: %s' % (where, type(exc).__name__, t))
                ctx.hit('partial_outputs' if outs else 'emptied_outputs')
        before_out = outs
        kept = [(d, snap(d)) if d is cfg.outputs else (d, s) for d, s in kept]


def shrinkable(sc):
    out = [('ops',), ('entries',), ('tree',)] + [('tree', f) for f in sorted(sc['tree'])]
    for i, o in enumerate(sc['ops']):
        if o.get('inp') and isinstance(o['inp'].get('vals'), dict):
            out.append(('ops', i, 'inp', 'vals'))
    return out
