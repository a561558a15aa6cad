"""C09: a completed config evaluation reflects the inputs in force."""
import copy
import os

import numpy as np

from .. import confs, core, gen, model, obs, sched, world
from ..core import Violation

ID = 'C09'
TIERS = {'quick': {'runs': 1300, 'wall': 24}, 'thorough': {'runs': 60000, 'wall': 800}}
RULE = ('A run builds a config over a generated library (or, every 43rd run, loads a shipped default '
        'config) and performs 4-12 operations: input updates by dictionary, DataFrame or item, clears, '
        'evaluations with and without inputs, output resets, failing evaluations. Every completed '
        'evaluation is compared with the reference arithmetic for the inputs in force (shipped configs: '
        'with a fresh config given those inputs at once), and every earlier result with what it was. '
        'Non-trivial: a completed evaluation was preceded by another one with other inputs.')
STUBS = ['disk: real files behind wrapped calls']
ASSUMPTIONS = ['inputs do not name constants of the config that its own expressions use',
               'values are compared within an error bound for single precision arithmetic, because '
               'array inputs are converted to float32']

SHIPPED = ['marine_energy/rm1.yaml', 'marine_energy/rm5.yaml',
           'hydrogen/wind_lcoh_using_rate.yaml', 'hydrogen/solar_lcoh_using_curve.yaml']


def generate(rng, tier, idx):
    if idx % 43 == 7:
        sc = {'shipped': rng.choice(SHIPPED), 'n': rng.randint(1, 3)}
        req, opt, shadow, consts = ['?'], [], [], []
    else:
        sc = confs.scenario(rng)
        mc = confs.model_of(sc)
        req, opt = confs.names_of(mc)
        lib = [n for n in req + opt if n in gen.VARS]
        if lib and rng.random() < 0.15:
            # a constant named like a variable of a library formula; an input of that name wins
            new = dict(sc, entries=dict(sc['entries'], **{rng.choice(lib): rng.choice([5, 0.5, '8'])}))
            try:
                m2 = confs.model_of(new)
                if m2.formulas and m2.order_ok():
                    sc, mc = new, m2
                    req, opt = confs.names_of(mc)
            except (model.Cycle, model.Unclear, SyntaxError, KeyError):
                pass
        shadow = confs.shadows(sc, mc)
        consts = [k for k in shadow if k in mc.consts]
        if consts and rng.random() < 0.5:
            shadow = consts
    ops = []

    def inp(full):
        if 'shipped' in sc:
            return {'seed': rng.randrange(1000), 'part': full < rng.random(),
                    'frame': rng.random() < 0.3}
        names = req + [o for o in opt if rng.random() < 0.3] + (['unused'] if rng.random() < 0.1
                                                                else [])
        if shadow and rng.random() < (0.3 if consts else 0.15):
            names = names + [rng.choice(shadow)]
        return confs.gen_input(rng, names, sc['n'], full)
    for _ in range(rng.randint(4, 12)):
        r = rng.random()
        if r < 0.5:
            ops.append({'op': 'eval', 'inp': inp(0.6) if rng.random() < 0.75 else None})
            if rng.random() < 0.3:
                ops[-1]['own'] = True
        elif r < 0.72:
            ops.append({'op': 'set', 'inp': inp(0.4)})
        elif r < 0.8:
            ops.append({'op': 'clear'})
        elif r < 0.86 and 'shipped' not in sc and req:
            ops.append({'op': 'item', 'key': rng.choice(req), 'val': confs.spec_value(rng, sc['n'])})
        elif r < 0.9 and 'shipped' not in sc and req:
            ops.append({'op': rng.choice(['poke', 'poke', 'drop', 'update']), 'key': rng.choice(req),
                        'val': float(rng.randint(1, 9)), 'inp': confs.gen_input(rng, req, sc['n'], 0.3)})
            if rng.random() < 0.7:
                ops.append({'op': 'eval', 'inp': None})
        elif r < 0.95:
            ops.append({'op': 'reset', 'key': rng.choice([None, None, rng.choice(
                sorted(sc.get('entries', {'x': 1})))])})
        else:
            ops.append({'op': 'look'})
    sc['ops'] = ops
    return sc


def execute(sc, ctx):
    if 'shipped' in sc:
        return shipped(sc, ctx)
    sim = world.make(ctx, sc['tree'])
    try:
        cfg, mc = confs.build(sc, sim)
    except (model.Unclear, model.Cycle, KeyError):
        return
    inputs = {}
    kept = []                       # (returned dict, snapshot)
    own = {}
    done = 0
    for j, op in enumerate(sc['ops']):
        k = op['op']
        ctx.ev('op', j, k)
        if k == 'set':
            cfg.inputs = confs.to_input(op['inp'])
            confs.merge(inputs, op['inp'])
        elif k == 'item':
            cfg.inputs[op['key']] = confs.to_value(op['val'])
            inputs[op['key']] = confs.to_value(op['val'])
        elif k == 'drop':
            # the documented way to reach single inputs is the inputs dictionary
            cfg.inputs.pop(op['key'], None)
            inputs.pop(op['key'], None)
        elif k == 'update':
            new = {n: v for n, v in op['inp']['vals'].items() if not isinstance(v, (list, dict))}
            cfg.inputs.update({n: confs.to_value(v) for n, v in new.items()})
            inputs.update({n: confs.to_value(v) for n, v in new.items()})
        elif k == 'poke':
            # change the array of an input in place; results may be that very array
            if isinstance(cfg.inputs.get(op['key']), np.ndarray) and cfg.inputs[op['key']].ndim:
                cfg.inputs[op['key']][0] = op['val']
                inputs[op['key']] = np.array(cfg.inputs[op['key']])
                kept = [(d, obs.norm(d)) for d, _ in kept]
                ctx.hit('poked')
        elif k == 'clear':
            cfg.inputs = None
            inputs = {}
        elif k == 'reset':
            if op['key'] is None:
                cfg.reset_output()
            else:
                cfg.reset_output(op['key'])
            kept = [(d, obs.norm(d)) for d, _ in kept]
        elif k == 'look':
            str(cfg), cfg.required_inputs, cfg.solved, cfg.all_variables
        else:
            if op['inp'] is not None:
                confs.merge(inputs, op['inp'])
            missing = [n for n in mc.required() if n not in inputs]
            try:
                if op['inp'] is None:
                    out = cfg.evaluate()
                else:
                    arg = confs.to_input(op['inp'])
                    if op.get('own') and isinstance(arg, dict):
                        # the caller keeps its arrays and fills them with new values for each call
                        for n, v in arg.items():
                            if isinstance(v, np.ndarray) and n in own and own[n].dtype == v.dtype:
                                own[n][...] = v
                                arg[n] = own[n]
                                ctx.hit('caller_array_reused')
                            elif isinstance(v, np.ndarray):
                                own[n] = v
                    out = cfg.evaluate(arg)
            except Exception as e:
                if not missing and confs.finite(mc, inputs):
                    raise Violation('refused', 'evaluation with inputs %s failed: %s: %s' % (
                        obs.norm(inputs), type(e).__name__, str(e)[:300]))
                ctx.hit('eval_refused')
                out = None
            for d, snap in kept:
                if d is not out and obs.norm(d) != snap:
                    raise Violation('result_altered', 'a result returned earlier was altered by a '
                                    'later evaluation: %s' % obs.diff(snap, obs.norm(d)))
            if out is None:
                continue
            if missing:
                raise Violation('not_refused', 'evaluation completed without the inputs %s' % missing)
            if not confs.finite(mc, inputs):
                continue
            confs.check_outputs(mc, out, inputs, 'evaluation %d' % j)
            confs.check_outputs(mc, cfg.outputs, inputs, 'outputs after evaluation %d' % j)
            for e in mc.formulas:
                if obs.norm(cfg[e]) != obs.norm(out[e]):
                    raise Violation('wrong_value', 'config["%s"] is %r after the evaluation, the '
                                    'result is %r' % (e, cfg[e], out[e]))
            ctx.ev('out', core.digest(obs.norm(dict(out))))
            ctx.hit('eval_ok')
            done += 1
            if any(d is out for d, _ in kept):
                raise Violation('result_altered', 'two evaluations returned the same object')
            kept.append((out, obs.norm(out)))
            if done > 1:
                ctx.hit('nontrivial')


_REQ = {}


def shipped(sc, ctx):
    NrwalConfig = world.api()[0]
    path = os.path.join(core.REPO, 'NRWAL', 'default_configs', sc['shipped'])
    cfg = NrwalConfig(path)
    req = list(cfg.required_inputs)
    inputs = {}

    def arg(spec):
        import pandas as pd
        r = np.random.RandomState(spec['seed'])
        names = [n for n in req if not (spec['part'] and r.rand() < 0.4)]
        vals = {n: r.randint(1, 50, sc['n']).astype(float) for n in names}
        return vals, (pd.DataFrame(vals) if spec['frame'] else
                      {k: v.copy() for k, v in vals.items()})
    done = 0
    for j, op in enumerate(sc['ops']):
        if op['op'] == 'clear':
            cfg.inputs = None
            inputs = {}
        elif op['op'] == 'reset':
            cfg.reset_output()
        elif op['op'] in ('set', 'eval'):
            a = None
            if op.get('inp') is not None:
                vals, a = arg(op['inp'])
                inputs.update(vals)
            if op['op'] == 'set':
                cfg.inputs = a
                continue
            out = obs.nval(obs.call(cfg.evaluate, a) if a is not None else obs.call(cfg.evaluate))
            twin = NrwalConfig(path, inputs={k: v.copy() for k, v in inputs.items()})
            want = obs.nval(obs.call(twin.evaluate))
            if out != want:
                raise Violation('wrong_value', '%s, evaluation %d differs from a fresh config with '
                                'the same inputs: %s' % (sc['shipped'], j, obs.diff(out, want)))
            ctx.hit('shipped_eval_' + out[0])
            done += out[0] == 'ok'
            if done > 1:
                ctx.hit('nontrivial')


def shrinkable(sc):
    out = [('ops',)]
    if 'tree' in sc:
        out += [('entries',), ('tree',)] + [('tree', f) for f in sorted(sc['tree'])]
    for i, o in enumerate(sc['ops']):
        if o.get('inp') and 'vals' in o['inp']:
            out.append(('ops', i, 'inp', 'vals'))
    return out
