"""C07: queries leave no trace, even when they fail or are interrupted."""
import numpy as np

from .. import core, gen, model, obs, queries, sched, world
from ..core import Violation
from . import c05, c06

ID = 'C07'
TIERS = {'quick': {'runs': 1300, 'wall': 24}, 'thorough': {'runs': 70000, 'wall': 800}}
RULE = ('A run makes 3-9 calls (retrieve, evaluate, print, list, combine, merge, with good, bad and '
        'failing arguments) on one loaded equation, group, directory or config; some calls are '
        'interrupted by KeyboardInterrupt or MemoryError at a seeded step, some fail inside the '
        'arithmetic. Every answer is compared with the answer of an untouched copy loaded from the same '
        'files, the whole object is compared with an untouched copy at the end, and arguments with '
        'their values before. Non-trivial: a call failed or was interrupted, or an answer was repeated.')
STUBS = ['interrupts raised from sys.monitoring callbacks at lines or bytecodes of NRWAL code',
         'numeric and memory failures raised by an ndarray subclass at its n-th operation']
ASSUMPTIONS = ['interrupts are delivered at line or bytecode boundaries of NRWAL code']


def config_query(rng, entries):
    k = rng.choice(['c_props', 'c_get', 'c_str', 'c_bad', 'c_eval', 'c_comb', 'c_attr'])
    q = {'q': k, 'key': rng.choice(sorted(entries))}
    if k in ('c_eval', 'c_comb'):
        q['key2'] = rng.choice(sorted(entries))
        q['over'] = queries.overrides(rng, gen.VARS + gen.INP + sorted(entries), 0.1, 0.15)
    if k == 'c_props':
        q['props'] = rng.sample(['inputs', 'outputs', 'global_variables', 'all_variables',
                                 'required_inputs', 'missing_inputs', 'solvable', 'solved',
                                 'to_be_solved'], 4)
    return q


def perform_config(o, q, args):
    k = q['q']
    if k == 'c_props':
        return tuple(obs.norm(getattr(o, p)) for p in q['props'])
    if k == 'c_get':
        return queries.what(o[q['key']]), queries.what(o.get(q['key'], 1)), q['key'] in list(o.keys())
    if k == 'c_attr':
        return queries.what(getattr(o, q['key']))
    if k == 'c_str':
        return str(o), o.head(3), o.tail(2), tuple(k for k, _ in o.items()), len(list(o.values()))
    if k == 'c_bad':
        return (obs.nval(obs.call(o.get, 'nothing', 5)), obs.nval(obs.call(getattr, o, 'nothing')),
                obs.nval(obs.call(lambda: o['nothing'])))
    if k == 'c_eval':
        return queries.ev(o[q['key']], q['over'], args)
    if k == 'c_comb':
        e = o[q['key']] * 2 + o[q['key2']]
        e.set_default_variables({'p': 77.0, 'depth': 55.0})
        return queries.what(e), queries.ev(e, q['over'], args)
    raise ValueError(k)


def generate(rng, tier, idx):
    sc = {'flags': {f: True for f in model.FLAGS if rng.random() < 0.35}}
    vars_ = None
    if rng.random() < 0.2:
        sc['kind'] = 'config'
        sc['tree'] = gen.config_tree(rng, 2)
        sc['flags'] = {}
        sc['entries'] = gen.valid_config(rng, sc['tree'], nmax=5)
        pool = [config_query(rng, sc['entries']) for _ in range(4)]
        make = lambda: config_query(rng, sc['entries'])
        sc['solve'] = rng.random() < 0.5
    else:
        sc['kind'] = 'lib'
        if idx % 41 == 3 and c06._LIB:
            sc['lib'] = rng.choice(sorted(c06._LIB))
            ps, vars_ = c06._LIB[sc['lib']]
            sc['root'] = []
        else:
            sc['tree'] = gen.tree(rng, maxdirs=2, maxfiles=2, junk=False)
            if rng.random() < 0.5:
                gen.add_family(rng, sc['tree'])
            ps = c05.paths(sc['tree'])
            kind = rng.choice(['dir', 'dir', 'group', 'eqn'])
            sc['root'] = rng.choice(sorted(p for p in ps if ps[p] == kind) or [()])
        root = tuple(sc['root'])
        if 'tree' in sc and rng.random() < 0.4:
            sc['own'] = c06.own_defaults(rng, ps, root)
        kinds = queries.swarm(rng)
        make = lambda: queries.one(rng, ps, root, fault=0.15, vars_=vars_, kinds=kinds)
        pool = [make() for _ in range(3)]
    ops = []
    for _ in range(rng.randint(3, 9)):
        op = {'query': rng.choice(pool) if rng.random() < 0.6 else make()}
        if rng.random() < 0.4:
            op['at'] = rng.choice([rng.randint(1, 30), rng.randint(1, 200), rng.randint(1, 1500),
                                   -rng.randint(1, 40), -rng.randint(1, 90)])
            op['exc'] = rng.choice(['KeyboardInterrupt', 'KeyboardInterrupt', 'MemoryError'])
        ops.append(op)
    sc['ops'] = ops
    sc['op'] = rng.random() < 0.25
    sc['err'] = rng.choice([None, None, None, 'raise', 'ignore'])
    return sc


prepare = c06.prepare


def fresh(sc, sim):
    if sc['kind'] == 'config':
        cfg = world.api()[0](world.subst_root(dict(sc['entries'], equation_directory='$ROOT'),
                                              sim.root))
        if sc['solve']:
            obs.call(cfg.evaluate, obs.env_of(cfg.required_inputs))
        return cfg
    return c06.fresh(sc, sim)


def ask(sc, o, q, args):
    if sc['kind'] == 'config':
        try:
            return ('ok', perform_config(o, q, args))
        except (Exception, KeyboardInterrupt) as e:
            return ('exc', type(e).__name__, queries._HEX.sub('0x', str(e))[:400])
    return queries.answer(o, q, args)


def execute(sc, ctx):
    sim = world.make(ctx, sc.get('tree', {}))
    if sc['err']:
        np.seterr(all=sc['err'])        # numeric error handling is the caller's choice
    try:
        o = fresh(sc, sim)
    except Exception:
        if 'lib' in sc:
            raise
        return
    seen = set()

    def untouched(q):
        p = fresh(sc, sim)
        return obs.any_obj(p) if q is None else ask(sc, p, q, [])
    # answers of untouched copies, each in a process in which nothing else was ever called
    if 'lib' in sc:
        wants = core.pure(lambda: [ask(sc, p, op['query'], []) for p in [fresh(sc, sim)]
                                   for op in sc['ops']])
    else:
        first = {str(op['query']): op['query'] for op in sc['ops']}
        first = {k: core.pure(lambda: untouched(q)) for k, q in first.items()}
        wants = [first[str(op['query'])] for op in sc['ops']]
    ref = core.pure(lambda: untouched(None))
    later = core.pure(lambda: use_on(sc, fresh(sc, sim)))
    state = core.process_state()
    cut = []
    sched.set_level(sc['op'])
    scale = 8 if sc['op'] else 1
    for i, op in enumerate(sc['ops']):
        q = op['query']
        args = []
        m = sched.Meter(at=op['at'] * scale if op.get('at') else None,
                        exc=queries.EXCS[op.get('exc', 'KeyboardInterrupt')])
        with m:
            got = ask(sc, o, q, args)
        ctx.steps += m.n
        c = queries.changed(args)
        if c:
            raise Violation('argument_changed', 'call %s: %s' % (q, c))
        now = core.process_state()
        if now != state:
            raise Violation('process_state', 'call %s (%s) changed %s' % (
                q, got[:2], [k for k in state if state[k] != now[k]]))
        ctx.ev('ans', i, q['q'], core.digest(got), m.fired)
        if m.fired:
            ctx.hit('interrupted_' + op['exc'])
            ctx.hit('nontrivial')
            cut.append(i)
            continue
        want = wants[i]
        if got != want:
            raise Violation('differs', 'call %d %s after %s: %s' % (
                i, q, [x['query']['q'] for x in sc['ops'][:i]], obs.diff(got, want) or (got, want)))
        ctx.hit('call_%s_%s' % (q['q'], got[0]))
        if got[0] == 'exc' or str(q) in seen:
            ctx.hit('nontrivial')
        seen.add(str(q))
    sched.set_level(False)
    for i in cut:                       # the interrupted calls once more, without an interrupt
        q = sc['ops'][i]['query']
        got = ask(sc, o, q, [])
        if got != wants[i]:
            raise Violation('differs', 'call %s, repeated after it was interrupted: %s' % (
                q, obs.diff(got, wants[i]) or (got, wants[i])))
    d = obs.diff(obs.any_obj(o), ref)
    if d:
        raise Violation('trace_left', 'object differs from an untouched one after %s: %s' % (
            [x['query'] for x in sc['ops']], d))
    d = obs.diff(use_on(sc, o), later)
    if d:
        raise Violation('trace_left', 'object differs from an untouched one after %s and an update: %s' % (
            [x['query'] for x in sc['ops']], d))


def use_on(sc, o):
    """What the object is like after an update: nothing of the queries shows up then either."""
    if sc['kind'] == 'config':
        out = obs.nval(obs.call(o.evaluate, obs.env_of(o.required_inputs)))
        return out, str(o), obs.any_obj(o)
    o.set_default_variables({v: 20.5 + i for i, v in enumerate(gen.VARS)})
    return obs.any_obj(o)


def shrinkable(sc):
    out = [('ops',)]
    if 'tree' in sc:
        out += [('tree',)] + [('tree', f) for f in sorted(sc['tree'])]
    if 'entries' in sc:
        out.append(('entries',))
    return out
