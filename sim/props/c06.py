"""C06: concurrent readers of shared library objects get the answers they get alone."""
import os

from .. import core, gen, model, obs, queries, sched, world
from ..core import Violation
from . import c05

ID = 'C06'
TIERS = {'quick': {'runs': 5000, 'wall': 70}, 'thorough': {'runs': 60000, 'wall': 800}}
RULE = ('A run shares one freshly loaded equation, group or directory (generated, or every 9th run the '
        'shipped library) between 2-4 threads making 2-5 calls each (retrieve, evaluate, print, list, '
        'combine, merge, failing calls) under a seeded scheduler that may preempt at every line or '
        'bytecode of NRWAL code. Each answer is compared with the one a separate copy gives with no '
        'other thread. Non-trivial: at least one preemption inside a call.')
STUBS = ['threads: real threads released one at a time by the seeded scheduler']
ASSUMPTIONS = ['preemption happens at line or bytecode boundaries of NRWAL code and of the formulas, '
               'not inside numpy or the standard library',
               'threads only read the shared objects; default updates are made on derived objects only']

_LIB = {}
SHIPPED = ['osw_2015', 'osw_2019', 'osw_2022', 'marine_energy', 'hydrogen']


def prepare():
    """Tree description of the shipped library parts (same in every run)."""
    base = os.path.join(core.REPO, 'NRWAL', 'analysis_library')
    for d in SHIPPED:
        if not os.path.isdir(os.path.join(base, d)):
            continue
        ps, vars_ = {(): 'dir'}, set()
        try:
            root = world.load('dir', os.path.join(base, d))
        except Exception:               # reported by the checks on loading
            continue

        def walk(o, pre):
            for k, v in o.items():
                if hasattr(v, 'full'):
                    ps[pre + (k,)] = 'eqn'
                    vars_.update(v.variables)
                elif hasattr(v, 'all_equations') and not hasattr(v, 'var_dict'):
                    ps[pre + (k,)] = 'dir' if type(v).__name__ == 'EquationDirectory' else 'group'
                    walk(v, pre + (k,))
        walk(root, ())
        _LIB[d] = (ps, sorted(vars_))


def generate(rng, tier, idx):
    sc = {'flags': {f: True for f in model.FLAGS if rng.random() < 0.35}}
    vars_ = None
    if idx % 9 == 3 and _LIB:
        sc['lib'] = rng.choice(sorted(_LIB))
        ps, vars_ = _LIB[sc['lib']]
    else:
        sc['tree'] = gen.tree(rng, maxdirs=2, maxfiles=2, junk=False)
        if rng.random() < 0.5:
            gen.add_family(rng, sc['tree'])
        ps = c05.paths(sc['tree'])
    r = rng.random()
    kind = 'dir' if r < 0.55 or 'lib' in sc else ('group' if r < 0.8 else 'eqn')
    c = sorted(p for p in ps if ps[p] == kind) if 'lib' not in sc else [()]
    sc['root'] = rng.choice(c or [()])
    root = tuple(sc['root'])
    if 'tree' in sc and rng.random() < 0.3:
        sc['own'] = own_defaults(rng, ps, root)
    nt = rng.choice([2, 2, 3, 4])
    kinds = queries.swarm(rng)
    if kinds and 'near' in kinds and rng.random() < 0.8:
        sc['flags'] = {f: True for f in model.FLAGS if rng.random() < 0.7}
    first = [queries.one(rng, ps, root, vars_=vars_, kinds=kinds) for _ in range(rng.randint(1, 3))]
    sc['threads'] = []
    focus = rng.random() < 0.25
    for _ in range(nt):
        if focus:                       # the same call on the same object with other arguments
            sc['threads'].append([queries.vary(rng, first[0], ps, root, vars_)
                                  for _ in range(rng.randint(1, 3))])
            continue
        qs = [rng.choice(first) if rng.random() < 0.5 else queries.one(rng, ps, root, vars_=vars_, kinds=kinds)
              for _ in range(rng.randint(1, 4))]
        sc['threads'].append(qs)
    sc['op'] = rng.random() < 0.3
    sc['policy'] = sched.gen_policy(rng, 'auto')
    return sc


def fresh(sc, sim):
    if 'lib' in sc:
        return world.load('dir', os.path.join(core.REPO, 'NRWAL', 'analysis_library', sc['lib']),
                          **sc['flags'])
    o = queries.at(world.load('dir', sim.root, **sc['flags']), sc['root'])
    for path, vals in sc.get('own', []):        # parts with default values of their own
        try:
            part = queries.at(o, path)
        except KeyError:                # shrunk away
            continue
        part.set_default_variables(dict(vals))
    return o


def own_defaults(rng, ps, root):
    """Formulas and groups below an object that get default values of their own."""
    c = sorted(p[len(root):] for p in ps if p[:len(root)] == root and len(p) > len(root) and ps[p] != 'dir')
    return [[list(rng.choice(c)), {v: rng.choice([0.0, 1.5, -2.0, 11.0])
                                   for v in rng.sample(gen.VARS, rng.randint(1, 3))}]
            for _ in range(rng.randint(1, 5))] if c else []


def execute(sc, ctx):
    sim = world.make(ctx, sc.get('tree', {}))
    try:
        shared = fresh(sc, sim)
    except Exception:
        if 'lib' in sc:
            raise
        return                          # shrunk away

    def lone():
        out = {}
        steps = 0
        sites = set()
        for i, qs in enumerate(sc['threads']):
            if 'lib' not in sc or i == 0:
                twin = fresh(sc, sim)
            sched.set_level(sc['op'])
            for j, q in enumerate(qs):
                m = sched.Meter(world.BUDGET, sites=sites)
                with m:
                    out[i, j] = queries.answer(twin, q)
                steps += m.n
            sched.set_level(False)
        return out, steps, sorted(sites)
    alone, steps, sites = core.pure(lone)      # in a process of its own: warms no cache of this one
    sched.fill_policy(sc['policy'], steps, sites)
    got = {}

    def body(i, qs):
        def run():
            for j, q in enumerate(qs):
                args = []
                got[i, j] = queries.answer(shared, q, args)
                c = queries.changed(args)
                if c:
                    got[i, j] = ('exc', 'ArgumentChanged', c)
        return run
    sched.set_level(sc['op'])
    ts = sched.ThreadSim([body(i, qs) for i, qs in enumerate(sc['threads'])], sc['policy'],
                         budget=world.BUDGET)
    ts.run()
    sched.set_level(False)
    ctx.steps += ts.steps
    ctx.sig = core.digest(ts.where)
    ctx.explicit = {'policy': {'kind': 'explicit', 'switches': ts.switches}}
    ctx.hit('preemptions', ts.preemptions)
    ctx.ev('sched', core.digest(ts.switches))
    if ts.abort:
        raise Violation('stuck', 'concurrent calls do not end: %s' % ts.abort)
    if ts.errors:
        raise list(ts.errors.values())[0]
    for (i, j), want in sorted(alone.items()):
        q = sc['threads'][i][j]
        ctx.hit('call_%s_%s' % (q['q'], want[0]))
        ctx.ev('ans', i, j, core.digest(got.get((i, j))))
        if got.get((i, j)) != want:
            raise Violation('differs', 'thread %d, call %s: %s' % (
                i, q, obs.diff(got.get((i, j)), want) or (got.get((i, j)), want)))
    if ts.preemptions:
        ctx.hit('nontrivial')


def shrinkable(sc):
    out = [('threads',)] + [('threads', i) for i in range(len(sc['threads']))]
    if sc['policy']['kind'] == 'explicit':
        out.append(('policy', 'switches'))
    if 'tree' in sc:
        out += [('tree',)] + [('tree', f) for f in sorted(sc['tree'])]
    return out
