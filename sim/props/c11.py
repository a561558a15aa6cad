"""C11: configs are isolated from each other and from their source data."""
import copy
import os

import numpy as np

from .. import confs, core, gen, model, obs, sched, world
from ..core import Violation
from . import c03

ID = 'C11'
TIERS = {'quick': {'runs': 2400, 'wall': 80}, 'thorough': {'runs': 50000, 'wall': 800}}
RULE = ('A run builds 2-4 configs from one dictionary or file. Sequential runs interleave constructions, '
        'input updates, evaluations, resets and default updates of single entries; threaded runs build '
        'and evaluate in 2-4 threads under a seeded scheduler. Each config is compared with its own '
        'reference model, its printed form with that of a config built alone, sibling entries with what '
        'they were, and dictionaries, tables and arrays handed in with their values before. Non-trivial: '
        'two or more configs of one source were evaluated, or an entry was updated beside a sibling.')
STUBS = ['threads: real threads released one at a time by the seeded scheduler',
         'disk: real files behind wrapped calls']
ASSUMPTIONS = ['preemption happens at line or bytecode boundaries of NRWAL code',
               'one config object is used by one thread at a time']


PARENS = ['(p_in + q_in) * (price - 2) + (load / 4)', '((p_in * 2) + q_in) / (price + 1)',
          '2 * (p_in - 3) + np.maximum(p_in, q_in)', '(price - (load + (q_in * 2)))',
          'p_in - (q_in - (price - (load - 1))) * (p_in + 5)']


def generate(rng, tier, idx):
    sc = confs.scenario(rng, nmax=5)
    sc['mode'] = rng.choice(['seq', 'threads', 'threads'])
    if sc['mode'] == 'threads' and rng.random() < 0.5:
        # little else than parts in parentheses, of different depth and number
        sc['entries'] = {k: rng.choice(PARENS) for k in rng.sample(gen.CONF, rng.randint(1, 3))}
    if sc['mode'] == 'seq' and rng.random() < 0.02:
        # no equation_directory: the shipped library is the default
        sc['nodir'] = True
        sc['src'] = rng.choice(['dict', 'dict', 'yaml'])
        sc['entries'] = {k: rng.choice(PARENS) for k in rng.sample(gen.CONF, rng.randint(1, 3))}
    # entries that refer to the same formula or entry
    plain = [k for k in sorted(sc['entries']) if k not in confs.model_of(sc).groups]
    for i in range(rng.randint(0, 3)):
        base = rng.choice(plain)
        text = sc['entries'][base]
        new = 'dup_%d' % i
        sc['entries'][new] = text if isinstance(text, str) and '::' in text and rng.random() < 0.5 \
            else base
    if rng.random() < 0.5:
        items = list(sc['entries'].items())
        rng.shuffle(items)
        sc['entries'] = dict(items)
    mc = confs.model_of(sc)
    req, opt = confs.names_of(mc)
    n = sc['n']
    nc = rng.randint(2, 4)
    sc['nc'] = nc
    sc['rel'] = rng.random() < 0.4
    # a second config that shares names and texts with the first but gives some of them another meaning
    sc['alt'] = alternative(rng, sc, mc) if rng.random() < 0.5 and not sc.get('nodir') else None
    sc['which'] = [rng.randrange(2) if sc['alt'] else 0 for _ in range(nc)]
    if not sc.get('nodir') and rng.random() < 0.1:
        # formulas only, with the same text over different entries
        a, b, c = rng.sample(gen.CONF, 3)
        sc['entries'] = {a: rng.choice(['%s * 2 + %s', '%s - %s / 3', '%s + %s']) % (b, c)}
        sc['alt'] = dict(sc['entries'])
        for k in (b, c):
            t = rng.sample(['p_in + q_in', 'q_in - price', 'load * 5', 'p_in * price', 'q_in / 2'], 2)
            sc['entries'][k], sc['alt'][k] = t[0], rng.choice(t)
        if rng.random() < 0.5:
            sc['entries'] = dict(reversed(sc['entries'].items()))
        sc['which'] = [i % 2 for i in range(nc)]
        mc = confs.model_of(sc)
        req, opt = confs.names_of(mc)
    if sc['alt'] and rng.random() < 0.3:
        # over a library of its own with the same names
        for f in sorted(sc['tree']):
            d = sc['tree'][f]
            for _ in range(rng.randint(1, 4)):
                d = '__raw__' not in d and c03.tweak(rng, d) or d
            sc['tree']['lib2' + f[3:]] = d
        try:
            m = model_of(sc, 1)
            if not m.formulas or not m.order_ok():
                raise KeyError
        except (model.Cycle, model.Unclear, model.Reject, SyntaxError, KeyError):
            sc['tree'] = {f: d for f, d in sc['tree'].items() if f.startswith('lib/')}
    if sc['alt']:
        r2, o2 = confs.names_of(model_of(sc, 1))
        req, opt = sorted(set(req) | set(r2)), sorted(set(opt) | set(o2) - set(r2) - set(req))
        bad = set(sc['entries']) | set(sc['alt'])
        req, opt = [x for x in req if x not in bad], [x for x in opt if x not in bad]
    pool = req + [o for o in opt if rng.random() < 0.3]
    sc['inputs'] = [confs.gen_input(rng, pool, n, 1.0) for _ in range(rng.randint(1, 3))]
    for s in sc['inputs']:
        if rng.random() < 0.1 and s['as'] == 'dict' and s['vals']:
            s['vals'][rng.choice(sorted(s['vals']))] = {'$f32': [2.0] * (n - 1) + [float('nan')]}
        if rng.random() < 0.3:
            # data the config has no use for
            s['vals']['spare'] = [4.0] * (n - 1) + [float('nan')] if s['as'] == 'frame' else rng.choice(
                [{'$list': [1, 2.5, 3]}, {'$list': [1, 2]}, {'$tuple': [1, 2]}, {'$f32': [float('nan')]},
                 {'$f32': [2.0, float('inf'), -1.0]}, {'$f32': [float('-inf')]},
                 {'$int': [4, 5]}, {'$int': [[4, 5], [6, 7]]}])
    if sc['mode'] == 'seq':
        ops = []
        for _ in range(rng.randint(4, 12)):
            c = rng.randrange(nc)
            r = rng.random()
            if r < 0.4:
                ops.append({'op': 'eval', 'c': c, 'inp': rng.randrange(len(sc['inputs']))})
            elif r < 0.55:
                ops.append({'op': 'set', 'c': c, 'inp': rng.randrange(len(sc['inputs']))})
            elif r < 0.62:
                ops.append({'op': 'clear', 'c': c})
            elif r < 0.7:
                ops.append({'op': 'reset', 'c': c})
            elif r < 0.85:
                ops.append({'op': 'defs', 'c': c, 'key': rng.choice(sorted(sc['entries'])),
                            'vars': gen.varfile(rng, gen.VARS + gen.INP, 1, 3)})
            else:
                ops.append({'op': 'new', 'c': c, 'inp': rng.choice([None, 0])})
        sc['ops'] = ops
    else:
        sc['threads'] = [[rng.randrange(len(sc['inputs'])) for _ in range(rng.randint(1, 3))]
                         for _ in range(nc)]
        sc['prebuilt'] = rng.random() < 0.35
        sc['op'] = rng.random() < 0.06
        sc['policy'] = sched.gen_policy(rng, 'auto')
    return sc


def second(sc):
    return any(f.startswith('lib2/') for f in sc['tree'])


def model_of(sc, v):
    if not v:
        return confs.model_of(sc)
    tr = {'lib' + f[4:]: d for f, d in sc['tree'].items() if f.startswith('lib2/')}
    return confs.model_of(dict(sc, entries=sc['alt'], tree=tr or sc['tree']))


def alternative(rng, sc, mc):
    for _ in range(10):
        out = dict(sc['entries'])
        for k in rng.sample(sorted(out), rng.randint(1, max(1, len(out) // 2))):
            if k not in mc.groups:
                out[k] = rng.choice([5, 0.25, '8', 'p_in * 3', 'q_in + price', '2 * 7',
                                     rng.choice(list(out.values()))])
        if rng.random() < 0.3:
            out['only_here'] = rng.choice([3, 'p_in + q_in', rng.choice(sorted(sc['entries']))])
        try:
            m = confs.model_of(dict(sc, entries=out))
            if m.formulas and m.order_ok():
                return out
        except (model.Cycle, model.Unclear, SyntaxError, KeyError):
            pass
    return None


def frame_norm(x):
    if hasattr(x, 'columns'):
        return ('frame', tuple(x.columns), tuple(map(str, x.dtypes)), tuple(map(repr, x.index)),
                obs.norm(x.to_numpy()))
    if isinstance(x, dict):
        return tuple((k, type(v).__name__, repr(v) if isinstance(v, (list, tuple)) else obs.norm(v))
                     for k, v in x.items())
    return obs.norm(x)


def named(cfg, mc, where):
    for k in mc.formulas:
        s = str(cfg._config[k]) if hasattr(cfg, '_config') else str(cfg[k])
        if not s.startswith(k + '('):
            raise Violation('wrong_name', '%s: entry %s is printed as %s' % (where, k, s[:200]))


def execute(sc, ctx):
    NrwalConfig = world.api()[0]
    sim = world.make(ctx, sc['tree'])
    try:
        mcs = [confs.model_of(sc)]
        if sc['alt']:
            mcs.append(model_of(sc, 1))
    except (model.Unclear, model.Cycle, model.Reject, KeyError):
        return
    nv = len(mcs)
    base = sim.root if sc['src'] != 'dict' or not sc['rel'] else os.path.relpath(sim.root)
    sources_ = [dict(x, equation_directory=base + d) for x, d in (
        (sc['entries'], '/lib'), (sc['alt'], '/lib2' if second(sc) else '/lib'))[:nv]]
    if second(sc):
        ctx.hit('second_library')
    if sc.get('nodir'):
        for x in sources_:
            del x['equation_directory']
        ctx.hit('default_directory')
    keep_sources = copy.deepcopy(sources_)
    paths = [None] * nv
    if sc['src'] != 'dict':
        for v in range(nv):
            rel = 'configs/main%d.%s' % (v, sc['src'])
            sim.put(rel, gen.dump(rel, sources_[v]))
            paths[v] = os.path.join(sim.root, rel)
    args = [confs.to_input(s) for s in sc['inputs']]
    args_keep = [frame_norm(a) for a in args]
    which = [w if w < nv else 0 for w in sc['which']]

    def make(v, inp=None):
        src = paths[v] or sources_[v]
        return NrwalConfig(src) if inp is None else NrwalConfig(src, inputs=args[inp])

    def sources(where):
        for source, keep in zip(sources_, keep_sources):
            if repr(source) != repr(keep) or list(source) != list(keep):
                raise Violation('source_modified', '%s: the config dictionary was modified: %s -> %s' % (
                    where, keep, source))
        for a, k in zip(args, args_keep):
            if frame_norm(a) != k:
                raise Violation('source_modified', '%s: inputs handed to a config were modified: '
                                '%s -> %s' % (where, k, frame_norm(a)))

    # a config built from a private copy of the source, with no other config around
    def lone(v):
        sites = set()
        m = sched.Meter(world.BUDGET * 2, sites=sites)
        sched.set_level(sc.get('op', False))
        with m:
            c = NrwalConfig(paths[v] or copy.deepcopy(keep_sources[v]))
            text, req = str(c), list(c.required_inputs)
            if sc['mode'] == 'threads':
                for a in copy.deepcopy(args):
                    obs.call(c.evaluate, a)
        sched.set_level(False)
        return text, req, m.n * len(sc.get('threads', [1])), sorted(sites)
    # in processes of their own: they warm no cache of this one
    alone = [core.pure(lambda: lone(v)) for v in range(nv)]
    if sc['mode'] == 'threads':
        sched.fill_policy(sc['policy'], alone[0][2], alone[0][3])

    def whole(cfg, v, where):
        text, req = alone[v][:2]
        if str(cfg) != text or list(cfg.required_inputs) != req:
            raise Violation('not_isolated', '%s: printed form or required inputs differ from a config '
                            'built alone: %s' % (where, obs.diff((str(cfg),), (text,)) or
                                                 (list(cfg.required_inputs), req)))

    if sc['mode'] == 'threads':
        outs = {}
        built = [make(v) for v, _ in zip(which, sc['threads'])] if sc['prebuilt'] else None

        def body(i, seq):
            def run():
                try:
                    cfg = built[i] if built else make(which[i])
                    for n, a in enumerate(seq):
                        outs[i, n] = ('ok', dict(cfg.evaluate(args[a])))
                    outs[i] = cfg
                except Exception as e:
                    outs[i] = '%s: %s' % (type(e).__name__, str(e)[:300])
            return run
        sched.set_level(sc['op'])
        ts = sched.ThreadSim([body(i, s) for i, s in enumerate(sc['threads'])], sc['policy'],
                             budget=world.BUDGET * 2)
        with sim:
            ts.run()
        sched.set_level(False)
        ctx.steps += ts.steps
        ctx.sig = core.digest(ts.where)
        ctx.explicit = {'policy': {'kind': 'explicit', 'switches': ts.switches}}
        ctx.hit('preemptions', ts.preemptions)
        ctx.ev('sched', core.digest(ts.switches))
        if ts.abort:
            raise Violation('stuck', 'configs in threads do not end: %s' % ts.abort)
        if ts.errors:
            raise list(ts.errors.values())[0]
        sources('threads')
        for i, seq in enumerate(sc['threads']):
            mc0 = mcs[which[i]]
            if isinstance(outs[i], str):
                ok = all(confs.finite(mc0, confs.to_input(sc['inputs'][a])) and
                         all(r in sc['inputs'][a]['vals'] for r in mc0.required()) for a in seq)
                if ok:
                    raise Violation('failed_in_thread', 'thread %d: %s' % (i, outs[i]))
                continue
            inputs = {}
            for n, a in enumerate(seq):
                confs.merge(inputs, sc['inputs'][a])
                if confs.finite(mc0, inputs):
                    confs.check_outputs(mc0, outs[i, n][1], inputs, 'thread %d, evaluation %d'
                                        % (i, n), 'not_isolated')
                ctx.ev('out', i, n, core.digest(obs.norm(outs[i, n][1])))
                ctx.hit('thread_eval')
            whole(outs[i], which[i], 'thread %d' % i)
            named(outs[i], mc0, 'thread %d' % i)
        if ts.preemptions:
            ctx.hit('nontrivial')
        return

    cfgs = {}                       # c -> [real, model, inputs, touched]

    def get(c):
        if c not in cfgs:
            v = which[c]
            cfgs[c] = [make(v), copy.deepcopy(mcs[v]), {}, False]
            whole(cfgs[c][0], v, 'new config %d' % c)
            named(cfgs[c][0], mcs[v], 'new config %d' % c)
        return cfgs[c]
    evals = set()
    for j, op in enumerate(sc['ops']):
        ctx.ev('op', j, op['op'], op['c'])
        if op['op'] == 'new':
            v = which[op['c']]
            cfgs[op['c']] = [make(v, op['inp']), copy.deepcopy(mcs[v]), {}, False]
            if op['inp'] is not None:
                confs.merge(cfgs[op['c']][2], sc['inputs'][op['inp']])
            whole(cfgs[op['c']][0], v, 'new config %d' % op['c'])
            named(cfgs[op['c']][0], mcs[v], 'new config')
            sources('construction')
            continue
        st = get(op['c'])
        cfg, mc, inputs = st[:3]
        others = {c: obs.config(s[0]) for c, s in cfgs.items() if c != op['c']}
        where = 'operation %d %s' % (j, op)
        if op['op'] == 'set':
            cfg.inputs = args[op['inp']]
            confs.merge(inputs, sc['inputs'][op['inp']])
        elif op['op'] == 'clear':
            cfg.inputs = None
            inputs.clear()
        elif op['op'] == 'reset':
            cfg.reset_output()
        elif op['op'] == 'defs':
            cfg.reset_output()
            if op['key'] not in mc.entries:
                continue
            e = cfg[op['key']]
            sib = {k: obs.any_obj(v) for k, v in cfg.items() if k != op['key']}
            e.set_default_variables(dict(op['vars']))
            for k, v in cfg.items():
                if k != op['key'] and obs.any_obj(v) != sib[k]:
                    raise Violation('entries_shared', '%s changed the sibling entry %s: %s' % (
                        where, k, obs.diff(obs.any_obj(v), sib[k])))
            ctx.hit('entry_defaults')
            ctx.hit('nontrivial')
            st[3] = True
        else:
            confs.merge(inputs, sc['inputs'][op['inp']])
            r = obs.call(cfg.evaluate, args[op['inp']])
            missing = [x for x in mc.required() if x not in inputs]
            if not st[3] and not missing and confs.finite(mc, inputs):
                if r[0] != 'ok':
                    raise Violation('not_isolated', '%s failed: %s' % (where, r))
                confs.check_outputs(mc, r[1], inputs, where, 'not_isolated')
                ctx.ev('out', core.digest(obs.norm(r[1])))
                evals.add(op['c'])
                ctx.hit('eval')
                if len(evals) > 1:
                    ctx.hit('nontrivial')
        for c, s in cfgs.items():
            if c != op['c'] and obs.config(s[0]) != others[c]:
                raise Violation('not_isolated', '%s on config %d changed config %d: %s' % (
                    where, op['c'], c, obs.diff(obs.config(s[0]), others[c])))
        sources(where)


def shrinkable(sc):
    out = [('entries',), ('tree',)] + [('tree', f) for f in sorted(sc['tree'])]
    if sc['mode'] == 'seq':
        out.insert(0, ('ops',))
    else:
        out += [('threads',)] + [('threads', i) for i in range(len(sc['threads']))]
        if sc['policy']['kind'] == 'explicit':
            out.append(('policy', 'switches'))
    return out
