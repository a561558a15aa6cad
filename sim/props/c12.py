"""C12: a restored copy is equivalent to, and independent of, the original."""
import copy
import os
import pickle
import shutil

from .. import confs, core, gen, hashchild, model, obs, queries, sched, world
from ..core import Violation
from . import c04, c05

ID = 'C12'
TIERS = {'quick': {'runs': 600, 'wall': 24}, 'thorough': {'runs': 40000, 'wall': 800}}
RULE = ('A run takes an equation, group, directory or config through 3-9 operations (default and input '
        'updates, evaluations, interrupted evaluations, derivations, prints) and copies or pickles it at '
        'random points. Every copy is compared with the original at that point, and again after later '
        'operations on either side; the stored bytes are also restored in a fresh interpreter with '
        'another hash seed after the library files are gone (every 37th run, and in one run with the '
        'shipped library). Non-trivial: a copy was compared after an operation on the other side.')
STUBS = ['disk: real files behind wrapped calls', 'interrupts raised from sys.monitoring callbacks',
         'process crash: the original is dropped and a new interpreter reads the stored bytes']
ASSUMPTIONS = ['copies are taken between calls, not while another thread is inside one']


def generate(rng, tier, idx):
    sc = {'child': idx % 37 == 11, 'hash': rng.randrange(1, 4000)}
    ops = []
    n = rng.randint(3, 9)
    if rng.random() < 0.5:
        sc.update(confs.scenario(rng, nmax=5))
        sc['kind'] = 'config'
        mc = confs.model_of(sc)
        req, opt = confs.names_of(mc)
        names = req + opt[:2]
        for _ in range(n):
            r = rng.random()
            if r < 0.3:
                op = {'op': 'eval', 'inp': confs.gen_input(rng, names, sc['n'], 0.8)}
                if rng.random() < 0.3:
                    op['at'] = rng.choice([rng.randint(1, 50), rng.randint(1, 1500), -rng.randint(1, 50)])
            elif r < 0.45:
                op = {'op': 'inputs', 'inp': confs.gen_input(rng, names, sc['n'], 0.4)}
            elif r < 0.5:
                op = {'op': 'clear'}
            elif r < 0.55:
                op = {'op': 'reset', 'key': rng.choice([None] + sorted(sc['entries']))}
            elif r < 0.68:
                op = {'op': 'set', 'path': [rng.choice(sorted(sc['entries']))],
                      'vars': gen.varfile(rng, gen.VARS)}
            else:
                op = {'op': 'snap', 'how': rng.choice(['deep', 'pickle2', 'pickle4', 'pickle5'])}
            ops.append(op)
    else:
        sc['kind'] = 'lib'
        sc['tree'] = {'lib/' + k: v for k, v in gen.tree(rng, 2, 2, junk=False).items()}
        sc['flags'] = {f: True for f in model.FLAGS if rng.random() < 0.3}
        ps = c05.paths({k[4:]: v for k, v in sc['tree'].items()})
        kind = rng.choice(['dir', 'dir', 'group', 'eqn'])
        sc['root'] = rng.choice(sorted(p for p in ps if ps[p] == kind) or [()])
        root = tuple(sc['root'])
        sub = sorted(p[len(root):] for p in ps if p[:len(root)] == root)
        for _ in range(n):
            r = rng.random()
            if r < 0.35:
                op = {'op': 'set', 'path': rng.choice(sub), 'vars': gen.varfile(rng, gen.VARS)}
            elif r < 0.6:
                op = {'op': 'query', 'query': queries.one(rng, ps, root)}
                if rng.random() < 0.3:
                    op['at'] = rng.randint(1, 60)
            elif r < 0.66:
                op = {'op': 'derive'}
            else:
                op = {'op': 'snap', 'how': rng.choice(['deep', 'pickle2', 'pickle4', 'pickle5'])}
            ops.append(op)
    for o in ops:
        o['side'] = rng.choice(['orig', 'orig', 'copy'])
    ops.insert(rng.randint(0, len(ops)), {'op': 'snap', 'how': rng.choice(['deep', 'pickle4']),
                                          'side': rng.choice(['orig', 'copy'])})
    sc['ops'] = ops
    sc['gone'] = rng.random() < 0.5
    if idx % 37 == 11 and rng.random() < 0.3:
        sc['shipped'] = 'hydrogen/wind_lcoh_using_rate.yaml'
    return sc


def dup(o, how):
    try:
        if how == 'deep':
            return copy.deepcopy(o)
        return pickle.loads(pickle.dumps(o, protocol=int(how[-1])))
    except Exception as e:
        raise Violation('not_copied', '%s of %s failed: %s: %s' % (
            how, type(o).__name__, type(e).__name__, str(e)[:300]))


def same_update(o):
    if hasattr(o, 'set_default_variables'):
        o.set_default_variables({'x': 8.5, 'depth': 2.5, 'zz_new': 1.0})
    elif hasattr(o, 'required_inputs'):
        for _, e in o.items():
            if hasattr(e, 'set_default_variables'):
                e.set_default_variables({'x': 8.5, 'p_in': 2.5})


def execute(sc, ctx):
    sim = world.make(ctx, sc['tree'])
    try:
        if sc['kind'] == 'config':
            o, mc = confs.build(sc, sim)
        else:
            o = queries.at(world.load('dir', sim.root + '/lib', **sc['flags']), sc['root'])
            mc = None
    except (model.Unclear, model.Reject, model.Cycle, KeyError):
        return
    if sc['gone']:
        sim.put('lib/zz_added.yaml', b'zz: x * 2\n')
        shutil.rmtree(sim.root + '/lib')
    objs = [o]                      # the original and all copies
    views = [obs.any_obj(o)]
    acted = False
    for j, op in enumerate(sc['ops']):
        i = 0 if op['side'] == 'orig' or len(objs) == 1 else 1 + j % (len(objs) - 1)
        cur = objs[i]
        ctx.ev('op', j, op['op'], i)
        m = sched.Meter(at=op.get('at'), exc=KeyboardInterrupt)
        if op['op'] == 'snap':
            c = dup(cur, op['how'])
            v = obs.any_obj(c)
            d = obs.diff(v, views[i])
            if d:
                raise Violation('copy_differs', '%s of object %d differs from it: %s'
                                % (op['how'], i, d))
            objs.append(c)
            views.append(v)
            ctx.hit('snap_' + op['how'])
        else:
            try:
                with m:
                    if op['op'] == 'set':
                        try:
                            t = cur
                            for p in op['path']:
                                t = t.items() and dict(t.items())[p] if hasattr(t, 'items') else t[p]
                        except KeyError:
                            continue
                        if hasattr(t, 'set_default_variables') and not hasattr(t, 'var_dict'):
                            t.set_default_variables(dict(op['vars']))
                    elif op['op'] == 'query':
                        queries.answer(cur, op['query'])
                    elif op['op'] == 'derive':
                        if hasattr(cur, 'full') or hasattr(cur, 'all_equations'):
                            objs[i] = cur + cur
                    elif op['op'] == 'inputs':
                        cur.inputs = confs.to_input(op['inp'])
                    elif op['op'] == 'clear':
                        cur.inputs = None
                    elif op['op'] == 'reset':
                        cur.reset_output(op['key'])
                    elif op['op'] == 'eval':
                        cur.evaluate(confs.to_input(op['inp']))
            except (Exception, KeyboardInterrupt):
                ctx.hit('interrupted' if m.fired else 'failed')
            views[i] = obs.any_obj(objs[i])
            acted = True
        ctx.steps += m.n
        for n, x in enumerate(objs):
            if n == i and op['op'] != 'snap':
                continue
            d = obs.diff(obs.any_obj(x), views[n])
            if d:
                raise Violation('not_independent', 'operation %d %s on object %d changed object %d: '
                                '%s' % (j, op, i, n, d))
        if acted and len(objs) > 1:
            ctx.hit('nontrivial')
    # evaluations of a copy and of its original agree
    for n, x in enumerate(objs):
        c = dup(x, 'pickle4' if n % 2 else 'deep')
        a, b = hashchild.full_text(c, obs), hashchild.full_text(x, obs)
        if a != b:
            raise Violation('copy_differs', 'object %d and its copy evaluate differently: %s'
                            % (n, c04.first_diff(b, a)))
        ctx.ev('final', n, core.digest(a.replace(ctx.scratch, '')))
        # and after the same update of both
        same_update(c)
        same_update(x)
        a, b = hashchild.full_text(c, obs), hashchild.full_text(x, obs)
        if a != b:
            raise Violation('copy_differs', 'object %d and its copy differ after the same update: %s'
                            % (n, c04.first_diff(b, a)))
    if sc['child']:
        if sc.get('shipped'):
            objs.append(world.api()[0](os.path.join(core.REPO, 'NRWAL', 'default_configs',
                                                    sc['shipped'])))
        files, want = [], []
        for n, x in enumerate(objs[:4] + objs[4:][-1:]):
            p = os.path.join(ctx.scratch, 'p%d.pkl' % n)
            with open(p, 'wb') as f:
                f.write(pickle.dumps(x))
            files.append(p)
            want.append(hashchild.full_text(dup(x, 'pickle4'), obs).replace(sim.root, '$R'))
        shutil.rmtree(sim.root, ignore_errors=True)
        got = c04.child({'root': sim.root, 'pickles': files, 'text': True}, sc['hash'])
        if got and got[0][0] == 'child failed':
            if 'NRWAL' in got[0][1] or 'pickle' in got[0][1]:
                raise Violation('not_restored', 'the stored object cannot be restored in a new '
                                'process: %s' % got[0][1][-400:].replace(ctx.scratch, '$SCRATCH'))
            raise RuntimeError(got[0][1])
        for n, (g, w) in enumerate(zip(got, want)):
            ctx.hit('restored_in_new_process')
            if g[1] != w:
                raise Violation('copy_differs', 'object %d restored in a new process differs: %s'
                                % (n, c04.first_diff(w, g[1])))


def shrinkable(sc):
    out = [('ops',), ('tree',)] + [('tree', f) for f in sorted(sc['tree'])]
    if 'entries' in sc:
        out.append(('entries',))
    return out
