"""C04: load results do not depend on enumeration order, hash seed or thread."""
import json
import os
import subprocess
import sys

from .. import core, gen, hashchild, match, model, obs, sched, world
from ..core import Violation
from . import c01

ID = 'C04'
TIERS = {'quick': {'runs': 420, 'wall': 24}, 'thorough': {'runs': 16000, 'wall': 800}}
RULE = ('A run loads the same files several times: with shuffled directory listings, interleaved in 2-4 '
        'threads under a seeded scheduler, and (every 60th run) in fresh interpreters with other '
        'hash seeds, including the shipped library. Non-trivial: a listing was really reordered or a '
        'thread was preempted inside a load.')
STUBS = ['disk: real files behind wrapped calls that shuffle listings',
         'threads: real threads released one at a time by the seeded scheduler']
ASSUMPTIONS = ['preemption happens at line or bytecode boundaries of NRWAL code, not inside PyYAML or '
               'numpy']
PY = sys.executable


def clash(rng, tr):
    """Names that differ only in extension or in case, and a directory named like a file."""
    fs = [f for f in sorted(tr) if f.startswith('lib2/') and model.is_def(f) and '.hidden' not in f
          and '__' not in f]
    for f in rng.sample(fs, min(len(fs), 2)):
        r = rng.random()
        d, _, name = f.rpartition('/')
        stem, ext = name.rsplit('.', 1)
        new = None
        if r < 0.35:
            new = stem + '.' + rng.choice([e for e in ('yaml', 'yml', 'json') if e != ext])
        elif r < 0.6 and stem != 'variables':
            new = rng.choice([stem.capitalize(), stem.upper()]) + '.' + ext
        elif r < 0.7 and stem != 'variables':
            new = stem + '/turbine.yaml'
        if new and d + '/' + new not in tr:
            tr[d + '/' + new] = (gen.varfile if stem == 'variables' else gen.group)(rng, gen.VARS)


def targets(rng):
    lib = gen.config_tree(rng, 2)
    tr, conf = c01.config_files(rng, lib, {'nmax': 5})
    tr.update({'lib2/' + k: v for k, v in gen.tree(rng, 2, 3).items()})
    clash(rng, tr)
    t = [{'kind': 'dir', 'path': 'lib2'}, {'kind': 'config', 'path': conf},
         {'kind': 'dir', 'path': 'lib'}]
    fs = [f for f in sorted(tr) if f.startswith('lib2/') and 'variables' not in f
          and model.is_def(f) and '.hidden' not in f and '__' not in f]
    if fs:
        t.append({'kind': 'group', 'path': rng.choice(fs)})
    return tr, t


def generate(rng, tier, idx):
    tr, t = targets(rng)
    sc = {'tree': tr, 'targets': t, 'mode': 'hash' if idx % 61 == 5 else rng.choice(
        ['order', 'threads', 'threads'])}
    if sc['mode'] == 'hash':
        sc['seeds'] = [rng.randrange(1, 4000) for _ in range(3)]
        sc['shipped'] = rng.choice(['analysis_library', 'osw', 'config'])
        # names that differ in nothing but case
        tr['lib2/cases.yaml'] = {'eqn': 'Rate * rate + RATE / rAte', 'Eqn': 'X + x', 'cost': 'hub_h - Hub_H * HUB_H'}
        tr[t[1]['path']].update(case_a='P_in + p_in * P_IN', case_b='Load - load / LOAD')
    if sc['mode'] == 'order':
        sc['shuffles'] = [rng.randrange(10 ** 6) for _ in range(4)]
    if sc['mode'] == 'threads':
        n = rng.randint(2, 4)
        same = rng.choice(t)
        sc['threads'] = [same if rng.random() < 0.6 else rng.choice(t) for _ in range(n)]
        sc['shuffle'] = rng.choice([None, rng.randrange(10 ** 6)])
        sc['op'] = rng.random() < 0.2
        sc['policy'] = sched.gen_policy(rng, 'auto')
    return sc


def look(o, sim):
    return hashchild.full_text(o, obs).replace(sim.root, '$R')


def first_diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return '...%s  |  ...%s' % (a[max(0, i - 60):i + 120], b[max(0, i - 60):i + 120])
    return 'lengths %d %d' % (len(a), len(b))


def child(job, seed):
    env = dict(os.environ, PYTHONHASHSEED=str(seed), PYTHONUTF8='1', PYTHONDONTWRITEBYTECODE='1')
    p = subprocess.run([PY, '-B', os.path.join(core.VERIF, 'sim', 'hashchild.py')],
                       input=json.dumps(job), capture_output=True, text=True, env=env)
    if p.returncode:
        return [['child failed', p.stderr[-1500:]]]
    return json.loads(p.stdout)


def execute(sc, ctx):
    sim = world.make(ctx, sc['tree'])
    mode = sc['mode']
    if mode == 'hash':
        job = {'root': sim.root, 'targets': sc['targets'], 'text': True}
        lib = os.path.join(core.REPO, 'NRWAL')
        if sc['shipped'] == 'analysis_library':
            job['targets'] = job['targets'] + [{'kind': 'dir', 'path': lib + '/analysis_library'}]
        elif sc['shipped'] == 'config':
            job['targets'] = job['targets'] + [
                {'kind': 'config', 'path': lib + '/default_configs/marine_energy/rm1.yaml'},
                {'kind': 'config', 'path': lib + '/default_configs/osw_2019/'
                                                'standard_aggregation.yaml'}]
        else:
            job['targets'] = job['targets'] + [{'kind': 'dir', 'path': lib + '/analysis_library/'
                                                                            'osw_2015'}]
        ref = child(job, 0)
        if ref and ref[0][0] == 'child failed':
            raise RuntimeError(ref[0][1])
        for s in sc['seeds']:
            got = child(job, s)
            ctx.hit('hash_seed_interpreter')
            for t, a, b in zip(job['targets'], ref, got):
                if a[0] != b[0]:
                    raise Violation('hash_seed', 'load of %s differs between PYTHONHASHSEED=0 and '
                                    '%d: %s' % (t['path'].replace(core.REPO, ''), s,
                                                first_diff(a[1], b[1])))
        ctx.ev('hash', [a[0] for a in ref])
        ctx.hit('nontrivial')
        return
    refs = {}
    if mode == 'threads':
        def lone():
            # in a process of its own: warms no cache of this one
            got, sites = {}, set()
            m = sched.Meter(world.BUDGET * 4, sites=sites)
            sched.set_level(sc['op'])
            for t in sc['threads']:
                if (t['kind'], t['path']) not in got:
                    with sim, m:
                        o = world.load(t['kind'], sim.root + '/' + t['path'])
                    got[t['kind'], t['path']] = look(o, sim)
            sched.set_level(False)
            return got, m.n, sorted(sites)
        refs, steps, sites = core.pure(lone)
        sched.fill_policy(sc['policy'], steps, sites)
    with sim:
        for t in sc['targets'] if mode == 'order' else []:
            key = (t['kind'], t['path'])
            if key in refs:
                continue
            o = world.load(t['kind'], sim.root + '/' + t['path'])
            files = {r: v[-1][1] for r, v in sim.timeline.items() if v[-1][1] is not None}
            refs[key] = look(o, sim)
            if t['path'].startswith('lib2'):
                continue                # which of two clashing names wins is not specified
            try:
                m = world.meaning(t, files, sim.root)
                o2 = world.load(t['kind'], sim.root + '/' + t['path'])
                world.check_target(o2, m, t['kind'])
            except model.Unclear:
                pass
            except match.Mismatch as e:
                raise Violation('wrong_load', '%s: %s' % (t, e))
    if mode == 'order':
        for s in sc['shuffles']:
            sim.shuffle = s
            for t in sc['targets']:
                with sim:
                    o = world.load(t['kind'], sim.root + '/' + t['path'])
                ctx.hit('shuffled_load')
                got = look(o, sim)
                ctx.ev('order', s, t['path'], core.digest(got))
                if got != refs[(t['kind'], t['path'])]:
                    raise Violation('listing_order', 'load of %s depends on the order in which '
                                    'directory entries are listed: %s'
                                    % (t, first_diff(refs[(t['kind'], t['path'])], got)))
        ctx.hit('nontrivial')
        return
    sim.shuffle = sc['shuffle']
    out = {}

    def body(i, t):
        def run():
            try:
                out[i] = ('ok', world.load(t['kind'], sim.root + '/' + t['path']))
            except Exception as e:
                out[i] = ('exc', '%s: %s' % (type(e).__name__, e))
        return run
    sched.set_level(sc['op'])
    ts = sched.ThreadSim([body(i, t) for i, t in enumerate(sc['threads'])], sc['policy'],
                         budget=world.BUDGET * 4)
    with sim:
        ts.run()
    sched.set_level(False)
    ctx.steps += ts.steps
    ctx.sig = core.digest(ts.where)
    ctx.explicit = {'policy': {'kind': 'explicit', 'switches': ts.switches}}
    ctx.hit('preemptions', ts.preemptions)
    ctx.ev('sched', core.digest(ts.switches))
    if ts.abort:
        raise Violation('stuck', 'concurrent loads do not end: %s' % ts.abort)
    for i, t in enumerate(sc['threads']):
        key = (t['kind'], t['path'])
        st, o = out[i]
        if st == 'exc':
            raise Violation('concurrent_load_failed', 'load of %s failed while other threads were '
                            'loading: %s' % (t, o[:300]))
        got = look(o, sim)
        ctx.ev('thread', i, core.digest(got))
        if got != refs[key]:
            raise Violation('concurrent_load_differs', 'load of %s differs while other threads are '
                            'loading: %s' % (t, first_diff(refs[key], got)))
    if ts.preemptions:
        ctx.hit('nontrivial')


def shrinkable(sc):
    out = [('targets',), ('tree',)]
    if sc['mode'] == 'threads':
        if sc['policy']['kind'] == 'explicit':
            out.append(('policy', 'switches'))
    return out + [('tree', f) for f in sorted(sc['tree'])]
