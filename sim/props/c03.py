"""C03: loaded objects are snapshots and every load is fresh."""
import copy
import os

from .. import gen, match, model, obs, sched, world
from ..core import Violation
from . import c01

ID = 'C03'
TIERS = {'quick': {'runs': 900, 'wall': 22}, 'thorough': {'runs': 40000, 'wall': 800}}
RULE = ('A run is a history of 4 to 12 operations: loads of groups, variable files, directories, configs '
        'and dictionaries, interleaved with rewrites (same size and timestamp, in place or by rename), '
        'deletions, renames, new files, source-dictionary edits and changes of working directory. Every '
        'object is compared with the model of the files at its load time. Non-trivial: some object was '
        'checked after a change to its source.')
STUBS = ['disk: real files behind wrapped calls', 'file timestamps: set explicitly by the simulator']
ASSUMPTIONS = ['loads and file changes do not overlap in this check (C01 covers overlap)']


def tweak(rng, data):
    """Same-size variation of one leaf."""
    data = copy.deepcopy(data)
    leaves = []

    def walk(d):
        for k, v in d.items():
            if isinstance(v, dict):
                walk(v)
            elif k != 'equation_directory' and any(c.isdigit() for c in str(v)) \
                    and '::' not in str(v) and not isinstance(v, bool):
                leaves.append((d, k))
    walk(data)
    if not leaves:
        return None
    d, k = rng.choice(leaves)
    s = str(d[k])
    pos = [i for i, c in enumerate(s) if c.isdigit() and (i == 0 or not (
        s[i - 1].isalpha() or s[i - 1] == '_' or (s[i - 1] in '+-' and i > 1 and s[i - 2] in 'eE')))
        and not (i + 1 < len(s) and s[i + 1].isalpha())]
    if not pos:
        return None
    i = rng.choice(pos)
    c = rng.choice([x for x in '123456789' if x != s[i]])
    t = s[:i] + c + s[i + 1:]
    d[k] = t if isinstance(d[k], str) else (int(t) if isinstance(d[k], int) else float(t))
    return data


def generate(rng, tier, idx):
    lib = gen.config_tree(rng, 2)
    tr, conf = c01.config_files(rng, lib, {'nmax': 3})
    if rng.random() < 0.5:
        tr.update({'lib2/' + k: v for k, v in gen.tree(rng, 1, 2, depth=1, junk=False).items()})
    cur = copy.deepcopy(tr)
    ops = []
    srcs = 0

    def load_op():
        r = rng.random()
        files = sorted(f for f in cur if not f.startswith('configs/') and cur[f] is not None)
        if r < 0.35:
            d = rng.choice(sorted({f.split('/')[0] for f in files}) + ['link'])
            t = {'kind': 'dir', 'path': d}
        elif r < 0.6:
            f = rng.choice(files)
            t = {'kind': 'vars' if 'variables' in f else 'group', 'path': f}
        else:
            t = {'kind': 'config', 'path': conf}
        return {'op': 'load', 'target': t, 'rel': rng.random() < 0.3, 'look': rng.random() < 0.5}
    ops.append(load_op())
    for _ in range(rng.randint(3, 11)):
        r = rng.random()
        if r < 0.33:
            if rng.random() < 0.5 and any(o['op'] == 'load' for o in ops):
                ops.append(copy.deepcopy(rng.choice([o for o in ops if o['op'] == 'load'])))
                ops[-1]['look'] = rng.random() < 0.5
            else:
                ops.append(load_op())
        elif r < 0.63:
            f = rng.choice(sorted(x for x in cur if cur[x] is not None))
            new = tweak(rng, cur[f])
            if new is None or (rng.random() < 0.3 and not f.startswith('configs/')):
                new = gen.varfile(rng, gen.VARS) if 'variables' in f else (
                    gen.group(rng, gen.VARS) if not f.startswith('configs/') else cur[f])
            cur[f] = new
            ops.append({'op': 'write', 'path': f, 'data': new,
                        'mtime': rng.choice(['keep', 'keep', 'old', 'new']),
                        'inplace': rng.random() < 0.5})
        elif r < 0.7:
            f = rng.choice(sorted(x for x in cur if cur[x] is not None))
            if f.startswith('lib') and sum(1 for x in cur if cur[x] is not None) > 2:
                cur[f] = None
                ops.append({'op': 'delete', 'path': f})
        elif r < 0.75:
            f = rng.choice(['lib', 'lib2']) + '/fresh.yaml'
            cur[f] = gen.group(rng, gen.VARS)
            ops.append({'op': 'write', 'path': f, 'data': cur[f], 'mtime': 'new', 'inplace': False})
        elif r < 0.77:
            ops.append({'op': 'chdir'})
        elif r < 0.785 and any(f.startswith('lib2/') for f in cur):
            ops.append({'op': 'relink'})
        elif r < 0.8 and any(f.startswith('lib2/') for f in cur):
            ops.append({'op': 'swap'})
            cur = {('lib2' + f[3:] if f.startswith('lib/') else 'lib' + f[4:] if f.startswith('lib2/')
                    else f): v for f, v in cur.items()}
        elif r < 0.92:
            k = rng.choice(['gdict', 'cdict', 'vdict', 'edict'])
            if k == 'gdict':
                d = gen.group(rng, gen.VARS)
            elif k == 'vdict':
                d = gen.varfile(rng, gen.VARS)
            elif k == 'edict':
                d = gen.varfile(rng, ['x', 'w'])
            else:
                d = dict({'equation_directory': '$ROOT/lib'}, **{
                    'aa': 'p_in * 2 + q_in', 'bb': 'aa - 3', 'cc': 4})
            ops.append({'op': 'fromdict', 'kind': k, 'data': d, 'src': srcs,
                        'rel': rng.random() < 0.5})
            srcs += 1
        elif srcs:
            ops.append({'op': 'editdict', 'src': rng.randrange(srcs)})
        if rng.random() < 0.35:
            ops.append({'op': 'verify'})
    return {'tree': tr, 'ops': ops, 'coarse': rng.random() < 0.5}


def write(sim, op):
    path = os.path.join(sim.root, op['path'])
    data = world.content(sim, op['path'], op['data'])
    st = os.stat(path) if os.path.exists(path) else None
    if op['inplace'] and st is not None:
        with open(path, 'wb') as f:
            f.write(data)
        sim.timeline[op['path']].append((sim.n, data))
    else:
        sim.put(op['path'], data)
    if op['mtime'] == 'keep' and st is not None:
        os.utime(path, ns=(st.st_atime_ns, st.st_mtime_ns))
    elif op['mtime'] == 'old':
        os.utime(path, ns=(10 ** 18, 10 ** 18))


def coarse(sim):
    """A clock too coarse to tell a change from the state before it."""
    for d, _, _ in os.walk(sim.root):
        os.utime(d, ns=(2 * 10 ** 18, 2 * 10 ** 18))


def edit(d):
    """Mutate a source dictionary in every way a caller could."""
    for k in list(d):
        v = d[k]
        if isinstance(v, dict):
            edit(v)
        elif isinstance(v, (int, float)):
            d[k] = v + 91
        elif isinstance(v, str) and k != 'equation_directory':
            d[k] = '%s + 91' % v
    d['zz_new'] = 17
    ks = [k for k in d if k not in ('zz_new', 'equation_directory')]
    if len(ks) > 1:
        del d[ks[0]]


def execute(sc, ctx):
    NrwalConfig, EquationDirectory, EquationGroup, VariableGroup, Equation = world.api()
    sim = world.make(ctx, sc['tree'])
    for rel in sc['tree']:
        os.utime(os.path.join(sim.root, rel), ns=(2 * 10 ** 18, 2 * 10 ** 18))
    coarse(sim)
    slots, srcs = [], {}
    dirs = [os.path.join(ctx.scratch, 'wd%d' % i) for i in range(2)]
    for d in dirs:
        os.makedirs(os.path.join(d, 'lib'), exist_ok=True)
    nchd = 0
    link = 'lib'
    os.symlink(os.path.join(sim.root, link), os.path.join(sim.root, 'link'))

    names = sorted({model.stem(x.split('/')[1]) for o in sc['ops'] for x in [o.get('path', '')]
                    if o['op'] == 'write' and x.startswith('lib') and x.count('/') == 1}
                   | {model.stem(f.split('/')[1]) for f in sc['tree']
                      if f.startswith('lib') and f.count('/') == 1})

    def absent(s):
        """What was not in a directory when it was loaded cannot be retrieved from it."""
        have = [k for k in names if obs.call(lambda k=k: s['o'][k])[0] == 'ok']
        want = [k for k in names if k in s['m'].items]
        if have != want:
            raise Violation('snapshot_changed', 'a loaded directory retrieves %s, it was loaded with %s' % (
                have, want))

    def verify(cls='snapshot_changed'):
        for s in slots:
            if s['m'] is None:
                continue
            try:
                world.check_target(s['o'], s['m'], s['what'])
            except match.Mismatch as e:
                raise Violation(cls, str(e))
            if s['what'] == 'dir':
                absent(s)
            if s['changed']:
                ctx.hit('nontrivial')
            if s['look'] is not None and s['what'] == 'config':
                if str(s['o']) != s['look']:
                    raise Violation(cls, 'printed form of a config changed: %s' % obs.diff(
                        s['look'], str(s['o'])))
            elif s['look'] is not None:
                now = obs.any_obj(s['o'])
                if now != s['look']:
                    raise Violation(cls, 'answers of a loaded %s changed: %s'
                                    % (s['what'], obs.diff(s['look'], now)))
    with sim:
        for j, op in enumerate(sc['ops']):
            ctx.ev('op', j, op['op'], op.get('path') or op.get('target'))
            if op['op'] == 'load':
                t = op['target']
                at = t['path']
                if at == 'link':
                    t = dict(t, path=link)
                    ctx.hit('load_by_link')
                files = {r: v[-1][1] for r, v in sim.timeline.items() if v[-1][1] is not None}
                try:
                    m = world.meaning(t, files, sim.root)
                except model.Reject:
                    m = 'reject'
                except model.Unclear:
                    m = None
                path = sim.root + '/' + at
                if op['rel']:
                    path = os.path.relpath(path)
                try:
                    o = world.load(t['kind'], path)
                except Exception as e:
                    if m is not None and m != 'reject':
                        raise Violation('load_failed', 'load %d of %s failed: %s: %s' % (
                            j, t, type(e).__name__, str(e)[:200]))
                    ctx.hit('load_refused')
                    continue
                if m == 'reject':
                    raise Violation('stale_load', 'load %d of %s succeeded, but the files now '
                                    'stored are no valid definition' % (j, t))
                ctx.hit('load_' + t['kind'])
                look = None
                if op['look']:
                    look = obs.any_obj(o) if t['kind'] != 'config' else str(o)
                if op['look'] and m is not None:
                    try:
                        world.check_target(o, m, t['kind'])
                    except match.Mismatch as e:
                        raise Violation('stale_load', 'load %d of %s does not reflect the stored '
                                        'files: %s' % (j, t, e))
                slots.append({'o': o, 'm': m, 'what': t['kind'], 'look': look, 'changed': False})
            elif op['op'] == 'write':
                write(sim, op)
                if sc.get('coarse'):
                    coarse(sim)
                ctx.hit('rewrite_%s_%s' % (op['mtime'], 'inplace' if op['inplace'] else 'rename'))
                for s in slots:
                    s['changed'] = True
            elif op['op'] == 'delete':
                sim.put(op['path'], None)
                if sc.get('coarse'):
                    coarse(sim)
                ctx.hit('delete')
                for s in slots:
                    s['changed'] = True
            elif op['op'] == 'chdir':
                nchd += 1
                os.chdir(dirs[nchd % 2])
                ctx.hit('chdir')
            elif op['op'] == 'relink':
                link = 'lib2' if link == 'lib' else 'lib'
                os.symlink(os.path.join(sim.root, link), os.path.join(sim.root, 'link~'))
                os.replace(os.path.join(sim.root, 'link~'), os.path.join(sim.root, 'link'))
                ctx.hit('relink')
            elif op['op'] == 'swap':
                a, b, c = (os.path.join(sim.root, x) for x in ('lib', 'lib2', 'tmp~'))
                if not (os.path.isdir(a) and os.path.isdir(b)):
                    continue
                os.rename(a, c), os.rename(b, a), os.rename(c, b)
                now = {r: v[-1][1] for r, v in sim.timeline.items()}
                for r in list(now):
                    if r.startswith(('lib/', 'lib2/')):
                        q = 'lib2' + r[3:] if r.startswith('lib/') else 'lib' + r[4:]
                        sim.timeline[r].append((sim.n, now.get(q)))
                        if q not in now:
                            sim.timeline.setdefault(q, [(0, None)]).append((sim.n, now[r]))
                ctx.hit('swap_directories')
                for s in slots:
                    s['changed'] = True
            elif op['op'] == 'fromdict':
                d = world.subst_root(copy.deepcopy(op['data']), sim.root)
                srcs[op['src']] = d
                if op['kind'] == 'gdict':
                    o, m = EquationGroup(d), model.build_group(op['data'])
                elif op['kind'] == 'vdict':
                    o, m = VariableGroup(d), model.build_vars(op['data'])
                elif op['kind'] == 'edict':
                    o = Equation('x * w + u', name='ee', default_variables=d)
                    m = model.MEqn(model.parse_formula('x * w + u'), 'ee', op['data'])
                else:
                    files = {r[4:]: v[-1][1] for r, v in sim.timeline.items()
                             if v[-1][1] is not None and r.startswith('lib/')}
                    try:
                        md = model.build_dir(files)
                    except (model.Reject, model.Unclear):
                        continue
                    if not files:
                        continue
                    if op['rel']:
                        d['equation_directory'] = os.path.relpath(d['equation_directory'])
                    o = NrwalConfig(d)
                    m = model.MConfig({k: v for k, v in op['data'].items()
                                       if k != 'equation_directory'}, md)
                ctx.hit('fromdict_' + op['kind'])
                slots.append({'o': o, 'm': m, 'what': {'cdict': 'config'}.get(op['kind'],
                                                                              op['kind']),
                              'look': str(o) if op['kind'] == 'cdict' else None, 'changed': False,
                              'src': op['src']})
            elif op['op'] == 'editdict':
                if op['src'] in srcs:
                    edit(srcs[op['src']])
                    ctx.hit('edit_source_dict')
                    for s in slots:
                        if s.get('src') == op['src']:
                            s['changed'] = True
            elif op['op'] == 'verify':
                verify()
        verify()


def shrinkable(sc):
    return [('ops',), ('tree',)] + [('tree', f) for f in sorted(sc['tree'])]
