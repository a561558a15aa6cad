"""C01: loads under storage faults are exact or fail loudly."""
from .. import fsim, gen, sched, world
from ..core import Violation

ID = 'C01'
TIERS = {'quick': {'runs': 2800, 'wall': 24}, 'thorough': {'runs': 60000, 'wall': 800}}
RULE = ('A run is a random tree of definition files (or a config with pointer files), one load target, '
        'and a plan of disk faults placed on the I/O calls of that load. Non-trivial: at least one '
        'fault, writer action or damaged file actually affected the load.')
STUBS = ['disk: real files behind wrapped open/read/listdir/scandir/stat/lstat with injected errors']
ASSUMPTIONS = ['files of one directory have distinct names up to the extension',
               'replacement of a file by a writer is atomic (rename)',
               'definitions whose formulas are not plain arithmetic are only required to load or fail']


def config_files(rng, tr, gen_kw=None, lib_at='$ROOT/lib'):
    """Add a config (with pointers to a second file) over a library at lib/."""
    e = gen.valid_config(rng, tr, **(gen_kw or {}))
    lib = {'lib/' + k: v for k, v in tr.items()}
    ext = rng.choice(['.yaml', '.json', '.yml'])
    ptr = [k for k, v in e.items() if not (isinstance(v, str) and '/' in v)]
    conf = {'equation_directory': lib_at}
    other = {}
    if rng.random() < 0.5:
        for k in rng.sample(ptr, min(len(ptr), rng.randint(1, 2))):
            other['src_' + k] = e[k]
    for k, v in e.items():
        conf[k] = ('./other%s::src_%s' % (ext, k)) if 'src_' + k in other else v
    lib['configs/main' + ext] = conf
    if other:
        other['unused'] = 5
        lib['configs/other' + ext] = other
    return lib, 'configs/main' + ext


def generate(rng, tier, idx):
    kind = rng.choice(['dir', 'dir', 'dir', 'group', 'vars', 'config', 'config'])
    mode = rng.choice(['clean', 'damage', 'damage', 'errors', 'errors', 'writer', 'mix', 'big', 'path', 'link'])
    if kind == 'config':
        # the disk is mounted at ./disk: bytes of a damaged config do not name the scratch root
        tr, path = config_files(rng, gen.config_tree(rng, 2), {'nmax': 4},
                                'disk/lib' if mode in ('damage', 'mix') else '$ROOT/lib')
    elif kind == 'dir':
        tr = gen.tree(rng)
        path = '.'
    elif kind == 'group':
        path = rng.choice(gen.FILES) + rng.choice(gen.EXTS)
        tr = {path: gen.group(rng, gen.VARS)}
    else:
        path = 'variables' + rng.choice(gen.EXTS)
        tr = {path: gen.varfile(rng, gen.VARS, 1, 5)}
    sc = {'target': {'kind': kind, 'path': path}, 'tree': tr, 'faults': [], 'writes': [],
          'chunk': rng.choice([0, 0, 0, 1, 3, 16, 64]), 'shuffle': rng.choice([None, idx]),
          'mode': mode}
    if sc['mode'] == 'big':
        f = rng.choice(sorted(tr))
        if isinstance(tr[f], dict) and '__raw__' not in tr[f]:
            tr[f] = dict(tr[f], __pad__=rng.choice([4100, 8193, 9000, 9001, 33000, 33000, 65537, 70002, 70001]))
            sc['chunk'] = rng.choice([0, 4096, 1000])
            if rng.random() < 0.5:
                # the disk fails in the middle of a long file
                sc['faults'].append({'path': f, 'ops': ['read'], 'nth': rng.choice([2, 2, 3, 4, 6, 9]),
                                     'errno': rng.choice(['EIO', 'ESTALE'])})
    if sc['mode'] == 'link':
        sc['links'] = [[f, rng.random() < 0.5] for f in rng.sample(sorted(tr), 1)]
    if sc['mode'] in ('damage', 'mix'):
        hit = rng.sample(sorted(tr), min(len(tr), 1 if rng.random() < 0.8 else 2))
        if kind == 'config' and rng.random() < 0.7:
            hit = [rng.choice([f for f in sorted(tr) if f.startswith('configs/')])]
            if rng.random() < 0.2:
                # an entry without a value
                f = hit.pop()
                k = rng.choice([k for k in sorted(tr[f]) if k != 'equation_directory'])
                tr[f] = gen.raw(gen.dump(f, dict(tr[f], **{k: rng.choice([None, None, {}, []])})))
                sc.setdefault('damage', []).append([f, 'entry'])
        for f in hit:
            others = [gen.dump(o, tr[o]) for o in sorted(tr) if o != f
                      and not str(tr[o].get('equation_directory')).startswith('$')]
            k, b = gen.corrupt(rng, gen.dump(f, tr[f]), others)
            tr[f] = gen.raw(b)
            sc.setdefault('damage', []).append([f, k])
    return sc


def PROFILE(sc, ctx):
    sim = world.make(ctx, sc['tree'])
    sim.chunk, sim.shuffle = sc['chunk'], sc['shuffle']
    t = sc['target']
    with sim:
        try:
            world.load(t['kind'], sim.root + '/' + t['path'])
        except Exception:
            pass
    return sim.trace


def place(sc, prof, rng):
    prof = prof or []
    n = max(1, len(prof))
    tr = sc['tree']
    if sc['mode'] in ('errors', 'mix'):
        for _ in range(rng.choice([1, 1, 1, 2])):
            ops = [i + 1 for i, (op, _) in enumerate(prof)
                   if op == rng.choice(['stat', 'open', 'list', 'read'])]
            at = rng.choice(ops) if ops and rng.random() < 0.7 else rng.randint(1, n)
            sc['faults'].append({'at': at, 'errno': rng.choice(fsim.ERRNOS),
                                 'span': rng.choice([1, 1, 1, 2, 5, 10 ** 6])})
    if sc['mode'] == 'path':
        f = rng.choice(sorted(tr))
        parts = f.split('/')
        p = '/'.join(parts[:rng.randint(1, len(parts))])
        isdir = p != f
        kind = rng.choice(['unreadable', 'lost', 'nosearch'])
        if kind == 'unreadable':
            sc['faults'].append({'path': p, 'ops': ['open', 'list'], 'errno': 'EACCES'})
        elif kind == 'lost':
            sc['faults'].append({'path': p, 'ops': ['open', 'list', 'stat', 'read'], 'below': True,
                                 'errno': rng.choice(['EIO', 'ESTALE', 'EACCES'])})
        else:
            sc['faults'].append({'path': p, 'ops': ['stat', 'open'], 'below': isdir,
                                 'errno': 'EACCES'})
    if sc['mode'] in ('writer', 'mix'):
        for _ in range(rng.choice([1, 1, 2])):
            # a config file is read once per pointer to it: replaced only if read once
            ptrs = sum(1 for d in tr.values() if d.get('equation_directory')
                       for v in d.values() if str(v).startswith('./other'))
            cand = sorted(f for f in tr if not tr[f].get('equation_directory')
                          and (ptrs < 2 or not f.startswith('configs/')))
            f = rng.choice(cand)
            r = rng.random()
            if r < 0.3:
                data = None
            elif r < 0.5:
                data = gen.raw(gen.corrupt(rng, gen.dump(f, tr[f]))[1])
            elif f.startswith('configs/'):
                data = {k: (rng.choice([2, 3.5, 'p_in * 3', 'q_in + 2']))
                        for k in tr[f]} if '__raw__' not in tr[f] else tr[f]
            elif 'variables' in f:
                data = gen.varfile(rng, gen.VARS)
            else:
                data = gen.group(rng, gen.VARS)
                if sc['target']['kind'] == 'config' and '__raw__' not in tr[f]:
                    # same formulas names so that the config still refers to something
                    data = {k: (v if isinstance(v, dict) else gen.formula(rng, ['depth', 'x'], 1))
                            for k, v in tr[f].items()}
            # close to the accesses of that very file
            near = [i + 1 for i, (_, r2) in enumerate(prof) if r2 == f]
            at = rng.choice(near) + rng.choice([0, 0, 1]) if near and rng.random() < 0.8 \
                else rng.randint(1, n)
            sc['writes'].append({'at': at, 'path': f, 'data': data})
        if sc['target']['kind'] == 'dir' and rng.random() < 0.3:
            d = rng.choice(sorted({f.rsplit('/', 1)[0] + '/' if '/' in f else '' for f in tr}))
            newf = d + 'fresh.yaml'
            sc['writes'].append({'at': rng.randint(1, n), 'path': newf,
                                 'data': gen.group(rng, gen.VARS)})
    return sc


def execute(sc, ctx):
    t = sc['target']
    sim = world.make(ctx, sc['tree'])
    sim.chunk, sim.shuffle = sc['chunk'], sc['shuffle']
    for f, dangling in sc.get('links', []):
        if f in sc['tree']:
            sim.link(f, dangling)
            ctx.hit('link_dangling' if dangling else 'link')
    sim.faults = sc['faults']
    sim.writes = [dict(w, data=world.content(sim, w['path'], w['data'])) for w in sc['writes']]
    for _, k in sc.get('damage', []):
        ctx.hit('damage_' + k)
    m = sched.Meter(world.BUDGET)
    try:
        with sim, m:
            try:
                out = ('ok', world.load(t['kind'], sim.root + '/' + t['path']))
            except Exception as e:
                out = ('exc', e)
    except sched.SimAbort:
        raise Violation('hang', 'load does not end within %d steps' % world.BUDGET)
    ctx.steps += m.n
    ctx.ev('load', t['kind'], out[0], type(out[1]).__name__)
    res = world.judge(sim, t, 0, out, ctx)
    ctx.ev('judged', res)
    if sim.fired or sc.get('damage') or sc.get('links') or sc['chunk'] or sc['mode'] == 'big':
        ctx.hit('nontrivial')


def shrinkable(sc):
    out = [('faults',), ('writes',), ('tree',)]
    for f in sorted(sc['tree']):
        if '__raw__' not in sc['tree'][f]:
            out.append(('tree', f))
    return out
