"""Random definitions: formulas, groups, trees, configs, inputs."""
import json

import yaml

VARS = ['depth', 'dist', 'area', 'area_m', 'cap', 'cap_f', 'rate', 'span', 'mult', 'hub_h',
        'x', 'x_2', 'w', 'dist_s_to_l']
KEYS = ['eqn', 'eqn_a', 'eqn_b', 'cost', 'cost_x', 'base_cost', 'base', 'fixed', 'lease',
        'install_3MW', 'install_6MW', 'install_12MW', 'capex_2015', 'capex_2020', 'tower']
SUBS = ['sub', 'set_1', 'set_2', 'part']
FILES = ['turbine', 'array', 'export', 'monopile', 'spar', 'grid', 'grid_b', 'semi']
DIRS = ['y2015', 'y2019', 'osw', 'h2', 'deep']
EXTS = ['.yaml', '.yaml', '.yml', '.json']
NUMS = ['2', '3', '5', '7', '0.5', '1.25', '10', '1e-3', '2.5e2', '4', '1.5E1', '12', '0.25', '6']
CONF = ['total', 'opex_c', 'lcoe', 'aep', 'loss', 'net', 'gross', 'adj', 'ratio', 'k_fac', 'wacc',
        'n_units', 'total_b', 'net_2']
INP = ['p_in', 'q_in', 'price', 'load', 'p', 'q']


def formula(rng, names, depth=2, np_ok=True, den=None):
    """A formula over `names` that is valid Python; divisions only by names and numbers."""
    def atom():
        if names and rng.random() < 0.65:
            return rng.choice(names)
        return rng.choice(NUMS)

    def expr(d):
        r = rng.random()
        if d == 0 or r < 0.12:
            return atom()
        if np_ok and r < 0.2 and names:
            return 'np.%s(%s, %s)' % (rng.choice(['maximum', 'minimum']), expr(d - 1), atom())
        if r < 0.28:
            return '%s ** 2' % (rng.choice(names) if names else '3')
        n = rng.randint(2, 3)
        out = expr(d - 1) if rng.random() < 0.5 else atom()
        for _ in range(n - 1):
            op = rng.choice(['+', '-', '*', '+', '*', '/'])
            if op == '/':
                rhs = rng.choice((names if den is None else den) + NUMS)
            elif rng.random() < 0.3 and d > 1:
                rhs = '(%s)' % expr(d - 1)
            else:
                rhs = atom()
            sp = rng.choice([' ', ' ', ' ', ''])
            out = '%s%s%s%s%s' % (out, sp, op, sp, rhs)
        return '(%s)' % out if d < depth and rng.random() < 0.5 else out
    return expr(depth)


def group(rng, vars_, keys=KEYS, nmax=5, subs=True, refs=True, depth=1):
    """Mapping of names to formulas, numbers and nested groups."""
    n = rng.randint(1, nmax)
    names = rng.sample(keys, min(n, len(keys)))
    out = {}
    order = list(names)
    rank = {k: i for i, k in enumerate(rng.sample(names, len(names)))}
    for k in order:
        pool = [v for v in rng.sample(vars_, min(len(vars_), rng.randint(1, 4))) if v not in names]
        den = list(pool)
        if refs and rng.random() < 0.4:
            pool += [o for o in names if rank[o] < rank[k]][:2]
        if rng.random() < 0.12:
            out[k] = rng.choice([3, 2.5, 10, 0.5])
        else:
            out[k] = formula(rng, pool, rng.choice([1, 2, 2]), den=den)
    if subs and depth and rng.random() < 0.3:
        out[rng.choice(SUBS)] = group(rng, vars_, keys, 3, subs, refs, depth - 1)
    return out


def add_family(rng, tr):
    """Formulas by size and by year in one group of the tree, in any order."""
    c = [f for f in sorted(tr) if f.endswith(('.yaml', '.yml', '.json')) and 'variables' not in f
         and '.hidden' not in f and '__' not in f]
    if not c:
        return
    f = rng.choice(c)
    g = dict(tr[f])
    for k in rng.sample(['install_3MW', 'install_6MW', 'install_12MW', 'capex_2015', 'capex_2020'], 5):
        g.setdefault(k, rng.choice([2, 7.5, 11, '%s * x + w' % rng.choice(NUMS),
                                    'depth + %s' % rng.choice(NUMS)]))
    tr[f] = g


def varfile(rng, names, lo=1, hi=3):
    return {v: rng.choice([1.5, 2, 3.0, 4, 7.5, 9, 0.5])
            for v in rng.sample(names, min(len(names), rng.randint(lo, hi)))}


def tree(rng, maxdirs=3, maxfiles=3, var_p=0.5, vars_=VARS, depth=2, junk=True, refs=True):
    """rel path -> mapping.  At least one formula file."""
    out = {}

    def level(pre, d):
        for f in rng.sample(FILES, rng.randint(0 if pre else 1, maxfiles)):
            out[pre + f + rng.choice(EXTS)] = group(rng, vars_, refs=refs)
        if rng.random() < var_p:
            out[pre + 'variables' + rng.choice(EXTS)] = varfile(rng, vars_)
        if d:
            for s in rng.sample(DIRS, rng.randint(0, maxdirs if not pre else 2)):
                level(pre + s + '/', d - 1)
        if junk and rng.random() < 0.15:
            out[pre + rng.choice(['README.rst', 'notes.txt', '.hidden.yaml', '__init__.py',
                                  '__pycache__/x.yaml', 'old.yaml.bak'])] = {'junk': 'x'}
    level('', depth)
    return out


def dump(rel, data):
    """Stored bytes of a mapping."""
    if isinstance(data, dict) and '__raw__' in data:
        return data['__raw__'].encode('latin-1')
    if rel.endswith('.json'):
        return json.dumps(data, indent=1).encode()
    return yaml.safe_dump(data, sort_keys=False, width=1000).encode()


def raw(b):
    return {'__raw__': b.decode('latin-1')}


def files_of(tr):
    return {rel: dump(rel, d) for rel, d in tr.items()}


def corrupt(rng, b, others=()):
    """One realistic damage to a stored file; returns (kind, bytes)."""
    kind = rng.choice(['truncate', 'truncate', 'empty', 'zero', 'zero', 'multidoc', 'twice', 'flip',
                       'flip', 'nul', 'dropline',
                       'dupline', 'bom', 'binary', 'scalar', 'list', 'swap', 'midtail', 'badval',
                       'numkey', 'nullval', 'entry', 'entry', 'entry', 'entry', 'highbyte', 'highbyte',
                       'dropkey', 'dropkey'])
    if kind == 'entry':
        # one entry holds something else than it may
        try:
            d = yaml.safe_load(b)
            if isinstance(d, dict) and d:
                k = rng.choice(sorted(map(str, d)))
                v = rng.choice([None, None, '7', 'text', [1.5], ['x', 2], '3.5', {}, {'a': None},
                                {'a': 2}, '', 'x *', '1e3', [], '2 * 3'])
                if rng.random() < 0.15:
                    d['12' if rng.random() < 0.5 else '2.5'] = 'x * 2'
                elif k in d:
                    d[k] = v
                return kind, json.dumps(d).encode()
        except (yaml.YAMLError, ValueError):
            pass
        return 'truncate', b[:len(b) // 2]
    if kind == 'dropkey':
        # an entry is gone or has another name
        try:
            d = yaml.safe_load(b)
            if isinstance(d, dict) and d:
                k = rng.choice(sorted(map(str, d)))
                v = d.pop(k, None)
                if rng.random() < 0.3 and v is not None:
                    d[k + 'x'] = v
                return kind, json.dumps(d).encode()
        except (yaml.YAMLError, ValueError):
            pass
        return 'truncate', b[:len(b) // 2]
    if kind == 'highbyte' and b:
        # text in another encoding: a letter of a name or formula
        c = [i for i in range(len(b)) if chr(b[i]).isalpha()] or [0]
        i = rng.choice(c)
        return kind, b[:i] + bytes([rng.choice([0x80, 0xe4, 0xff, 0xb2])]) + b[i + 1:]
    if kind == 'truncate':
        return kind, b[:rng.randint(0, max(0, len(b) - 1))]
    if kind == 'empty':
        return kind, rng.choice([b'', b'\n', b'---\n', b'# nothing\n', b'null', b'{}'])
    if kind == 'zero':
        return kind, b''
    if kind == 'multidoc':
        return kind, rng.choice([b + b'\n---\n' + b, b + b'\n...\n---\n' + b[:len(b) // 2],
                                 b'---\n' + b + b'\n---\n'])
    if kind == 'twice':
        return kind, b + b
    if kind == 'flip' and b:
        i = rng.randrange(len(b))
        return kind, b[:i] + bytes([b[i] ^ (1 << rng.randrange(8))]) + b[i + 1:]
    if kind == 'nul' and b:
        i = rng.randrange(len(b))
        n = rng.randint(1, 8)
        return kind, b[:i] + b'\0' * n + b[i + n:]
    lines = b.split(b'\n')
    if kind == 'dropline':
        i = rng.randrange(len(lines))
        return kind, b'\n'.join(lines[:i] + lines[i + 1:])
    if kind == 'dupline':
        i = rng.randrange(len(lines))
        return kind, b'\n'.join(lines[:i] + [lines[i]] + lines[i:])
    if kind == 'bom':
        return kind, b'\xff\xfe' + b
    if kind == 'binary':
        return kind, bytes(rng.randrange(256) for _ in range(rng.randint(1, 40)))
    if kind == 'scalar':
        return kind, rng.choice([b'42', b'"text"', b'3.5', b'true'])
    if kind == 'list':
        return kind, rng.choice([b'[1, 2]', b'["a * b"]', b'[]', b'[{"a": "b * 2"}]'])
    if kind == 'swap' and others:
        return kind, rng.choice(list(others))
    if kind == 'midtail':
        i = rng.randint(0, len(b))
        return kind, b[i:]
    if kind == 'badval':
        return kind, rng.choice([b'{"eqn": [1, 2]}', b'{"eqn": ["x * 2"], "cost": "x"}'])
    if kind == 'numkey':
        return kind, rng.choice([b'{"12": "x * 2"}', b'{"eqn": "x", "3.5": "x * 2"}'])
    if kind == 'nullval':
        return kind, rng.choice([b'{"eqn": null}', b'{"eqn": "x * 2", "cost": null}'])
    return 'truncate', b[:len(b) // 2]


# ------------------------------------------------------------------ configs

def config_tree(rng, nfiles=3):
    """Library for configs: one variables file at the root, so that a variable has the same default
    wherever it is used."""
    t = {}
    vars_ = VARS
    for f in rng.sample(FILES, rng.randint(1, nfiles)):
        t[f + rng.choice(EXTS)] = group(rng, vars_, nmax=4, refs=True)
    if rng.random() < 0.6:
        s = rng.choice(DIRS)
        for f in rng.sample(FILES, rng.randint(1, 2)):
            t[s + '/' + f + rng.choice(EXTS)] = group(rng, vars_, nmax=3)
    if rng.random() < 0.7:
        t['variables' + rng.choice(EXTS)] = varfile(rng, vars_)
    return t


def lib_refs(tr):
    """'::' paths of all formulas of a tree, and of its groups."""
    eq, gr = [], []

    def walk(data, pre):
        for k, v in data.items():
            if isinstance(v, dict):
                gr.append(pre + '::' + k)
                walk(v, pre + '::' + k)
            else:
                eq.append(pre + '::' + k)
    for rel, data in sorted(tr.items()):
        s = rel.rsplit('.', 1)[0].replace('/', '::')
        if s.split('::')[-1] == 'variables' or '__raw__' in data:
            continue
        gr.append(s)
        walk(data, s)
    return eq, gr


def config_entries(rng, tr, nmax=6, late_names=True, np_ok=True, groups=True, consts=True):
    """Ordered mapping of config entries over a library tree; acyclic."""
    from . import model
    eq, gr = lib_refs(tr)
    vs = sorted({k for f, d in tr.items() if f.startswith('variables.') for k in d} & set(VARS))
    n = rng.randint(2, nmax)
    names = rng.sample(CONF, n)
    if late_names and rng.random() < 0.4:
        for v in rng.sample(VARS, rng.choice([1, 1, 2])):
            names[rng.randrange(n)] = v
        names = list(dict.fromkeys(names))
        n = len(names)
    rank = {k: i for i, k in enumerate(rng.sample(names, n))}
    out = {}
    gname = None
    for k in names:
        lower = [o for o in names if rank[o] < rank[k]]
        r = rng.random()
        if consts and r < 0.18:
            out[k] = rng.choice([6, 0.096, 2.5, 3, 10.0, '4', '0.5', '2 * 3', '10 / 4 + 1', '3 * (4 - 1)'])
        elif r < 0.36:
            out[k] = rng.choice(eq)
        elif lower and r < 0.44:
            out[k] = rng.choice(lower)
        elif np_ok and r < 0.54:
            pool = lower + rng.sample(INP, 2)
            out[k] = 'np.%s(%s, %s)' % (rng.choice(['maximum', 'minimum']), rng.choice(pool),
                                        rng.choice(pool))
        else:
            out[k] = config_expr(rng, eq, lower, np_ok, vs)
    if late_names and consts and vs and rng.random() < 0.12:
        # a constant, possibly computed, named like a variable the library has a default for
        out[rng.choice(vs)] = rng.choice([5, '2 * 3', '10 / 4 + 1', '8'])
    if groups and gr and rng.random() < 0.35:
        tops = [g for g in gr]
        gname = rng.choice(['grp', 'lib_part'])
        g = rng.choice(tops)
        out[gname] = g
        subs = [e[len(g) + 2:] for e in eq if e.startswith(g + '::')]
        if subs and rng.random() < 0.7:
            out['from_grp'] = '%s::%s' % (gname, rng.choice(subs))
        items = list(out.items())
        rng.shuffle(items)
        out = dict(items)
    return out


def config_expr(rng, eq, lower, np_ok, vs=()):
    def atom():
        r = rng.random()
        if r < 0.3:
            return rng.choice(eq)
        if r < 0.55 and lower:
            return rng.choice(lower)
        if r < 0.76:
            return rng.choice(INP)
        if r < 0.84:
            return rng.choice(vs if vs and rng.random() < 0.7 else VARS)
        return rng.choice(NUMS)

    def term(d):
        if d and rng.random() < 0.3:
            return '(%s)' % chain(d - 1)
        if rng.random() < 0.06:
            return '%s ** 2' % rng.choice(INP)
        return atom()

    def chain(d):
        n = rng.randint(2, 4)
        out = term(d)
        if rng.random() < 0.08:
            out = '-' + out
        for _ in range(n - 1):
            op = rng.choice(['+', '-', '*', '+', '-', '*', '/'])
            rhs = rng.choice(INP + NUMS) if op == '/' else term(d)
            if op in '*-' and rng.random() < 0.05 and not rhs.startswith('('):
                rhs = '-' + rhs
            sp = rng.choice([' ', ' ', ' ', ''])
            out = out + sp + op + sp + rhs
        return out
    e = chain(1)
    if np_ok and rng.random() < 0.12:
        e = '%s + np.maximum(%s, %s)' % (e, rng.choice(INP), rng.choice(INP))
    return e


def value(rng, arr=None):
    """Input value: a small integer-valued float or array of length arr."""
    if arr:
        return [float(rng.randint(1, 9)) for _ in range(arr)]
    return float(rng.randint(1, 9))


def valid_config(rng, tr, files=None, **kw):
    """(entries, MConfig) with a meaning; retries until the model accepts it."""
    from . import model
    md = model.build_dir(files or files_of(tr))
    for _ in range(60):
        e = config_entries(rng, tr, **kw)
        try:
            mc = model.MConfig(e, md)
        except (model.Cycle, model.Unclear, SyntaxError):
            continue
        if not mc.formulas or not mc.order_ok():
            continue
        return e
    # always acceptable
    return {'total': 'p_in * 2 + q_in', 'net': 'total - p_in'}
