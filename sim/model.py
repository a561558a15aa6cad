"""Reference model: what a set of stored definitions means.  Written over Python ASTs, shares no
code with NRWAL."""
import ast
import copy
import json
import math

import numpy as np
import yaml

ILLEGAL = ('import ', 'os.', 'sys.', '.__', '__.', 'eval', 'exec')


class Reject(Exception):
    """The content is not a valid definition."""


class Unclear(Exception):
    """The content is outside what the model gives a meaning to."""


def is_num(s):
    try:
        float(str(s))
        return True
    except ValueError:
        return False


def fnum(v):
    return float(v)


# ------------------------------------------------------------------ formulas

def parse_formula(text):
    text = str(text)
    if any(x in text for x in ILLEGAL):
        raise Reject('illegal text')
    try:
        tree = ast.parse(text.strip(), mode='eval').body
    except (SyntaxError, ValueError, RecursionError, MemoryError):
        raise Unclear('does not compile')
    for n in ast.walk(tree):
        if not isinstance(n, (ast.BinOp, ast.UnaryOp, ast.Constant, ast.Name, ast.Call,
                              ast.Attribute, ast.operator, ast.unaryop, ast.Load)):
            raise Unclear(type(n).__name__)
        if isinstance(n, (ast.BitXor, ast.FloorDiv, ast.Mod, ast.BitOr, ast.BitAnd, ast.MatMult,
                          ast.LShift, ast.RShift, ast.Invert, ast.Not)):
            raise Unclear(type(n).__name__)
        if isinstance(n, ast.Constant) and (not isinstance(n.value, (int, float))
                                            or isinstance(n.value, bool)):
            raise Unclear('constant')
        if isinstance(n, ast.Attribute) and not (isinstance(n.value, ast.Name)
                                                 and n.value.id == 'np'):
            raise Unclear('attribute')
        if isinstance(n, ast.Call) and not isinstance(n.func, ast.Attribute):
            raise Unclear('call')
        if isinstance(n, ast.Name) and (not n.id.isascii() or n.id.lower() in (
                'nan', 'inf', 'infinity')):
            raise Unclear('name')
    return tree


def free(tree):
    out = set()

    def walk(n):
        if isinstance(n, ast.Attribute):
            return
        if isinstance(n, ast.Name):
            out.add(n.id)
        for c in ast.iter_child_nodes(n):
            walk(c)
    walk(tree)
    return out


class _Subst(ast.NodeTransformer):
    def __init__(self, mapping):
        self.m = mapping

    def visit_Attribute(self, node):
        return node

    def visit_Name(self, node):
        if node.id in self.m:
            return copy.deepcopy(self.m[node.id])
        return node


def subst(tree, mapping):
    return _Subst(mapping).visit(copy.deepcopy(tree))


def compute(tree, env):
    """Plain evaluation of a formula AST."""
    expr = ast.Expression(tree)
    ast.fix_missing_locations(expr)
    return eval(compile(expr, '<model>', 'eval'), {'np': np, '__builtins__': {}}, dict(env))


# names that formula evaluation cannot treat as plain inputs
RESERVED = set(dir(dict)) | {'np', 'copy', 're', 'logging', 'logger', 'Equation'} | \
    set(dir(__builtins__) if not isinstance(__builtins__, dict) else __builtins__)


class MEqn:
    kind = 'eqn'

    def __init__(self, tree, name=None, defaults=None):
        self.tree = tree
        self.name = name
        self.defaults = dict(defaults or {})

    @property
    def variables(self):
        return sorted(free(self.tree))

    def value(self, env):
        e = dict(self.defaults)
        e.update(env)
        return compute(self.tree, e)

    def set_defaults(self, d):
        self.defaults.update(d)

    def binop(self, other, op):
        ops = {'+': ast.Add, '-': ast.Sub, '*': ast.Mult, '/': ast.Div, '**': ast.Pow}
        d = dict(self.defaults)
        d.update(other.defaults)
        return MEqn(ast.BinOp(copy.deepcopy(self.tree), ops[op](), copy.deepcopy(other.tree)),
                    None, d)

    def clone(self):
        return MEqn(copy.deepcopy(self.tree), self.name, self.defaults)


class MGroup:
    kind = 'group'

    def __init__(self, items, name=None):
        self.items = items          # key -> MEqn | MGroup, in stored order
        self.name = name
        self.defaults = {}

    def set_defaults(self, d):
        self.defaults.update(d)
        for v in self.items.values():
            v.set_defaults(d)

    def merge(self, other):
        out = self.clone()
        for k, v in other.items.items():
            out.items[k] = v.clone()
        out.set_defaults(other.defaults)
        return out

    def clone(self):
        g = MGroup({k: v.clone() for k, v in self.items.items()}, self.name)
        g.defaults = dict(self.defaults)
        return g

    def walk(self, pre=()):
        for k, v in self.items.items():
            if v.kind == 'group':
                yield from v.walk(pre + (k,))
            else:
                yield pre + (k,), v


class MVars:
    kind = 'vars'

    def __init__(self, items):
        self.items = items

    def clone(self):
        return MVars(dict(self.items))


class MDir:
    kind = 'dir'

    def __init__(self, items):
        self.items = items
        self.defaults = {}

    def set_defaults(self, d, force=False):
        d = dict(d)
        if 'variables' in self.items and not force:
            d.update(self.items['variables'].items)
        self.defaults.update(d)
        for v in self.items.values():
            if v.kind == 'dir':
                v.set_defaults(d, force)
            elif v.kind == 'group':
                v.set_defaults(d)

    def merge(self, other):
        out = self.clone()
        for k, v in other.items.items():
            out.items[k] = v.clone()
        out.set_defaults(other.defaults)
        return out

    def clone(self):
        o = MDir({k: v.clone() for k, v in self.items.items()})
        o.defaults = dict(self.defaults)
        return o

    def walk(self, pre=()):
        for k, v in self.items.items():
            if v.kind in ('group', 'dir'):
                yield from v.walk(pre + (k,))


def build_group(data, name=None):
    """Meaning of a mapping of names to formulas / nested groups."""
    if not isinstance(data, dict):
        raise Reject('not a mapping')
    data = {str(k) if isinstance(k, (str, int, float)) and not isinstance(k, bool)
            else _unclear('key'): v for k, v in data.items()}
    items, trees = {}, {}
    unclear = None
    reject = None
    for k, v in data.items():
        try:
            if is_num(k):
                raise Reject('numeric key')
            if isinstance(v, bool):
                raise Unclear('bool')
            if isinstance(v, float) and not math.isfinite(v):
                raise Unclear('inf')
            if isinstance(v, (str, int, float)):
                trees[k] = parse_formula(v)
                items[k] = None
            elif isinstance(v, dict):
                items[k] = build_group(v, k)
            else:
                raise Reject('bad value type')
        except Reject as e:
            reject = e
        except Unclear as e:
            unclear = e
    if reject:
        raise reject
    if unclear:
        raise unclear
    deps = {k: [x for x in free(t) if x in data] for k, t in trees.items()}
    for k in trees:
        if free(trees[k]) & RESERVED:
            raise Unclear('reserved name')
        if any(x not in trees for x in deps[k]):
            raise Unclear('formula refers to a sub group')
    done = {}

    def resolve(k, stack):
        if k in stack:
            raise Reject('circular definition of %s' % k)
        if k not in done:
            done[k] = subst(trees[k], {d: resolve(d, stack + (k,)) for d in sorted(deps[k])})
        return done[k]
    for k in trees:
        items[k] = MEqn(resolve(k, ()), k)
    return MGroup({k: items[k] for k in data}, name)


def _unclear(x):
    raise Unclear(x)


def build_vars(data):
    if not isinstance(data, dict):
        raise Reject('not a mapping')
    out = {}
    for k, v in data.items():
        if isinstance(k, bool) or not isinstance(k, (str, int, float)):
            raise Unclear('key')
        if is_num(str(k)):
            raise Reject('numeric key')
        if isinstance(v, bool):
            raise Unclear('bool')
        if not isinstance(v, (int, float)):
            raise Reject('not a number')
        out[str(k)] = float(v)
    return MVars(out)


def load_bytes(raw, rel):
    """Structured content of a stored file."""
    try:
        text = raw.decode('utf-8')
    except UnicodeDecodeError:
        raise Reject('not text')
    text = text.replace('\r\n', '\n').replace('\r', '\n')
    try:
        if rel.endswith('.json'):
            return json.loads(text)
        return yaml.safe_load(text)
    except (yaml.YAMLError, ValueError, RecursionError):
        raise Reject('syntax')
    except Exception as e:           # PyYAML constructor quirks (dates, unhashable keys ...)
        raise Reject('construct: %r' % e)


def build_file(raw, rel):
    data = load_bytes(raw, rel)
    stem = rel.rsplit('/', 1)[-1].rsplit('.', 1)[0]
    if stem == 'variables':
        return build_vars(data)
    return build_group(data, rel.rsplit('/', 1)[-1])


def ignored(name):
    return name.startswith(('.', '__'))


def is_def(name):
    return name.endswith(('.json', '.yml', '.yaml'))


def stem(name):
    return name.rsplit('.', 1)[0]


def build_dir(files, lenient=False):
    """files: rel -> bytes.  Meaning of the directory tree."""
    d = _dir(files, lenient)
    d.set_defaults({})
    return d


def children(files):
    """name -> ('file', bytes) | ('dir', {rel: bytes})"""
    ch = {}
    for rel, raw in files.items():
        head, _, tail = rel.partition('/')
        if tail:
            ch.setdefault(head, ('dir', {}))[1][tail] = raw
        else:
            ch[head] = ('file', raw)
    return ch


class MAny:
    """Stands for an object the model gives no meaning to."""
    kind = 'any'
    items = {}

    def clone(self):
        return self

    def set_defaults(self, d, force=False):
        pass

    def walk(self, pre=()):
        return iter(())


def _dir(files, lenient=False):
    items = {}
    ch = children(files)
    for name in sorted(ch):
        k, v = ch[name]
        if ignored(name):
            continue
        if k == 'dir':
            sub = _dir(v, lenient)
            if sub.items:
                items[name] = sub
        elif is_def(name):
            try:
                items[stem(name)] = build_file(v, name)
            except Unclear:
                if not lenient or stem(name) == 'variables':
                    raise
                items[stem(name)] = MAny()
    return MDir(items)


# ------------------------------------------------------------------ configs

import re as _re

_REF = _re.compile(r'[A-Za-z_]\w*(?:::[A-Za-z_]\w*)+')
FLAGS = ('interp_extrap_power', 'use_nearest_power', 'interp_extrap_year', 'use_nearest_year')


class Cycle(Exception):
    pass


class MConfig:
    """Meaning of a config over a directory model."""

    def __init__(self, entries, mdir):
        self.entries = dict(entries)
        self.dir = mdir
        self.kind = {}
        self.tree = {}
        self.defs = {}
        self.np_dep = {}        # numpy calls over names are only evaluated with the inputs
        for k in self.entries:
            self._parse(k, ())
        self.formulas = [k for k in self.entries if self.kind[k] == 'formula']
        self.consts = [k for k in self.entries if self.kind[k] == 'const']
        self.groups = [k for k in self.entries if self.kind[k] == 'object']
        self.inputs = {}

    def lookup(self, path):
        cur = self.dir
        for p in path:
            cur = cur.items[p]
        return cur

    def _parse(self, k, stack):
        if k in self.tree or self.kind.get(k) == 'object':
            return
        if k in stack:
            raise Cycle(k)
        text = self.entries[k]
        if not isinstance(text, str):
            self.tree[k] = ast.Constant(text)
            self.kind[k] = 'const'
            self.defs[k] = {}
            self.np_dep[k] = False
            return
        if text.strip() in self.dir.items and text.strip() not in self.entries:
            self.kind[k] = 'object'
            return
        refs = {}

        def rep(m):
            n = 'ref_%d_' % len(refs)
            refs[n] = m.group(0)
            return n
        body = _REF.sub(rep, text)
        mapping, defs = {}, {}
        tree = ast.parse(body.strip(), mode='eval').body
        # names in numpy calls are bound when the entry is evaluated; other names are put in place
        inside = set()
        for c in ast.walk(tree):
            if isinstance(c, ast.Call):
                for a in c.args:
                    inside |= free(a)
        if inside & set(refs):
            raise Unclear('library reference in numpy call')
        for n in sorted(inside & set(self.entries)):
            self._parse(n, stack + (k,))
            if self.kind[n] == 'object':
                raise Unclear('group in numpy call')
        tree = _LateCalls().visit(tree)
        for n in sorted(free(tree)):
            if n.startswith('late_'):
                continue
            if n in refs:
                path = refs[n].split('::')
                if path[0] in self.entries:
                    self._parse(path[0], stack + (k,))
                    base = self.entries[path[0]].split('::')
                    path = base + path[1:]
                obj = self.lookup(path)
                if obj.kind in ('group', 'dir'):
                    if not isinstance(tree, ast.Name):
                        raise Unclear('group in expression')
                    self.kind[k] = 'object'
                    return
                mapping[n] = _late(obj.tree)
                defs.update(obj.defaults)
            elif n in self.entries:
                self._parse(n, stack + (k,))
                if self.kind[n] == 'object':
                    raise Unclear('group in expression')
                mapping[n] = self.tree[n]
                defs.update(self.defs[n])
            else:
                mapping[n] = ast.Name('late_' + n, ast.Load())
        self.tree[k] = subst(tree, mapping)
        self.defs[k] = defs
        self.np_dep[k] = any(isinstance(n, ast.Call) and any(free(a) for a in n.args)
                             for n in ast.walk(tree)) or any(
            self.np_dep.get(n) for n in free(tree) if n in self.entries)
        self.kind[k] = 'formula' if self.late(k) or self.np_dep[k] else 'const'

    def late(self, k):
        return {n[5:] for n in free(self.tree[k])}

    def required(self):
        out = set()
        for k in self.formulas:
            out |= {n for n in self.late(k) if n not in self.entries and n not in self.defs[k]}
        return sorted(out)

    def missing(self):
        return sorted(x for x in self.required() if x not in self.inputs)

    def order_ok(self):
        """No entry depends on itself through names bound at evaluation time."""
        try:
            self.evaluate({n: 1.0 for k in self.formulas for n in self.late(k)})
            return True
        except Cycle:
            return False

    def deps(self, k):
        """All names bound at evaluation time that entry k depends on, through other entries."""
        out, todo = set(), [k]
        while todo:
            for n in self.late(todo.pop()):
                if n not in out:
                    out.add(n)
                    if n in self.formulas:
                        todo.append(n)
        return out

    def evaluate(self, inputs=None, only=None):
        """name -> (value, error bound) for every formula entry (and constants)."""
        inp = self.inputs if inputs is None else inputs
        done = {}

        def val(k, stack):
            if k in stack:
                raise Cycle(k)
            if k not in done:
                def look(n):
                    n = n[5:]
                    if n in self.entries and self.kind[n] == 'formula':
                        return val(n, stack + (k,))
                    if n in inp:
                        return _inp(inp[n])
                    if n in self.entries and self.kind[n] == 'const':
                        return val(n, stack + (k,))
                    return (float(self.defs[k][n]), 0.0)
                done[k] = bound_eval(self.tree[k], look)
            return done[k]
        for k in (self.formulas + self.consts if only is None else [only]):
            val(k, ())
        return done


class _LateCalls(ast.NodeTransformer):
    def visit_Call(self, node):
        node.args = [_late(a) for a in node.args]
        return node


def _late(tree):
    return subst(tree, {n: ast.Name('late_' + n, ast.Load()) for n in free(tree)})


def _inp(v):
    a = np.asarray(v, dtype=np.float64)
    return a, np.abs(a) * 1e-7 if a.ndim else 0.0


EPS = 3e-7


def bound_eval(tree, look):
    """Value with a running error bound (single precision unit, safety factor in `close`)."""
    def ev(n):
        if isinstance(n, ast.Constant):
            return float(n.value), 0.0
        if isinstance(n, ast.Name):
            return look(n.id)
        if isinstance(n, ast.UnaryOp):
            v, e = ev(n.operand)
            return (-v, e) if isinstance(n.op, ast.USub) else (v, e)
        if isinstance(n, ast.BinOp):
            a, ea = ev(n.left)
            b, eb = ev(n.right)
            with np.errstate(all='ignore'):
                if isinstance(n.op, ast.Add):
                    v, e = a + b, ea + eb
                elif isinstance(n.op, ast.Sub):
                    v, e = a - b, ea + eb
                elif isinstance(n.op, ast.Mult):
                    v, e = a * b, np.abs(a) * eb + np.abs(b) * ea + ea * eb
                elif isinstance(n.op, ast.Div):
                    v = np.float64(a) / b if not isinstance(a, np.ndarray) else a / b
                    e = (ea + np.abs(v) * eb) / np.maximum(np.abs(b) - eb, 1e-300)
                elif isinstance(n.op, ast.Pow):
                    v = a ** b
                    e = np.abs(v) * (np.abs(b) * ea / np.maximum(np.abs(a), 1e-300) * 2)
                else:
                    raise Unclear('op')
                return v, e + EPS * np.abs(v)
        if isinstance(n, ast.Call):
            args = [ev(a) for a in n.args]
            f = getattr(np, n.func.attr)
            v = f(*[a for a, _ in args])
            return v, sum(e for _, e in args) + EPS * np.abs(v)
        raise Unclear(type(n).__name__)
    return ev(tree)


def close(got, want):
    """got within the error bound of want=(value, err)."""
    v, e = want
    try:
        g = np.asarray(got, dtype=np.float64)
    except (TypeError, ValueError):
        return False
    v = np.asarray(v, dtype=np.float64)
    if g.shape != v.shape:
        return False
    with np.errstate(all='ignore'):
        ok = (np.abs(g - v) <= 8 * np.asarray(e) + 1e-9 * np.abs(v)) | (g == v) | \
            (np.isnan(g) & np.isnan(v)) | ~np.isfinite(v)
    return bool(np.all(ok))
