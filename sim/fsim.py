"""Simulated storage: real files under one scratch root, reached only through wrapped calls.

Every listing, look-up, open, read and close that NRWAL makes below the root is one numbered I/O
call.  The plan decides, per call number, which error it returns and which writer actions happen
just before it.  Paths outside the root are passed through untouched.
"""
import builtins
import errno
import gc
import io
import os
import random
import shutil
import weakref

_real = {}
ACTIVE = None

ERRNOS = ('EIO', 'EACCES', 'ENOENT', 'ESTALE', 'EMFILE', 'ENOMEM', 'EPERM', 'ENFILE')


class SimRaw(io.RawIOBase):
    """Raw file of the simulated disk."""

    def __init__(self, sim, path):
        super().__init__()
        self._f = _real['FileIO'](path, 'r')
        self.sim = sim
        self.name = path
        self.mode = 'rb'
        sim.raws.add(self)

    def readable(self):
        return True

    def seekable(self):
        return True

    def fileno(self):
        return self._f.fileno()

    def seek(self, *a):
        return self._f.seek(*a)

    def tell(self):
        return self._f.tell()

    def readinto(self, b):
        self.sim.call('read', self.name)
        lim = self.sim.chunk
        if lim and len(b) > lim:
            mv = memoryview(b)[:lim]
            n = self._f.readinto(mv)
            if n == lim:
                self.sim.hit('short_read')
            return n
        return self._f.readinto(b)

    def close(self):
        if not self.closed:
            self._f.close()
            super().close()


class FSim:
    """One simulated disk."""

    def __init__(self, root, ctx=None):
        self.root = os.path.realpath(root)
        self.ctx = ctx
        self.n = 0
        self.trace = []
        self.on = False
        self.faults = []          # {'at': n, 'errno': name, 'span': k, 'op': optional op filter}
        self.writes = []          # {'at': n, 'path': rel, 'data': bytes|None}
        self.chunk = 0
        self.shuffle = None
        self.fired = []
        self.raws = weakref.WeakSet()
        self.timeline = {}        # rel -> [(call number, bytes|None)]
        self._lists = 0
        self.counts = {}
        os.makedirs(self.root, exist_ok=True)

    # ------------------------------------------------------------- content
    def put(self, rel, data):
        """Create/replace (atomically) or delete a file; recorded in the version timeline."""
        path = os.path.join(self.root, rel)
        old = ACTIVE_GET()
        ACTIVE_SET(None)
        try:
            if data is None:
                if os.path.exists(path):
                    os.unlink(path)
            else:
                os.makedirs(os.path.dirname(path), exist_ok=True)
                tmp = path + '.tmp~'
                with _ropen(tmp, 'wb') as f:
                    f.write(data)
                os.replace(tmp, path)
        finally:
            ACTIVE_SET(old)
        self.timeline.setdefault(rel, [])
        if not self.timeline[rel]:
            self.timeline[rel].append((0, None))
        self.timeline[rel].append((self.n, data))

    def link(self, rel, dangling):
        """Turn a file into a symbolic link to a store next to the disk, whose file may be gone."""
        path = os.path.join(self.root, rel)
        store = self.root + '.store'
        os.makedirs(store, exist_ok=True)
        dst = os.path.join(store, '%d%s' % (len(os.listdir(store)), os.path.splitext(rel)[1]))
        os.replace(path, dst)
        os.symlink(dst, path)
        if dangling:
            os.replace(dst, dst + '.gone')
            # a name whose content is gone: not a valid definition, and not an absent file
            self.timeline[rel][-1] = (self.timeline[rel][-1][0], b'')

    def versions(self, rel, start):
        """Contents the path had at any instant since call number `start`."""
        tl = self.timeline.get(rel, [(0, None)])
        out = []
        for i, (n, d) in enumerate(tl):
            nxt = tl[i + 1][0] if i + 1 < len(tl) else None
            if nxt is None or nxt > start:
                if d not in out:
                    out.append(d)
        return out

    def hit(self, k):
        if self.ctx is not None:
            self.ctx.hit(k)

    # ------------------------------------------------------------- calls
    def mine(self, path):
        if not self.on:
            return None
        try:
            p = os.fspath(path)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.abspath(p)
        if p == self.root or p.startswith(self.root + os.sep):
            return p
        return None

    def call(self, op, path):
        if not self.on:
            return
        self.n += 1
        n = self.n
        rel = os.path.relpath(path, self.root)
        for w in self.writes:
            if w['at'] == n and not w.get('done'):
                w['done'] = True
                self.put(w['path'], w['data'])
                self.fired.append(('write', n, w['path']))
                self.hit('writer_' + ('delete' if w['data'] is None else 'replace'))
                if self.ctx is not None:
                    self.ctx.ev('io', n, 'writer', w['path'])
        self.trace.append((op, rel))
        for f in self.faults:
            if 'path' in f:
                hit = op in f['ops'] and (rel == f['path'] or (
                    f.get('below') and rel.startswith(f['path'] + '/')))
                if hit and f.get('nth'):
                    # from the nth such call on
                    k = (f['path'], tuple(f['ops']))
                    self.counts[k] = self.counts.get(k, 0) + 1
                    hit = self.counts[k] >= f['nth']
            else:
                hit = f['at'] <= n < f['at'] + f.get('span', 1)
            # "no such file" is only ever reported for a file that is really gone
            if hit and f['errno'] == 'ENOENT' and op != 'open':
                f = dict(f, errno='ESTALE')
            if hit:
                self.fired.append(('err', n, op, rel, f['errno']))
                self.hit('io_error_%s_%s' % (op, f['errno']))
                if self.ctx is not None:
                    self.ctx.ev('io', n, op, rel, f['errno'])
                e = getattr(errno, f['errno'])
                raise OSError(e, os.strerror(e), path)
        if self.ctx is not None:
            self.ctx.ev('io', n, op, rel)

    def order(self, names, path):
        if self.shuffle is None:
            return sorted(names)
        self._lists += 1
        names = sorted(names)
        random.Random('%s/%s/%d' % (self.shuffle, os.path.relpath(path, self.root),
                                    self._lists)).shuffle(names)
        return names

    # ------------------------------------------------------------- control
    def __enter__(self):
        self._old = ACTIVE_GET()
        ACTIVE_SET(self)
        self.on = True
        return self

    def __exit__(self, *a):
        self.on = False
        ACTIVE_SET(self._old)

    def open_files(self, collect=True):
        if collect:
            gc.collect()
        return sorted(os.path.relpath(r.name, self.root) for r in list(self.raws) if not r.closed)

    def wipe(self):
        shutil.rmtree(self.root, ignore_errors=True)
        shutil.rmtree(self.root + '.store', ignore_errors=True)


def ACTIVE_GET():
    return ACTIVE


def ACTIVE_SET(v):
    global ACTIVE
    ACTIVE = v


def _ropen(*a, **k):
    return _real['open'](*a, **k)


def _open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True,
          opener=None):
    s = ACTIVE
    p = s.mine(file) if s is not None and not isinstance(file, int) else None
    if p is None:
        return _real['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
    s.call('open', p)
    if any(c in mode for c in 'wax+'):
        return _real['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
    raw = SimRaw(s, p)
    if buffering == 0:
        return raw
    buf = io.BufferedReader(raw, buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE)
    if 'b' in mode:
        return buf
    enc = io.text_encoding(encoding)
    if enc == 'locale' or encoding is None:
        enc = 'utf-8'
    t = io.TextIOWrapper(buf, enc, errors, newline)
    t.mode = mode
    return t


def _wrap1(name, op):
    def f(path='.', *a, **k):
        s = ACTIVE
        p = None
        if s is not None and not isinstance(path, int):
            p = s.mine(path)
        if p is not None:
            s.call(op, p)
        return _real[name](path, *a, **k)
    f.__name__ = name
    return f


def _listdir(path='.'):
    s = ACTIVE
    p = s.mine(path) if s is not None and not isinstance(path, int) else None
    if p is None:
        return _real['listdir'](path)
    s.call('list', p)
    return s.order(_real['listdir'](path), p)


class _Scan:
    def __init__(self, entries):
        self._e = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._e)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


def _scandir(path='.'):
    s = ACTIVE
    p = s.mine(path) if s is not None and not isinstance(path, int) else None
    if p is None:
        return _real['scandir'](path)
    s.call('list', p)
    with _real['scandir'](path) as it:
        ent = {e.name: e for e in it}
    return _Scan([ent[n] for n in s.order(list(ent), p)])


def patch():
    """Install the wrappers (once, before any run)."""
    if _real:
        return
    _real.update(open=builtins.open, listdir=os.listdir, scandir=os.scandir, stat=os.stat,
                 lstat=os.lstat, FileIO=io.FileIO, access=os.access, osopen=os.open)
    builtins.open = _open
    io.open = _open
    os.listdir = _listdir
    os.scandir = _scandir
    os.stat = _wrap1('stat', 'stat')
    os.lstat = _wrap1('lstat', 'stat')
