"""Models (assumed contracts) of library services: files and pickling, min/max and numpy.histogram of unbounded sequences."""
import types, z3, os as _os
from .core import *
from .seq import *
from . import core, maps

# ------------------------------------------------------------------ files
class Store:
    """the files of one execution: path -> content (('pickle', object) or ('text', str))"""
    def __init__(self): self.files, self.dirs, self.log = {}, set(), []

def store():
    d = ctx().path.__dict__
    if 'files' not in d: d['files'] = Store()
    return d['files']

class FileModel:
    def __init__(self, st, path, mode):
        self.st, self.path, self.mode, self.closed, self.pos = st, path, mode, False, 0
        st.log.append((mode, path))
        if 'w' in mode: st.files[path] = ('bytes', ()) if 'b' in mode else ('text', '')
        elif 'x' in mode:
            if path in st.files: raise FileExistsError(17, 'File exists', path)
            st.files[path] = ('text', '')
        elif path not in st.files:
            if 'a' in mode: st.files[path] = ('text', '')
            else: raise FileNotFoundError(2, 'No such file or directory', path)
    def __enter__(self): return self
    def __exit__(self, *a): self.close()
    def close(self): self.closed = True
    def _open(self):
        if self.closed: raise ValueError("I/O operation on closed file.")
    def write(self, s):
        self._open()
        if 'r' in self.mode and '+' not in self.mode: raise OSError('not writable')
        if not isinstance(s, str): raise TypeError("write() argument must be str, not %s" % type(s).__name__)
        k, old = self.st.files[self.path]
        if k != 'text': old = ''
        if not (type(s) is str and type(old) is str):
            # a text known as a whole only
            if type(old) is str and old[:self.pos] == '' and old[self.pos:] == '': self.st.files[self.path] = ('text', s)
            elif type(s) is str and s == '': pass
            else:
                o = maps.OtherText()
                if 'a' not in self.mode and self.pos == 0: o.head = s         # what is left of the longer one follows, maybe
                self.st.files[self.path] = ('text', o)
            self.pos = 1; return 1
        self.st.files[self.path] = ('text', old[:self.pos] + s + old[self.pos + len(s):]); self.pos += len(s)
        return len(s)
    def read(self, n=-1):
        self._open()
        k, t = self.st.files[self.path]
        if k != 'text': raise UnicodeDecodeError('utf-8', b'', 0, 1, 'binary')
        if type(t) is not str:
            if n is not None and n >= 0: raise Unsupported("reading a part of a text")
            if self.pos: return ''
            self.pos = 1; return t
        r = t[self.pos:] if n is None or n < 0 else t[self.pos:self.pos + n]
        self.pos += len(r); return r
    def seek(self, p, w=0): self.pos = p; return p
    def tell(self): return self.pos
    def truncate(self, n=None):
        k, t = self.st.files[self.path]; n = self.pos if n is None else n
        if n == 0: self.st.files[self.path] = ('text', ''); return 0
        if getattr(t, 'head', None) is not None and n == 1:
            self.st.files[self.path] = (k, t.head); return n
        if type(t) is not str: raise Unsupported("truncating a text")
        self.st.files[self.path] = (k, t[:n]); return n
    def flush(self): pass
    def readlines(self): return self.read().splitlines(True)
    def __iter__(self): return iter(self.readlines())

def open_model(path, mode='r', *a, **k):
    st = store()
    if not isinstance(path, str): raise Unsupported("opening %r" % (path,))
    if path in st.dirs: raise IsADirectoryError(21, 'Is a directory', path)
    return FileModel(st, path, mode)

def make_os():
    m = types.ModuleType('os'); m.path = types.ModuleType('os.path')
    real = _os.path
    for n in ('join', 'basename', 'dirname', 'split', 'splitext', 'sep', 'normpath'): setattr(m.path, n, getattr(real, n))
    m.sep, m.linesep, m.name = _os.sep, _os.linesep, _os.name
    m.path.expanduser = lambda p: p.replace('~', '/home/user', 1) if p.startswith('~') else p
    m.path.abspath = lambda p: real.normpath(real.join('/work', p))
    m.path.realpath = m.path.abspath
    m.path.exists = lambda p: p in store().files or p in store().dirs
    m.path.isfile = lambda p: p in store().files
    m.path.isdir = lambda p: p in store().dirs
    def getsize(p):
        if p not in store().files: raise FileNotFoundError(2, 'No such file or directory', p)
        return 100
    m.path.getsize = getsize
    def remove(p):
        if p not in store().files: raise FileNotFoundError(2, 'No such file or directory', p)
        del store().files[p]
    m.remove = m.unlink = remove
    def mkdir(p, *a, **k):
        if p in store().dirs and not k.get('exist_ok'): raise FileExistsError(17, 'File exists', p)
        store().dirs.add(p)
    m.mkdir = m.makedirs = mkdir
    def replace(a, b):
        if a not in store().files: raise FileNotFoundError(2, 'No such file or directory', a)
        store().files[b] = store().files.pop(a)
    m.replace = m.rename = replace
    m.environ = {}
    m.cpu_count = lambda: 4
    m.getpid = lambda: 4242
    def other(n):
        if n.startswith('__'): raise AttributeError(n)
        raise Unsupported("os." + n)
    m.__getattr__ = other
    def pother(n):
        if n.startswith('__'): raise AttributeError(n)
        raise Unsupported("os.path." + n)
    m.path.__getattr__ = pother
    return m

def make_pickle(engine, deepcopy):
    """assumed contract: what is loaded is a separate, equal copy of what was dumped when it was dumped"""
    m = types.ModuleType('pickle')
    class UnpicklingError(Exception): pass
    class PicklingError(Exception): pass
    def dump(obj, f, *a, **k):
        f._open()
        if 'b' not in f.mode: raise TypeError("write() argument must be str, not bytes")
        obj = force(obj)
        if isinstance(obj, SList): obj = SList(obj.snapshot())
        f.st.files[f.path] = ('pickle', obj, False)
    def load(f, *a, **k):
        f._open()
        if 'b' not in f.mode: raise TypeError("a bytes-like object is required, not 'str'")
        c = f.st.files[f.path]
        if c[0] != 'pickle': raise UnpicklingError('invalid load key')
        if c[2]:
            f.st.files[f.path] = (c[0], c[1], False)      # the separate copy the contract speaks of
            return c[1]
        return deepcopy(c[1])
    class Pickler:
        def __init__(self, f, *a, **k): self.f = f
        def dump(self, obj): dump(obj, self.f)
    class Unpickler:
        def __init__(self, f, *a, **k): self.f = f
        def load(self): return load(self.f)
    m.dump, m.load, m.Pickler, m.Unpickler, m.UnpicklingError, m.PicklingError = dump, load, Pickler, Unpickler, UnpicklingError, PicklingError
    m.HIGHEST_PROTOCOL, m.DEFAULT_PROTOCOL = 5, 4
    return m

# ------------------------------------------------------------------ processes
def make_multiprocessing(engine):
    """assumed contract: a pool applies a function to every item and returns the results in order, or raises"""
    m = types.ModuleType('multiprocessing')
    class Pool:
        def __init__(self, processes=None, *a, **k):
            processes = force(processes)
            if processes is not None:
                if not isinstance(processes, (SInt, int)): raise TypeError("processes must be an integer")
                if ctx().branch(to_int(processes) < 1): raise ValueError("Number of processes must be at least 1")
            if ctx().decide(['starts', 'does not start']) != 'starts': raise OSError(12, 'Cannot allocate memory')
            self.closed = False
        def __enter__(self):
            if self.closed: raise ValueError("Pool not running")
            return self
        def __exit__(self, *a): self.closed = True
        def close(self): self.closed = True
        def terminate(self): self.closed = True
        def join(self): pass
        def _run(self, f, it):
            if self.closed: raise ValueError("Pool not running")
            if ctx().decide(['completes', 'fails']) == 'fails': raise RuntimeError("a worker failed")
            return engine.lazy_map(it, f)
        def starmap(self, f, it, chunksize=None): return self._run(lambda a: f(*force(a)), it)
        def map(self, f, it, chunksize=None): return self._run(f, it)
        imap = map
    m.Pool = Pool
    m.cpu_count = lambda: ctx().path.__dict__.setdefault('cpus', None) or _cpus()
    def _cpus():
        n = ctx().int(hint='cpus')
        ctx().assume_fact(n.t >= 1)
        ctx().path.__dict__['cpus'] = n
        return n
    def other(n):
        if n.startswith('__'): raise AttributeError(n)
        raise Unsupported("multiprocessing." + n)
    m.__getattr__ = other
    return m

# ------------------------------------------------------------------ functions of unbounded sequences: equal sequences, equal results
def memo(kind):
    return ctx().path.__dict__.setdefault('memo.' + kind, [])

def extreme(kind, it):
    """min / max: one of the values, no value is beyond it"""
    c = ctx()
    segs = normalize(as_segs(it))
    n = I(total(segs))
    if c.branch(n == 0): raise ValueError(kind + "() iterable argument is empty")
    for s, r in memo(kind):
        if seq_same(segs, s): return r
    l = SList.__new__(SList); l.segs = segs; l.id = -1
    w = z3.Int(c.fresh_name('arg' + kind))
    c.assume_fact(z3.And(w >= 0, w < n))
    x = force(l.get(w))
    if not isinstance(x, (SReal, SInt, int, float)): raise Unsupported(kind + " of something else than numbers")
    r = SReal(to_real(x))
    memo(kind).append((segs, r))
    return r

def histogram(engine, NpList, FnBase, values, bins, rng):
    """counts and bin edges depend on the values, the number of bins and the range only"""
    c = ctx()
    segs = normalize(as_segs(values))
    bins = force(bins)
    if isinstance(bins, (SReal, float)): raise TypeError("`bins` must be an integer, a string, or an array")
    if not isinstance(bins, (SInt, int)): raise Unsupported("histogram with given edges")
    if c.branch(to_int(bins) < 1): raise ValueError("`bins` must be positive, when an integer")
    if rng is None:
        lo, hi = extreme('min', values), extreme('max', values)
    else:
        lo, hi = rng
        lo, hi = force(lo), force(hi)
        if bool(lo > hi): raise ValueError("max must be larger than min in range parameter.")
    b, l, h = to_int(bins), to_real(lo), to_real(hi)
    for s, b2, l2, h2, r in memo('histogram'):
        if c.valid(z3.And(b == b2, l == l2, h == h2)) and seq_same(segs, s): return NpList(r[0].snapshot()), NpList(r[1].snapshot())
    k = len(memo('histogram'))
    counts = NpList([Opq('histogram.counts', (k,), b, nonempty=True)])
    E = z3.Function('histogram.edge', z3.IntSort(), z3.IntSort(), z3.RealSort())
    edges = NpList([Seg(FnBase(('histogram.edges', k), b + 1, lambda i: SReal(E(z3.IntVal(k), I(i)))), 0, b + 1)])
    memo('histogram').append((segs, b, l, h, (counts, edges)))
    if engine is not None: engine._maps.append(FnBase(('histogram.centres', k), b, lambda i: centre(edges, i)))     # offered as a loop invariant
    return NpList(counts.snapshot()), NpList(edges.snapshot())

def centre(edges, i):
    b = edges.segs[0].base
    return (b.elem(i) + b.elem(simp(I(i) + 1))) / 2
