"""The engine: loads the instrumented library, replaces builtins and numeric modules, and holds the
specification of the iterables and abstract elements used by the contracts."""
import sys, types, math, importlib, os, ast, tempfile, warnings as _warnings, functools
import builtins as _b
import z3
from . import core, solve, instrument, models, maps
from .core import *
from .seq import *
from .seq import I, simp
from .runtime import Runtime, GenView, Poison, NativeFor
from collections import namedtuple

ENGINE = None
LIBMODS = ['utils', 'interface', 'graphicComponents', 'graphics', 'figure', 'ray', 'gaussianbeam', 'rays', 'matrix', 'matrixgroup', 'imagingpath', 'laserpath',
           'lasercavity', 'components', 'materials', 'specialtylenses', 'axicon', 'preferences', 'thorlabs', 'eo', 'olympus',
           'zemax']

NUMCLS = {str: (maps.SKey,), float: (SReal,), int: (SInt, SBool), bool: (SBool,), complex: (SComplex,), list: (SList,)}


class TypeProxy:
    """type() of an abstract element: its exact class is unknown"""
    def __init__(self, obj): self.obj = obj
    @property
    def __name__(self): return NameProxy(self.obj)
    def __eq__(self, o):
        if o is self: return True
        return self.obj._rtv_exact(o.__name__)
    def __ne__(self, o): return s_not(self.__eq__(o))
    def __hash__(self): raise Unsupported("hash of an abstract type")
class NameProxy:
    def __init__(self, obj): self.obj = obj
    def __eq__(self, o): return self.obj._rtv_exact(o)
    def __ne__(self, o): return s_not(self.__eq__(o))
    def __hash__(self): raise Unsupported("hash of an abstract type name")
    def __str__(self): return "<type>"
    __repr__ = __str__
    def __format__(self, s): return "<type>"


def lift(f):
    return f


class Engine:
    def __init__(self):
        global ENGINE
        ENGINE = self
        self.runtime = Runtime(self)
        self.stub_modules = {}
        self.builtins = self.make_builtins()
        # iteration contracts of the library's collections (contracts iterate*, C03 and C16)
        self.iterables = {'MatrixGroup': lambda o: as_segs(o.elements), 'RandomRays': lambda o: None,
                          'Rays': lambda o: as_segs(o._rays) if o.__dict__.get('_rays') is not None else None}
        self.iter_effects = {'MatrixGroup': lambda o, n: setattr(o, 'iteration', n), 'Rays': lambda o, n: setattr(o, 'iteration', n)}
        self.modules = {}
        self.lib_classes = []
        self.warnings_log = None
        self.ns = types.SimpleNamespace()
        self.opened = None      # model of open()
        self.reset_hints()
        self.fold_providers = []

    # ---------------------------------------------------------------- hints of the current harness
    def reset_hints(self):
        self._emits, self._maps, self._invs, self._facts = [], [], [], []
        self._seqs, self._hints, self._witness = [], [], []
    def harness_emits(self): return self._emits
    def harness_maps(self): return self._maps
    def harness_seqs(self): return self._seqs
    def harness_invariants(self, loop, state, k):
        out = []
        for f in self._invs: out += f(loop, state, k)
        return out
    def class_invariant(self, loop, key, fields, k, entry):
        """loop invariant offered: a group modified by the loop is the product of its elements"""
        o = loop.find_obj(key)
        l = o.__dict__.get('elements')
        if not isinstance(l, SList) or 'A' not in fields: return []
        try: S = self.g.fold(l)
        except Unsupported: return []
        return self.g.product_candidates(('obj', key), fields, S, k, entry)
    def loop_facts(self, loop, src, k):
        for s in src:
            if isinstance(s, Seg):
                base, lo = s.base, s.lo
                if hasattr(base, 'under'): base, lo = base.under[0], simp(base.under[1] + lo)
                i = simp(lo + k)
                base.access_facts(i)
                if getattr(loop, 'mode', None) == 'body':
                    for f in getattr(base, 'step_facts', []): f(lo, i)
                for f in getattr(base, 'lo_facts', []): f(lo)
        for f in self._facts: f(loop, src, k)

    # ---------------------------------------------------------------- loading
    def builtins_of(self, module):
        """dictionaries of the preferences may have any content"""
        if module.__name__.endswith('.materials'):
            d = dict(self.builtins); d['globals'] = lambda: maps.Namespace(module.__dict__)
            return d
        if not module.__name__.endswith('.preferences'): return self.builtins
        d = dict(self.builtins); d['dict'] = maps.MapModel
        return d
    def load(self, mods=None):
        self.home = tempfile.mkdtemp(prefix='rtvhome')
        import atexit, shutil
        atexit.register(lambda: shutil.rmtree(self.home, ignore_errors=True))
        pkg = types.ModuleType('raytracing')
        pkg.__path__ = [os.path.join(instrument.REPO, 'raytracing')]
        pkg.__package__ = 'raytracing'
        sys.modules['raytracing'] = pkg
        self.pkg = pkg
        sys.meta_path.insert(0, instrument.Finder(self))
        sys.dont_write_bytecode = True
        self.make_helpers()
        init = open(os.path.join(instrument.REPO, 'raytracing', '__init__.py')).read()
        wanted = mods or LIBMODS
        for node in ast.parse(init).body:
            if isinstance(node, ast.ImportFrom) and node.level == 1 and node.module and not mods:
                self.load_mod(node.module, star=True)
        for m in wanted:
            if os.path.exists(os.path.join(instrument.REPO, 'raytracing', m + '.py')):
                self.load_mod(m, star=(m not in ('thorlabs', 'eo', 'olympus')))
        for k, v in pkg.__dict__.items():
            if not k.startswith('__'): setattr(self.ns, k, v)
        return self
    def load_mod(self, m, star):
        mod = importlib.import_module('raytracing.' + m)
        self.modules[m] = mod
        if star:
            for k, v in list(mod.__dict__.items()):
                if not k.startswith('_'): self.pkg.__dict__[k] = v
        return mod

    def on_module(self, module):
        """write tracking and forcing of alternatives for the library classes"""
        if module.__name__.startswith('rtv_'): return
        for name, cls in list(module.__dict__.items()):
            if isinstance(cls, type) and cls.__module__ == module.__name__:
                self.lib_classes.append(cls)
                if issubclass(cls, (tuple, BaseException, dict)): continue
                if any('__rtv_tracked__' in b.__dict__ for b in cls.__mro__): continue
                self.track(cls)
    def track(self, cls):
        rt = self.runtime
        base_set = cls.__setattr__; base_get = cls.__getattribute__
        def __setattr__(self, name, value):
            base_set(self, name, value)
            rt.on_write(self, name)
        def __getattribute__(self, name):
            v = base_get(self, name)
            if type(v) is SChoice: v = v.force()
            elif type(v) is Lazy: v = v.get(self, name)
            return v
        cls.__setattr__ = __setattr__
        cls.__getattribute__ = __getattribute__
        cls.__rtv_tracked__ = True

    def make_helpers(self):
        src = '''
def listcomp_if(it, f, c):
    out = []
    for x in it:
        if c(x):
            out.append(f(x))
    return out
def first(it, f, c):
    for x in it:
        if c(x):
            return (True, f(x))
    return (False, None)
def reduce(f, it, *start):
    if start:
        acc = start[0]
        rest = it
    else:
        it = list(it)
        if len(it) == 0:
            raise TypeError("reduce() of empty iterable with no initial value")
        acc = it[0]
        rest = it[1:]
    for x in rest:
        acc = f(acc, x)
    return acc
def contains(it, v):
    for x in it:
        if x is v or x == v:
            return True
    return False
def any_(it):
    for x in it:
        if x:
            return True
    return False
def all_(it):
    for x in it:
        if not x:
            return False
    return True
def sum_(it, start):
    total = start
    for x in it:
        total = total + x
    return total
'''
        tree = instrument.transform(src, 'rtv_helpers', 'rtv_helpers')
        ns = {'__builtins__': self.builtins, '__rtv__': self.runtime, '__name__': 'rtv_helpers'}
        exec(compile(tree, 'rtv_helpers', 'exec'), ns)
        self.helpers = {k: v for k, v in ns.items() if callable(v)}
        self.helpers['first'] = ns['first']; self.helpers['reduce'] = ns['reduce']
        self.helpers['any'] = ns['any_']; self.helpers['all'] = ns['all_']
        self.helpers['listcomp'] = self.lazy_map
        self.helpers['listcomp_flat'] = self.lazy_flat
        self.helpers['listcomp_if'] = self.lazy_filter

    # ---- comprehensions over abstract segments: the body is checked once at an arbitrary index
    def pure_at(self, tag, base, thunk, n):
        """evaluate thunk(i) at an arbitrary index: exceptions escape, side effects are refused"""
        c = ctx()
        if c.decide(['use', 'check']) == 'check':
            i = z3.Int(c.fresh_name('ci'))
            c.assume_fact(z3.And(i >= 0, i < n))
            c.check_alive()
            mon = PureMonitor(c)
            self.runtime.loopstack.append(mon)
            try:
                thunk(i)
            finally:
                self.runtime.loopstack.remove(mon)
            raise PathEnd()
    def always(self, segs):
        """every element is True, whatever its index"""
        c = ctx()
        for s in segs:
            if isinstance(s, list):
                if not _b.all(x is True for x in s): return False
            elif isinstance(s, Seg):
                i = z3.Int(c.fresh_name('any')); c.path.log.append(i)
                def there(s=s, i=i):
                    c.assume_fact(z3.And(i >= s.lo, i < s.hi))
                    return s.base.elem(i) is True
                if not c.forall(there): return False
            elif isinstance(s, FMSeg):
                if not s.emit.name.startswith('map'): return False
                i = z3.Int(c.fresh_name('any')); c.path.log.append(i)
                def there(s=s, i=i):
                    c.assume_fact(z3.And(i >= s.lo, i < s.hi))
                    return self.always(as_segs(s.emit.fn(i)))
                if not c.forall(there): return False
            else: return False
        return True
    def map_segs(self, it, per_seg):
        out = []
        segs = normalize(as_segs(it))
        for j, s in enumerate(segs):
            r = per_seg(j, s)
            out += r
        if not isinstance(it, (SList, View)): self.runtime.iter_effect(it, I(total(segs)))
        return SList(normalize(out))
    def lazy_map(self, it, f, site=None):
        def per(j, s):
            if isinstance(s, list): return [[f(x) for x in s]]
            if isinstance(s, Seg):
                c = ctx()
                n = s.length()
                self.pure_at('map', s.base, lambda i: f(s.elem(i)), n)
                return [Seg(FnBase(('map', next(c.path.objids), s.base.key, s.lo.get_id()), n, lambda i: f(s.elem(i))), 0, n)]
            if isinstance(s, FMSeg):
                em = s.emit
                mid = next(ctx().path.objids)
                def inner(seg, tag):
                    if isinstance(seg, list): return [f(x) for x in seg]
                    if isinstance(seg, Seg):
                        return Seg(FnBase(('map', mid, tag, seg.base.key), simp(seg.hi), lambda j: f(seg.base.elem(j))), seg.lo, seg.hi)
                    if isinstance(seg, FMSeg):
                        e = seg.emit
                        return FMSeg(Emit('map%d_%s' % (mid, e.name), lambda i: SList([inner(x, (tag, e.name, i.get_id())) for x in as_segs(e.fn(i))]), atleast=e.atleast, each=e.each), seg.lo, seg.hi)
                    raise Unsupported("comprehension over an opaque sequence")
                def g(i):
                    i = simp(I(i)); ctx().path.log.append(i)
                    return SList([inner(x, (em.name, i.get_id())) for x in as_segs(em.fn(i))])
                def anywhere(segs):
                    for seg in segs:
                        j = z3.Int(ctx().fresh_name('cj'))
                        if isinstance(seg, Seg):
                            ctx().assume_fact(z3.And(j >= seg.lo, j < seg.hi)); f(seg.base.elem(j))
                        elif isinstance(seg, FMSeg):
                            ctx().assume_fact(z3.And(j >= seg.lo, j < seg.hi)); anywhere(as_segs(seg.emit.fn(j)))
                        else: inner(seg, None)
                def check(i):
                    segs = as_segs(em.fn(simp(s.lo + i)))
                    k = ctx().decide(list(range(len(segs)))) if len(segs) > 1 else 0
                    anywhere(segs[k:k + 1])
                self.pure_at('map', None, check, simp(s.hi - s.lo))
                return [FMSeg(Emit('map%d_%s' % (mid, em.name), g, atleast=em.atleast, each=em.each), s.lo, s.hi)]
            if f == self.runtime.identity: return [s]
            raise Unsupported("comprehension over an opaque sequence")
        return self.map_segs(it, per)
    def lazy_filter(self, it, f, c_):
        def per(j, s):
            if isinstance(s, list): return [[f(x) for x in s if c_(x)]]
            c = ctx()
            if isinstance(s, Seg):
                one = lambda x: [f(x)] if c_(x) else []
                g = lambda i: SList([one(s.base.elem(i))])
            elif isinstance(s, FMSeg):
                em = s.emit
                def g(i):
                    r = []
                    for seg in as_segs(em.fn(i)):
                        if not isinstance(seg, list): raise Unsupported("filter over an opaque emission")
                        r += [f(x) for x in seg if c_(x)]
                    return SList([r])
            else: raise Unsupported("filter over an opaque sequence")
            self.pure_at('filter', None, lambda i: g(simp(s.lo + i)), simp(s.hi - s.lo))
            first = (s.base, c_, f) if isinstance(s, Seg) else None
            return [FMSeg(Emit('filter%d' % next(c.path.objids), g, first=first), s.lo, s.hi)]
        return self.map_segs(it, per)
    def lazy_flat(self, it, f, c_):
        def per(j, s):
            if isinstance(s, list):
                out = []
                for x in s:
                    if c_ is None or c_(x): out += as_segs(f(x))
                return out
            if not isinstance(s, Seg): raise Unsupported("nested comprehension over a flattened sequence")
            def g(i):
                x = s.base.elem(i)
                if c_ is None or c_(x): return SList(normalize(as_segs(f(x))))
                return SList([])
            self.pure_at('flat', None, lambda i: g(simp(s.lo + i)), simp(s.hi - s.lo))
            return [FMSeg(Emit('flat%d' % next(ctx().path.objids), g, each=self.constant_length(g, s)), s.lo, s.hi)]
        return self.map_segs(it, per)
    def constant_length(self, g, s):
        """the length of g(i), when it is the same whatever the index: told by two arbitrary ones"""
        c = ctx(); seen = []
        for _ in range(2):
            i = z3.Int(c.fresh_name('each')); c.path.log.append(i)
            def there(i=i):
                c.assume_fact(z3.And(i >= s.lo, i < s.hi))
                seen.append(simp(z3.Sum([seglen(x) for x in as_segs(g(i))] + [z3.IntVal(0)])))
                return True
            if not c.forall(there): return None
        if not seen or not _b.all(t.eq(seen[0]) for t in seen): return None
        return seen[0]

    # ---------------------------------------------------------------- builtins
    def make_builtins(self):
        rt = self.runtime
        d = dict(_b.__dict__)
        E = self
        def unbounded(x):
            if isinstance(x, GenView): return True
            if isinstance(x, (SList, View)) or hasattr(type(x), '__mro__'):
                try: return not rt.bounded(x)
                except TypeError: return False
            return False
        def len_(x):
            x = force(x)
            if isinstance(x, (SList, View)):
                n = x.length()
                if isinstance(x, SList) and isinstance(n, SInt): ctx().path.__dict__.setdefault('lengths', {})[id(n)] = (n, x)
                return n
            if isinstance(x, GenView): raise TypeError("object of type 'generator' has no len()")
            f = getattr(type(x), '__len__', None)
            if f is not None and isinstance(f, types.FunctionType):
                r = f(x)
                if isinstance(r, SInt): return r
                return r
            return _b.len(x)
        def range_(*a):
            a = [force(x) for x in a]
            if not any(isinstance(x, Sym) for x in a):
                r = _b.range(*a)
                if len(r) <= 200: return r
                b = RangeBase(z3.IntVal(r.start), r.step, z3.IntVal(len(r)))
                return View(z3.IntVal(len(r)), b.elem, b.key, [Seg(b, 0, z3.IntVal(len(r)))])
            lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
            if not isinstance(st, int): raise Unsupported("range with a symbolic step")
            for x in (lo, hi):
                if isinstance(x, (SReal, float)): raise TypeError("'float' object cannot be interpreted as an integer")
            lo, hi = to_int(lo), to_int(hi)
            n = simp((hi - lo + (st - 1)) / st) if st > 0 else simp((lo - hi + (-st - 1)) / (-st))
            c = ctx()
            of = c.path.__dict__.get('lengths', {}).get(id(a[-1])) if len(a) == 1 or len(a) == 2 and z3.is_int_value(lo) and lo.as_long() == 0 else None
            if c.branch(n <= 0): return SList([])
            b = RangeBase(lo, st, n)
            v = View(simp(n), b.elem, b.key, [Seg(b, 0, n)])
            if of is not None and of[0] is a[-1]: v.indices_of = of[1]
            return v
        def indices(l):
            """range(len(l)), cut where the parts of l meet"""
            out, off = [], z3.IntVal(0)
            for s in normalize(as_segs(l)):
                if isinstance(s, list): out.append([as_len(simp(off + j)) for j in range(len(s))]); off = simp(off + len(s)); continue
                if not isinstance(s, Seg): return None
                out.append(Seg(FnBase(('indices', s.base.key, s.lo.get_id(), off.get_id(), next(ctx().path.objids)), s.length(), lambda i, o=off: as_len(simp(o + i))), 0, s.length()))
                out[-1].base.under = (s.base, s.lo)
                ctx().path.log.append((s.lo, off))
                off = simp(off + s.length())
            return out
        E.indices = indices
        E.range = range_
        def isinstance_(o, cls):
            o = force(o)
            if isinstance(cls, tuple):
                r = False
                for c in cls:
                    x = isinstance_(o, c)
                    if x is True: return True
                    if isinstance(x, SBool): r = SBool(z3.Or(to_bool(r), x.t))
                return r
            if isinstance(o, Sym) or isinstance(o, (SComplex, SList)):
                if cls == list: return isinstance(o, SList) and not isinstance(o, STuple)
                if cls in NUMCLS: return isinstance(o, NUMCLS[cls])
                if isinstance(o, (SReal,)) and getattr(cls, '__name__', '') in ('Number', 'Real', 'Complex'): return True
                if isinstance(o, SList) : return issubclass(tuple if isinstance(o, STuple) else list, cls)
                return False
            h = getattr(type(o), '_rtv_isinstance', None)
            if h is not None: return h(o, cls)
            return _b.isinstance(o, cls)
        class type_meta(type):
            def __instancecheck__(s, o): return _b.isinstance(o, type)
            def __subclasscheck__(s, o): return _b.issubclass(o, type)
        class type_(metaclass=type_meta):
            def __new__(cls, *a):
                if len(a) == 1:
                    o = force(a[0])
                    if isinstance(o, SReal): return float
                    if isinstance(o, SBool): return bool
                    if isinstance(o, SInt): return int
                    if isinstance(o, SComplex): return complex
                    if isinstance(o, STuple): return tuple
                    if isinstance(o, SList): return list
                    if hasattr(type(o), '_rtv_exact'): return TypeProxy(o)
                    return type(o)
                return type(*a)
        class float_meta(type):
            def __instancecheck__(s, o): return _b.isinstance(o, (float, SReal))
            def __eq__(s, o): return o is float or o is s
            def __hash__(s): return hash(float)
        def mkfloat(x=0.0):
            x = force(x)
            if isinstance(x, SReal): return x
            if isinstance(x, (SInt, SBool)): return SReal(to_real(x))
            if isinstance(x, SComplex): raise TypeError("float() argument must be a string or a real number, not 'complex'")
            if hasattr(x, '_rtv_float'): return x._rtv_float()
            return float(x)
        class float_(metaclass=float_meta):
            def __new__(cls, x=0.0): return mkfloat(x)
            fromhex = float.fromhex
        def mkint(x=0, *a):
            x = force(x)
            if isinstance(x, SInt): return x
            if isinstance(x, SBool): return x._r()
            if isinstance(x, SReal):
                if ctx().branch(x.t >= 0): return SInt(z3.ToInt(x.t))
                return SInt(-z3.ToInt(-x.t))
            if hasattr(x, '_rtv_int'): return x._rtv_int()
            return int(x, *a)
        class int_meta(type):
            def __eq__(s, o): return o is int or o is s
            def __hash__(s): return hash(int)
            def __instancecheck__(s, o): return _b.isinstance(o, (int, SInt, SBool))
        class int_(metaclass=int_meta):
            def __new__(cls, *a): return mkint(*a)
        class bool_meta(type):
            def __eq__(s, o): return o is bool or o is s
            def __hash__(s): return hash(bool)
            def __instancecheck__(s, o): return _b.isinstance(o, (bool, SBool))
        class bool_(metaclass=bool_meta):
            def __new__(cls, x=False):
                x = force(x)
                if isinstance(x, SBool): return x
                if isinstance(x, (SReal, SInt)): return core.mkbool(x.t != 0)
                return bool(x)
        class complex_meta(type):
            def __eq__(s, o): return o is complex or o is s
            def __hash__(s): return hash(complex)
            def __instancecheck__(s, o): return _b.isinstance(o, (complex, SComplex))
        class complex_(metaclass=complex_meta):
            def __new__(cls, re=0, im=0):
                re, im = force(re), force(im)
                if isinstance(re, Sym) or isinstance(im, Sym) or isinstance(re, SComplex):
                    z = cplx(re)
                    if isinstance(im, Sym) or im != 0: return z + SComplex(0.0, 1.0) * im
                    return z
                return complex(re, im)
        class list_meta(type):
            def __instancecheck__(s, o): return _b.isinstance(o, (list, SList)) and not isinstance(o, STuple)
            def __eq__(s, o): return o is list or o is s
            def __hash__(s): return hash(list)
        class list_(metaclass=list_meta):
            def __new__(cls, it=()):
                it = force(it)
                if isinstance(it, GenView): return rt.realize(it)
                if isinstance(it, (SList, View)): return SList(normalize(as_segs(it)))
                if rt.library_iterable(it) is not None and not rt.bounded(it):
                    s = SList(normalize(as_segs(it)))
                    rt.iter_effect(it, I(s.n()))
                    return s
                return SList([_b.list(it)])
        class tuple_meta(type):
            def __instancecheck__(s, o): return _b.isinstance(o, (tuple, STuple))
            def __subclasscheck__(s, o): return o is tuple_ or _b.issubclass(o, tuple)
            def __eq__(s, o): return o is tuple or o is s
            def __hash__(s): return hash(tuple)
        class tuple_(metaclass=tuple_meta):
            def __new__(cls, it=()):
                it = force(it)
                if unbounded(it): return STuple(list_(it).segs)
                return _b.tuple(it)
            def __class_getitem__(cls, k): return tuple
        def next_(it, *default):
            it = force(it)
            if isinstance(it, GenView):
                if it.flat or it.used: raise Unsupported("next of a generator")
                it.used = True
                found, v = E.helpers['first'](it.it, it.f, it.c or (lambda x: True))
                if found: return v
                if default: return default[0]
                raise StopIteration
            if unbounded(it): raise Unsupported("next of an unbounded sequence")
            return _b.next(it, *default)
        def enumerate_(it, start=0):
            it = force(it)
            if isinstance(it, GenView): it = rt.realize(it)
            if rt.bounded(it): return _b.enumerate(it, start)
            segs = normalize(as_segs(it)); out = []; off = I(start)
            for s in segs:
                if isinstance(s, list):
                    out.append([(as_len(simp(off + j)), x) for j, x in enumerate(s)]); off = simp(off + len(s))
                elif isinstance(s, Seg):
                    o, sg = off, s
                    out.append(Seg(FnBase(('enum', s.base.key, s.lo.get_id(), o.get_id(), next(ctx().path.objids)), s.length(), lambda i, o=o, sg=sg: (as_len(simp(o + i)), sg.elem(i))), 0, s.length()))
                    out[-1].base.under = (s.base, s.lo)
                    off = simp(off + s.length())
                else: raise Unsupported("enumerate over an opaque sequence")
            return SList(out)
        def zip_(*its):
            its = [rt.realize(x) if isinstance(force(x), GenView) else force(x) for x in its]
            if all(rt.bounded(x) for x in its): return _b.zip(*its)
            segl = [normalize(as_segs(x)) for x in its]
            # align: split so that piece k of every operand has the same length
            out = []
            c = ctx()
            segl = [list(s) for s in segl]
            while all(segl):
                heads = [s[0] for s in segl]
                if any(isinstance(h, list) for h in heads):
                    row = []
                    for s in segl:
                        l = SList(s); l.id = -1
                        n = l.n()
                        if (n == 0) if isinstance(n, int) else c.branch(n == 0): return SList(normalize(out))
                        row.append(l.get(0))
                        s[:] = [x for x in l.split(1)[1] if x != []]
                    out.append([tuple(row)])
                    continue
                if not all(isinstance(h, Seg) for h in heads): raise Unsupported("zip of opaque sequences")
                lens = [h.length() for h in heads]
                m = lens[0]
                for l in lens[1:]:
                    if not (l.eq(m) or c.branch(l == m)):
                        m = l if c.branch(l < m) else m
                hs = list(heads)
                out.append(Seg(FnBase(('zip', next(c.path.objids)), m, lambda i, hs=hs: tuple(h.elem(i) for h in hs)), 0, m))
                out[-1].base.under = (hs[0].base, hs[0].lo)
                for s, h in zip(segl, hs):
                    a, b_ = h.split(m)
                    if z3.is_true(simp(h.length() == m)) or c.branch(h.length() == m): s.pop(0)
                    else: s[0] = b_
            return SList(normalize(out))
        def reversed_(it):
            it = force(it)
            if isinstance(it, SList): return SList(reversed_segs(it.segs)) if it.concrete() is None else _b.reversed(list(it.concrete()))
            if isinstance(it, View): return SList(reversed_segs(it.segs()))
            if not rt.bounded(it): return SList(reversed_segs(as_segs(it)))
            return _b.reversed(it)
        def map_(f, *its):
            if len(its) == 1 and not rt.bounded(force(its[0])) : return E.helpers['listcomp'](force(its[0]), f)
            if len(its) > 1 and any(unbounded(x) for x in its): return E.helpers['listcomp'](zip_(*its), lambda t: f(*t))
            return _b.map(f, *its)
        def filter_(f, it):
            it = force(it)
            if f is None: f = lambda x: x
            if not rt.bounded(it): return E.helpers['listcomp_if'](it, lambda x: x, f)
            return _b.filter(f, it)
        def any_(it):
            if unbounded(force(it)): return E.helpers['any'](force(it))
            for x in it:
                if x: return True
            return False
        def all_(it):
            if unbounded(force(it)):
                it = force(it)
                if isinstance(it, GenView): it = rt.realize(it)
                if isinstance(it, (SList, View)) and E.always(as_segs(it)): return True
                return E.helpers['all'](it)
            for x in it:
                if not x: return False
            return True
        def sum_(it, start=0):
            if unbounded(force(it)): return E.helpers['sum_'](force(it), start)
            t = start
            for x in it: t = t + x
            return t
        def mm(nm, lt):
            def f(*a, key=None, default=Poison):
                if len(a) == 1:
                    it = force(a[0])
                    if unbounded(it):
                        if key is not None: raise Unsupported(nm + " with key over an unbounded sequence")
                        return models.extreme(nm, it)
                    a = _b.list(it)
                a = [force(x) for x in a]
                if not a:
                    if default is not Poison: return default
                    raise ValueError(nm + "() iterable argument is empty")
                best, bk = a[0], (key(a[0]) if key else a[0])
                for x in a[1:]:
                    k = key(x) if key else x
                    if lt(k, bk): best, bk = x, k
                return best
            return f
        def sorted_(it, key=None, reverse=False):
            if unbounded(force(it)): raise Unsupported("sorting an unbounded sequence")
            out = []
            for x in it:        # stable insertion sort
                kx = key(x) if key else x
                j = len(out)
                while j > 0 and ((kx > out[j-1][0]) if reverse else (kx < out[j-1][0])): j -= 1
                out.insert(j, (kx, x))
            return SList([[x for _, x in out]])
        def iter_(x, *a):
            x = force(x)
            if isinstance(x, (GenView, View, SList)) and unbounded(x): return x
            if rt.library_iterable(x) is not None and not rt.bounded(x): return x
            return _b.iter(x, *a)
        def round_(x, n=None):
            x = force(x)
            if isinstance(x, Sym): raise Unsupported("round of a symbolic value")
            return _b.round(x, n) if n is not None else _b.round(x)
        def abs_(x): return _b.abs(force(x))
        def print_(*a, **k): pass
        def open_(*a, **k):
            return models.open_model(*a, **k)
        class set_meta(type):
            def __instancecheck__(s, o): return _b.isinstance(o, set)
            def __eq__(s, o): return o is set or o is s
            def __hash__(s): return hash(set)
        class set_(metaclass=set_meta):
            def __new__(cls, it=()):
                if unbounded(force(it)): raise Unsupported("set of an unbounded sequence")
                return _b.set(it)
        proxies = self.proxies = make_proxies(self)
        def import_(name, globals=None, locals=None, fromlist=(), level=0):
            if level == 0:
                top = name.split('.')[0]
                if name in proxies:
                    return proxies[name] if fromlist or '.' not in name else proxies[top]
                if top in proxies and not fromlist: return proxies[top]
                if top in proxies: return getattr(proxies[top], name.split('.', 1)[1], proxies[top])
            return _b.__import__(name, globals, locals, fromlist, level)
        def hash_(x): return _b.hash(x)
        def getattr_(o, n, *d):
            return _b.getattr(force(o), n, *d)
        d.update(len=len_, range=range_, isinstance=isinstance_, float=float_, int=int_, complex=complex_, bool=bool_,
                 list=list_, enumerate=enumerate_, zip=zip_, reversed=reversed_, map=map_, filter=filter_, any=any_, all=all_,
                 sum=sum_, min=mm('min', lambda a, b: a < b), max=mm('max', lambda a, b: a > b), sorted=sorted_, iter=iter_,
                 round=round_, abs=abs_, print=print_, open=open_, tuple=tuple_, set=set_, type=type_, __import__=import_,
                 getattr=getattr_, next=next_)
        # class statements and type annotations need the genuine classes
        d['object'] = object
        return d


class Lazy:
    """attribute computed on first read"""
    __slots__ = ('f',)
    def __init__(self, f): self.f = f
    def get(self, obj, name):
        v = self.f()
        obj.__dict__[name] = v
        if core._CTX is not None and ctx().path is not None: ctx().path.lazies.append((obj, name, self))
        return v


class PureMonitor:
    """refuses writes to objects that existed before"""
    def __init__(self, c): self.start = next(c.path.objids)
    def wrote_attr(self, key, obj, attr):
        if key < self.start: raise Unsupported("a comprehension modifies %s" % attr)
    def wrote_list(self, lst):
        if lst.id < self.start: raise Unsupported("a comprehension modifies a list")


class Opaque:
    """stands for drawing objects: any attribute, any call, no effect on the library's values"""
    def __init__(self, *a, **k): pass
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        return Opaque()
    def __call__(self, *a, **k): return Opaque()
    def __setitem__(self, k, v): pass
    def __getitem__(self, k): return Opaque()
    def __iter__(self): return iter(())
    def __mro_entries__(self, bases): return (object,)

def fill_figure(module):
    class Figure(Opaque):
        def __init__(self, opticalPath=None): self.path = opticalPath; self.designParams = {}
    module.Figure = Figure
    for n in ('GraphicOf', 'MplFigure', 'FigureManager', 'Graphic'):
        setattr(module, n, Opaque)
    def __getattr__(n):
        if n.startswith('__'): raise AttributeError(n)
        return Opaque()
    module.__getattr__ = __getattr__

class OpaqueModule(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        return Opaque()


# ---------------------------------------------------------------- numeric modules
PI = math.pi

def sym(x): return isinstance(x, (Sym, SComplex))

def m_uf(name, facts=None, native=None):
    def f(x):
        x = force(x)
        if not sym(x): return native(x)
        c = ctx()
        x = SReal(z3.simplify(to_real(x)))
        r = c.uf('fn.' + name, x)
        if facts:
            for t in facts(x.t, r.t): c.assume_fact(t)
        return r
    return f

def sin_facts(x, r):
    f = z3.Function('fn.cos', z3.RealSort(), z3.RealSort())
    return [r >= -1, r <= 1, r * r + f(x) * f(x) == 1, z3.Implies(x == 0, r == 0)]
def cos_facts(x, r):
    f = z3.Function('fn.sin', z3.RealSort(), z3.RealSort())
    return [r >= -1, r <= 1, r * r + f(x) * f(x) == 1, z3.Implies(x == 0, r == 1)]
def atan_facts(x, r): return [r > -rv(PI) / 2 - z3.RealVal('1e-15'), r < rv(PI) / 2 + z3.RealVal('1e-15'), (r > 0) == (x > 0), (r < 0) == (x < 0)]
def exp_facts(x, r): return [r > 0, z3.Implies(x <= 0, r <= 1), z3.Implies(x == 0, r == 1), z3.Implies(x >= 0, r >= 1)]

def m_asin(x):
    x = force(x)
    if not sym(x): return math.asin(x)
    c = ctx()
    if c.branch(z3.Or(to_real(x) > 1, to_real(x) < -1)): raise ValueError("math domain error")
    xs = z3.simplify(to_real(x))
    r = c.uf('fn.asin', SReal(xs))
    fs, fc = (z3.Function('fn.' + n, z3.RealSort(), z3.RealSort()) for n in ('sin', 'cos'))
    c.assume_fact(fs(r.t) == xs); c.assume_fact(fc(r.t) >= 0); c.assume_fact(fc(r.t) * fc(r.t) == 1 - xs * xs)
    return r
def m_sqrt(x):
    x = force(x)
    if isinstance(x, SComplex): raise TypeError("must be real number, not complex")
    return ctx().sqrt(x) if sym(x) else math.sqrt(x)

def c_sqrt(x):
    """principal square root of a complex number"""
    import cmath
    x = force(x)
    if not sym(x): return cmath.sqrt(x)
    c = ctx()
    z = cplx(x)
    if not isinstance(z.im, Sym) and z.im == 0:
        re = SReal(to_real(z.re))
        if c.branch(re.t >= 0): return SComplex(c.sqrt(re), 0.0)
        return SComplex(0.0, c.sqrt(-re))
    u, v = c.real(hint='csq_re'), c.real(hint='csq_im')
    c.assume_fact(u.t >= 0)
    c.assume_fact(z3.Implies(u.t == 0, v.t >= 0))
    c.assume_fact(u.t * u.t - v.t * v.t == to_real(z.re))
    c.assume_fact(2 * u.t * v.t == to_real(z.im))
    return SComplex(u, v)

def m_isfinite(x):
    x = force(x)
    if isinstance(x, (Sym,)): return True
    if isinstance(x, SComplex): return True
    if x is None: raise TypeError("ufunc 'isfinite' not supported for the input types")
    if isinstance(x, complex): return math.isfinite(x.real) and math.isfinite(x.imag)
    return math.isfinite(x)
def m_isinf(x):
    x = force(x)
    return False if sym(x) else math.isinf(x)
def m_isnan(x):
    x = force(x)
    return False if sym(x) else math.isnan(x)
def m_fabs(x):
    return abs(force(x)) if sym(force(x)) else math.fabs(x)
def m_floor(x):
    x = force(x)
    return SInt(z3.ToInt(to_real(x))) if sym(x) else math.floor(x)
def m_pow(x, y): return force(x) ** force(y)

def make_math(real):
    m = types.ModuleType(real.__name__)
    for k, v in real.__dict__.items():
        if k.startswith('_'): continue
        if callable(v):
            def wrap(*a, v=v, k=k, **kw):
                a = [force(x) for x in a]
                if any(sym(x) for x in a): raise Unsupported("%s of a symbolic value" % k)
                return v(*a, **kw)
            setattr(m, k, wrap)
        else: setattr(m, k, v)
    m.sqrt = m_sqrt; m.isfinite = m_isfinite; m.isinf = m_isinf; m.isnan = m_isnan; m.fabs = m_fabs; m.floor = m_floor
    m.pow = m_pow
    m.sin = m_uf('sin', sin_facts, math.sin); m.cos = m_uf('cos', cos_facts, math.cos)
    m.tan = m_tan; m.asin = m_asin; m.exp = m_uf('exp', exp_facts, math.exp)
    m.atan = m_uf('atan', atan_facts, math.atan)
    return m
def m_tan(x):
    x = force(x)
    if not sym(x): return math.tan(x)
    return m_uf('tan', None, math.tan)(x)


class RandomModel:
    """every outcome of the generator: an arbitrary number in [0, 1)"""
    def random(self, *a):
        if a: raise Unsupported("random array")
        c = ctx()
        r = c.real(hint='rnd')
        c.assume_fact(z3.And(r.t >= 0, r.t < 1))
        return r
    random_sample = rand = random
    def uniform(self, a=0.0, b=1.0): return a + (b - a) * self.random()
    def __getattr__(self, n): raise Unsupported("numpy.random." + n)

def np_linspace(a, b, num=50, endpoint=True, **kw):
    """num numbers from a to b, equally spaced (numpy contract)"""
    num = force(num); a, b = force(a), force(b)
    if isinstance(num, (SReal, float)): raise TypeError("'float' object cannot be interpreted as an integer")
    if kw: raise Unsupported("linspace options")
    if isinstance(num, int):
        if num < 0: raise ValueError("Number of samples, %s, must be non-negative." % num)
        div = num - 1 if endpoint else num
        if num == 0: return NpList([])
        out = []
        for i in range(num):
            if i == 0: out.append(a + 0.0)
            elif endpoint and i == num - 1: out.append(b + 0.0)
            else: out.append(a + (b - a) * (i / div if not isinstance(a, Sym) and not isinstance(b, Sym) else SReal(z3.RealVal(Fraction(i, div)))))
        return NpList([out])
    c = ctx()
    n = to_int(num)
    if c.branch(n < 0): raise ValueError("Number of samples must be non-negative.")
    A, B = to_real(a), to_real(b)
    if c.branch(n == 0): return NpList([])
    if c.branch(n == 1): return NpList([[SReal(A)]])
    div = z3.ToReal(n - 1) if endpoint else z3.ToReal(n)
    key = ('linspace', A.get_id(), B.get_id(), n.get_id())
    c.path.log.append((A, B, n))
    return NpList([Seg(FnBase(key, n, lambda i: lin_at(A, B, n, i, endpoint)), 0, n)])

def lin_at(A, B, n, i, endpoint=True):
    """element i of numpy.linspace(A, B, n) for n > 1 (contract of numpy.linspace)"""
    R = lambda x: x if z3.is_expr(x) else to_real(x)
    N = lambda x: x if z3.is_expr(x) else to_int(x)
    A, B, n, i = R(A), R(B), N(n), simp(N(i))
    f = z3.Function('np.linspace' if endpoint else 'np.linspace.open', z3.RealSort(), z3.RealSort(), z3.IntSort(), z3.IntSort(), z3.RealSort())
    t = f(A, B, n, i)
    div = z3.ToReal(n - 1) if endpoint else z3.ToReal(n)
    lo, hi = z3.If(A <= B, A, B), z3.If(A <= B, B, A)
    c = ctx()
    c.assume_fact(z3.Implies(n > 1, t * div == A * div + (B - A) * z3.ToReal(i)))
    c.assume_fact(z3.Implies(z3.And(i >= 0, i < n), z3.And(t >= lo, t <= hi)))
    c.assume_fact(z3.Implies(i == 0, t == A))
    if endpoint: c.assume_fact(z3.Implies(z3.And(n > 1, i == n - 1), t == B))
    return SReal(t)

class NpList(SList):
    """one dimensional numeric array (elementwise arithmetic)"""
    def _map(self, f):
        c = self.concrete()
        if c is not None: return NpList([[f(x) for x in c]])
        l = ENGINE.helpers['listcomp'](SList(self.segs), f)
        return NpList(l.segs)
    def __mul__(self, k): return self._map(lambda x: x * k)
    __rmul__ = __mul__
    def __truediv__(self, k): return self._map(lambda x: x / k)
    def __add__(self, k): return self._map(lambda x: x + k)
    __radd__ = __add__
    def __sub__(self, k): return self._map(lambda x: x - k)

def np_array(x, *a, **k):
    return NpList(as_segs(x)) if isinstance(x, (SList, list, tuple)) else x

def make_numpy(engine):
    m = types.ModuleType('numpy')
    m.pi = math.pi; m.inf = INF; m.nan = float('nan'); m.e = math.e
    m.sin, m.cos = m_uf('sin', sin_facts, math.sin), m_uf('cos', cos_facts, math.cos)
    m.tan, m.exp, m.sqrt = m_tan, m_uf('exp', exp_facts, math.exp), m_sqrt
    m.arctan = m_uf('atan', atan_facts, math.atan); m.arcsin = m_asin
    m.isfinite, m.isinf, m.isnan = m_isfinite, m_isinf, m_isnan
    m.abs = m.absolute = lambda x: abs(force(x))
    m.linspace = np_linspace
    m.random = RandomModel()
    m.array = m.asarray = np_array
    def round_(x, *a):
        x = force(x)
        if a: raise Unsupported("numpy.round")
        if not sym(x): return float(round(x))
        r = ctx().int(hint='rounded')
        t = to_real(x); q = z3.ToReal(r.t)
        ctx().assume_fact(z3.And(q - t <= z3.RealVal('1/2'), t - q <= z3.RealVal('1/2')))
        return SReal(q)
    m.round = m.around = round_
    def extreme(which):
        def f(x, *a, **k):
            if a or k or not isinstance(x, (SList, list, tuple)): raise Unsupported("numpy." + which)
            return engine.builtins[which](x)
        return f
    m.min = m.amin = extreme('min'); m.max = m.amax = extreme('max')
    m.float64 = float; m.ndarray = NpList
    def histogram(values, bins=10, range=None):
        return models.histogram(engine, NpList, FnBase, values, bins, range)
    m.histogram = histogram
    def other(n):
        if n.startswith('__'): raise AttributeError(n)
        raise Unsupported("numpy." + n)
    m.__getattr__ = other
    return m

class WarnModel(types.ModuleType):
    def __init__(self, engine):
        super().__init__('warnings')
        self.__dict__['_e'] = engine
    def warn(self, message, category=UserWarning, *a, **k):
        w = self._e.warnings_log
        if w is not None: w.append((message, category))
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        return getattr(_warnings, n) if n in ('catch_warnings',) else (lambda *a, **k: None)

def make_proxies(engine):
    import cmath
    p = {}
    p['math'] = make_math(math)
    cm = make_math(cmath); cm.sqrt = c_sqrt; cm.pi = math.pi
    p['cmath'] = cm
    p['numpy'] = make_numpy(engine)
    for n in ('matplotlib', 'matplotlib.pyplot', 'matplotlib.patches', 'matplotlib.transforms', 'matplotlib.path', 'matplotlib.ticker'):
        p[n] = OpaqueModule(n)
    p['matplotlib'].pyplot = p['matplotlib.pyplot']; p['matplotlib'].patches = p['matplotlib.patches']
    p['warnings'] = WarnModel(engine)
    tm = types.ModuleType('time')
    tm.sleep = lambda *a: None
    def mono():
        c = ctx()
        return c.real(hint='clock')
    tm.monotonic = tm.time = tm.perf_counter = mono
    p['time'] = tm
    p['multiprocessing'] = models.make_multiprocessing(engine)
    import functools, itertools
    ft = types.ModuleType('functools'); ft.__dict__.update({k: v for k, v in vars(functools).items() if not k.startswith('__')})
    def reduce_(f, it, *start):
        it = force(it)
        if isinstance(it, GenView): it = engine.runtime.realize(it)
        return engine.helpers['reduce'](f, it, *start)
    ft.reduce = reduce_
    p['functools'] = ft
    class chain_:
        def __new__(cls, *its): return cls.joined(list(its))
        @staticmethod
        def joined(its):
            its = [engine.runtime.realize(force(x)) if isinstance(force(x), GenView) else force(x) for x in its]
            if all(engine.runtime.bounded(x) for x in its): return itertools.chain(*its)
            return SList(normalize([s for x in its for s in as_segs(x)]))
        @staticmethod
        def from_iterable(it):
            it = force(it)
            if isinstance(it, GenView):
                if it.flat: raise Unsupported("chain of a nested generator")
                it.used = True
                return engine.helpers['listcomp_flat'](it.it, it.f, it.c)
            if engine.runtime.bounded(it): return chain_.joined(list(it))
            return engine.helpers['listcomp_flat'](it, engine.runtime.identity, None)
    im = types.ModuleType('itertools'); im.__dict__.update({k: v for k, v in vars(itertools).items() if not k.startswith('__')})
    im.chain = chain_
    p['itertools'] = im
    cp = types.ModuleType('copy')
    def copy_(x):
        import copy
        x = force(x)
        if isinstance(x, SList): return SList(x.snapshot())
        if isinstance(x, Sym): return x
        if hasattr(x, '_rtv_copy'): return x._rtv_copy()
        if type(x).__module__.startswith('raytracing') and hasattr(x, '__dict__') and not hasattr(type(x), '__copy__'):
            o = object.__new__(type(x))
            o.__dict__.update(x.__dict__)
            return o
        return copy.copy(x)
    def deepcopy_(x, memo=None):
        import copy
        x = force(x)
        memo = {} if memo is None else memo
        if id(x) in memo: return memo[id(x)]
        if isinstance(x, SList):
            c = x.concrete()
            if c is None:
                return engine.helpers['listcomp'](x, lambda e: deepcopy_(e))
            r = SList([[deepcopy_(e, memo) for e in c]]); memo[id(x)] = r
            return r
        if isinstance(x, (Sym, SComplex)): return x
        if hasattr(x, '_rtv_copy'):
            r = x._rtv_copy(); memo[id(x)] = r; return r
        if type(x).__module__.startswith('raytracing') and hasattr(x, '__dict__') and not hasattr(type(x), '__deepcopy__'):
            o = object.__new__(type(x)); memo[id(x)] = o
            for k, v in list(x.__dict__.items()):
                o.__dict__[k] = v if isinstance(v, (SChoice, Lazy, Opaque)) else deepcopy_(v, memo)
            return o
        if isinstance(x, (Opaque,)): return x
        return copy.deepcopy(x)
    cp.copy, cp.deepcopy = copy_, deepcopy_
    p['copy'] = cp
    p['json'] = maps.make_json()
    import platform as _platform
    pf = types.ModuleType('platform')
    pf.__dict__.update({k: v for k, v in _platform.__dict__.items() if not k.startswith('__')})
    def system():
        if core._CTX is None or ctx().path is None: return _platform.system()
        return ctx().path.__dict__.get('system') or _platform.system()
    pf.system = system
    p['platform'] = pf
    p['pickle'] = models.make_pickle(engine, deepcopy_)
    p['os'] = models.make_os(); p['os.path'] = p['os'].path
    return p
