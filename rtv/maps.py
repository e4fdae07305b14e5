"""Models (assumed contracts) of dictionaries with arbitrary content and of the json module.

A dictionary is an array from keys to values, a distinguished value standing for "not there".
json (assumed contract): what is loaded from the text of a dictionary is an equal dictionary, provided its keys are
strings and its values are JSON values (dumping anything else raises TypeError)."""
import types, z3, json as _json
from .core import *
from . import core
from .seq import Base, I

VAL = z3.DeclareSort('Value')
KEY = z3.IntSort()
ABSENT = z3.Const('absent', VAL)
JSONABLE = z3.Function('jsonable', VAL, z3.BoolSort())
NULL, LIT, UNLIT = z3.Const('null', VAL), z3.Function('lit', z3.IntSort(), VAL), z3.Function('unlit', VAL, z3.IntSort())
TRUTHY = z3.Function('truthy', VAL, z3.BoolSort())
EMPTY = z3.K(KEY, ABSENT)
_keys, _lits = {}, {}

def key_term(k):
    k = force(k)
    if isinstance(k, SKey): return k.t
    if isinstance(k, str): return z3.IntVal(_keys.setdefault(k, len(_keys)))
    raise Unsupported("dictionary key %r" % (k,))

def val_term(v):
    v = force(v)
    if isinstance(v, SVal): return v.t
    if v is None: return NULL
    if isinstance(v, (str, int, float, bool)):
        i = _lits.setdefault((type(v).__name__, v), len(_lits))
        t = LIT(z3.IntVal(i)); c = ctx()
        c.assume_fact(UNLIT(t) == i); c.assume_fact(JSONABLE(t)); c.assume_fact(t != ABSENT); c.assume_fact(t != NULL)
        c.assume_fact(TRUTHY(t) == bool(v))
        return t
    raise Unsupported("dictionary value %r" % (v,))

class SKey(Sym):
    """an arbitrary string"""
    __slots__ = ()
    def __eq__(self, o):
        o = force(o)
        if isinstance(o, (SKey, str)): return core.mkbool(self.t == key_term(o))
        return False
    def __ne__(self, o): return s_not(self.__eq__(o))
    __hash__ = Sym.__hash__

class SVal(Sym):
    """an arbitrary value"""
    __slots__ = ()
    def __eq__(self, o):
        o = force(o)
        if o is None or isinstance(o, (SVal, str, int, float, bool)): return core.mkbool(self.t == val_term(o))
        raise Unsupported("comparing an arbitrary value")
    def __ne__(self, o): return s_not(self.__eq__(o))
    def __bool__(self):
        ctx().assume_fact(z3.Not(TRUTHY(NULL)))
        return ctx().branch(TRUTHY(self.t))
    def _rtv_is_none(self): return core.mkbool(self.t == NULL)
    @staticmethod
    def _rtv_isinstance(o, cls):
        if cls is SVal: return True
        raise Unsupported("class of an arbitrary value")
    __hash__ = Sym.__hash__

class MapMeta(type):
    def __instancecheck__(cls, o):
        if cls is MapModel and isinstance(o, dict): return True
        return type.__instancecheck__(cls, o)

class MapModel(dict, metaclass=MapMeta):
    """dict with arbitrary content: (array, every value can be dumped, keys in order if all known)"""
    def __new__(cls, *a, **k):
        o = dict.__new__(cls)
        o.__dict__['_m'] = (EMPTY, z3.BoolVal(True), [])
        return o
    def __init__(self, *a, **k):
        MapModel.update(self, *a, **k)
    @classmethod
    def of(cls, m):
        o = MapModel(); o.__dict__['_m'] = m
        return o
    # ---- the dictionary's own operations
    def _set(self, k, v):
        arr, ok, keys = self._m
        kt, vt = key_term(k), val_term(v)
        c = ctx()
        c.assume_fact(z3.Implies(JSONABLE(vt), vt != ABSENT))
        if keys is not None and not any(key_term(x).eq(kt) for x in keys):
            if any(c.branch(key_term(x) == kt) for x in keys): pass
            else: keys = keys + [k]
        # a value that is replaced may be the one that could not be dumped
        if not z3.is_true(ok) and not c.valid(ok):
            b = c.bool(hint='dumpable')
            c.assume_fact(z3.Implies(b.t, JSONABLE(vt))); c.assume_fact(z3.Implies(z3.And(ok, JSONABLE(vt)), b.t))
            ok2 = b.t
        else: ok2 = JSONABLE(vt)
        self.__dict__['_m'] = (z3.Store(arr, kt, vt), ok2, keys)
    def _has(self, k): return ctx().branch(z3.Select(self._m[0], key_term(k)) != ABSENT)
    def _at(self, k): return SVal(z3.simplify(z3.Select(self._m[0], key_term(k))))
    def __getitem__(self, k):
        if not MapModel._has(self, k): raise KeyError(k)
        return MapModel._at(self, k)
    def __setitem__(self, k, v): MapModel._set(self, k, v)
    def __contains__(self, k): return MapModel._has(self, k)
    def __delitem__(self, k):
        if not MapModel._has(self, k): raise KeyError(k)
        arr, ok, keys = self._m
        if not z3.is_true(ok) and not ctx().valid(ok): raise Unsupported("removing a value that may not be dumped")
        self.__dict__['_m'] = (z3.Store(arr, key_term(k), ABSENT), z3.BoolVal(True),
                               None if keys is None else [x for x in keys if not ctx().branch(key_term(x) == key_term(k))])
    def get(self, k, d=None): return MapModel._at(self, k) if MapModel._has(self, k) else d
    def setdefault(self, k, d=None):
        if not MapModel._has(self, k): MapModel._set(self, k, d)
        return MapModel._at(self, k)
    def pop(self, k, *d):
        if not MapModel._has(self, k):
            if d: return d[0]
            raise KeyError(k)
        v = MapModel._at(self, k); MapModel.__delitem__(self, k); return v
    def popitem(self): raise Unsupported("popitem")
    def clear(self): self.__dict__['_m'] = (EMPTY, z3.BoolVal(True), [])
    def update(self, *a, **k):
        if len(a) > 1: raise TypeError("update expected at most 1 argument, got %d" % len(a))
        o = force(a[0]) if a else None
        if isinstance(o, MapModel) if type(o) is not dict else False:
            (a1, ok1, k1), (a2, ok2, k2) = self._m, o._m
            if k2 is not None:
                for x in k2: MapModel._set(self, x, MapModel._at(o, x))
            elif z3.is_true(z3.simplify(a1 == EMPTY)): self.__dict__['_m'] = o._m
            else:
                x = z3.Int('k!merge')
                m = z3.Lambda([x], z3.If(z3.Select(a2, x) == ABSENT, z3.Select(a1, x), z3.Select(a2, x)))
                b = ctx().bool(hint='dumpable')
                ctx().assume_fact(z3.Implies(z3.And(ok1, ok2), b.t))
                self.__dict__['_m'] = (m, b.t, None)
        elif type(o) is dict:
            for x, v in o.items(): MapModel._set(self, x, v)
        elif a:
            if o is None or isinstance(o, (Sym, int, float)): raise TypeError("'%s' object is not iterable" % type(o).__name__)
            for x in o:
                x = tuple(x)
                if len(x) != 2: raise ValueError("dictionary update sequence element has length %d; 2 is required" % len(x))
                MapModel._set(self, x[0], x[1])
        for x, v in k.items(): MapModel._set(self, x, v)
    def _keys(self):
        if self._m[2] is None: raise Unsupported("going through a dictionary with arbitrary content")
        return list(self._m[2])
    def keys(self): return MapModel._keys(self)
    def values(self): return [MapModel._at(self, k) for k in MapModel._keys(self)]
    def items(self): return [(k, MapModel._at(self, k)) for k in MapModel._keys(self)]
    def __iter__(self): return iter(MapModel._keys(self))
    def __len__(self): return len(MapModel._keys(self))
    def __bool__(self): return ctx().branch(self._m[0] != EMPTY)
    def copy(self): return MapModel.of(self._m)
    def __eq__(self, o):
        if type(o) is dict: o = MapModel(o)
        if not isinstance(o, MapModel): return False
        return core.mkbool(self._m[0] == o._m[0])
    def __ne__(self, o): return s_not(MapModel.__eq__(self, o))
    __hash__ = None
    def __repr__(self): return "<map>"
    __str__ = __repr__
    def __copy__(self): return MapModel.of(self._m)
    def __deepcopy__(self, memo): return MapModel.of(self._m)
    def _no(self, *a): raise Unsupported("dictionary operation")
    __or__ = __ror__ = __ior__ = __reversed__ = _no

class JsonText(str):
    """the text of a dictionary with arbitrary content"""
    def __new__(cls, m):
        o = str.__new__(cls, '{...}'); o.m = m
        return o
    def _no(self, *a, **k): raise Unsupported("operation on the text of an arbitrary dictionary")
    __add__ = __getitem__ = __len__ = __iter__ = __contains__ = __eq__ = __ne__ = __mul__ = __mod__ = _no
    split = strip = replace = encode = startswith = endswith = format = join = find = _no
    __hash__ = None

class OtherText(str):
    """JSON text of something else than a dictionary, or no JSON text at all"""
    def __new__(cls, value=None, valid=False):
        o = str.__new__(cls, '...'); o.value, o.valid = value, valid
        return o

def make_json():
    m = types.ModuleType('json')
    class JSONDecodeError(ValueError): pass
    m.JSONDecodeError = JSONDecodeError
    OPT = ('indent', 'sort_keys', 'ensure_ascii', 'separators')
    def dumps(o, **k):
        if any(x not in OPT for x in k): raise Unsupported("json option")
        if isinstance(o, MapModel) and type(o) is not dict:
            if not ctx().branch(o._m[1]): raise TypeError("Object is not JSON serializable")
            return JsonText((o._m[0], z3.BoolVal(True), None))
        return _json.dumps(o, **k)
    def loads(t, **k):
        if k: raise Unsupported("json option")
        if isinstance(t, JsonText): return MapModel.of(t.m)
        if isinstance(t, OtherText):
            if not t.valid: raise JSONDecodeError("Expecting value")
            return t.value
        try: r = _json.loads(t)
        except ValueError as e: raise JSONDecodeError(str(e))
        return r
    def dump(o, f, **k):
        try: t = dumps(o, **k)
        except TypeError:
            f.write(OtherText())          # what comes before the value that cannot be dumped
            raise
        f.write(t)
    def load(f, **k): return loads(f.read(), **k)
    m.dumps, m.loads, m.dump, m.load = dumps, loads, dump, load
    def other(n):
        if n.startswith('__'): raise AttributeError(n)
        raise Unsupported("json." + n)
    m.__getattr__ = other
    return m

# ------------------------------------------------------------------ names that can be put in a normal form
NAMES = {}
class SText(str):
    """an arbitrary text: the operations applied to it are recorded.  Texts are compared up to the operations applied;
    a text that was lowered (or raised) and had its dashes removed is known by its normal form"""
    def __new__(cls, name, ops=()):
        o = str.__new__(cls, '<text>')
        o.name, o.ops = name, frozenset(ops)
        return o
    def _with(self, *op): return SText(self.name, self.ops | set(op))
    def lower(self): return SText(self.name, (self.ops - {'upper'}) | {'lower'})
    casefold = lower
    def upper(self): return SText(self.name, (self.ops - {'lower'}) | {'upper'})
    def replace(self, a, b, *n):
        if b == '' and not n and a in '-_ ' and len(a) == 1: return self._with(a)
        raise Unsupported("text replacement")
    def strip(self, *a): return self if not a else self._no()
    def _no(self, *a, **k): raise Unsupported("operation on an arbitrary text")
    def term(self): return z3.Int('text.%s.%s' % (self.name, ''.join(sorted(x if len(x) == 1 else 'case' for x in self.ops))))
    def same(self, s):
        """this text, once the operations are applied, is s"""
        return core.mkbool(self.term() == key_term(s.lower() if self.cased() else s))
    def cased(self): return bool(self.ops & {'lower', 'upper'})
    def __eq__(self, o):
        o = force(o)
        if isinstance(o, SText):
            if o.ops != self.ops: raise Unsupported("comparison of texts")
            return core.mkbool(self.term() == o.term())
        if not isinstance(o, str): return False
        if any(x in o for x in self.ops if len(x) == 1): return False
        if 'lower' in self.ops and o != o.lower() or 'upper' in self.ops and o != o.upper(): return False
        return self.same(o)
    def __ne__(self, o): return s_not(self.__eq__(o))
    __hash__ = None
    __add__ = __getitem__ = __iter__ = __len__ = __contains__ = __mod__ = __mul__ = __lt__ = __gt__ = __le__ = __ge__ = _no
    split = startswith = endswith = find = index = join = encode = title = capitalize = isdigit = translate = _no
    def __format__(self, s): return '<text>'
    def __str__(self): return '<text>'
    __repr__ = __str__

class NameOf(str):
    """the name of an arbitrary class of a sequence"""
    def __new__(cls, base, i):
        o = str.__new__(cls, '<name>'); o.base, o.i = base, I(i)
        return o
    def _no(self, *a, **k): raise Unsupported("operation on an arbitrary name")
    def __eq__(self, o): return core.mkbool(self.i == o.i) if isinstance(o, NameOf) and o.base is self.base else self._no()
    def __ne__(self, o): return s_not(self.__eq__(o))
    __hash__ = None
    __add__ = __getitem__ = __iter__ = __len__ = __contains__ = lower = upper = replace = _no
    def __format__(self, s): return '<name>'

class NamesBase(Base):
    """names of arbitrary classes of materials"""
    def __init__(self, name, n):
        Base.__init__(self, name, n)
        self.name = name
    def make(self, i): return NameOf(self, i)
    def cls(self, i): return AnyMaterial(self, i)

class AnyMaterial:
    """an arbitrary class of materials, and its objects"""
    def __init__(self, base, i): self._b, self._i = base, I(i)
    def __call__(self): return AnyMaterial(self._b, self._i)
    def n(self, w): return SReal(z3.Function(self._b.name + '.n', z3.IntSort(), z3.RealSort(), z3.RealSort())(self._i, core.to_real(force(w))))
    def abbeNumber(self): return SReal(z3.Function(self._b.name + '.V', z3.IntSort(), z3.RealSort())(self._i))
    Vd = abbeNumber
    @property
    def __name__(self): return NameOf(self._b, self._i)
    def _air(self): return z3.Function(self._b.name + '.air', z3.IntSort(), z3.BoolSort())(self._i)
    def _rtv_isinstance(self, cls):
        if cls.__name__ == 'Air': return core.mkbool(self._air())
        return cls.__name__ in ('Material', 'object') or self._no()
    def _no(self): raise Unsupported("kind of an arbitrary material")
    def __eq__(self, o): return core.mkbool(z3.simplify(self._i == o._i)) if isinstance(o, AnyMaterial) and o._b.key == self._b.key else False
    def __ne__(self, o): return s_not(self.__eq__(o))
    __hash__ = None

class AnySurface:
    """surface number i of a sequence"""
    def __init__(self, base, i): self._b, self._i = base, I(i)
    def _f(self, f): return z3.Function(self._b.name + '.' + f, z3.IntSort(), z3.RealSort())(self._i)
    def _t(self, f): return ctx().branch(z3.Function(self._b.name + '.' + f, z3.IntSort(), z3.BoolSort())(self._i))
    @property
    def number(self): return SInt(self._i)
    @property
    def R(self): return float('inf') if self._t('flat') else SReal(self._f('R'))
    @property
    def diameter(self): return float('inf') if self._t('unlimited') else SReal(self._f('diameter'))
    @property
    def spacing(self): return SReal(self._f('spacing'))
    @property
    def mat(self): return AnyMaterial(self._b, self._i)

class SurfacesBase(Base):
    def __init__(self, name, n, facts=()):
        Base.__init__(self, name, n)
        self.name, self.facts = name, list(facts)
    def make(self, i): return AnySurface(self, i)
    def access_facts(self, i):
        c = ctx(); s = AnySurface(self, i)
        c.assume_fact(s._f('R') != 0)
        c.assume_fact(s._f('diameter') > 0)
        for f in self.facts: f(I(i))

class Number(str):
    """the text of an arbitrary real number"""
    def __new__(cls, v):
        o = str.__new__(cls, '<number>'); o.v = v
        return o
    def _rtv_float(self): return self.v
    def _no(self, *a, **k): raise Unsupported("operation on the text of a number")
    __add__ = __getitem__ = __iter__ = __len__ = __contains__ = __eq__ = __ne__ = lower = upper = strip = split = replace = _no
    __hash__ = None
    def __format__(self, s): return '<number>'

class Namespace(dict):
    """globals() of a module: also finds the classes known by an arbitrary name"""
    def __getitem__(self, k):
        if isinstance(k, NameOf): return k.base.cls(k.i)
        return dict.__getitem__(self, k)
    def get(self, k, d=None):
        if isinstance(k, NameOf): return k.base.cls(k.i)
        return dict.get(self, k, d)
