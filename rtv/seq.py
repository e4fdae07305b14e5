"""Unbounded sequences: structural terms over abstract bases, with Python list semantics."""
import z3, itertools
from .core import *
from . import core

def simp(t): return z3.simplify(t)
def I(x): return z3.IntVal(x) if isinstance(x, int) else x

class Base:
    """An immutable sequence known only by its length and an element for each index."""
    def __init__(self, key, n):
        self.key = key          # hashable identity, stable over re-executions
        self.n = simp(I(n))
    def make(self, i): raise NotImplementedError
    def elem(self, i):
        i = simp(I(i))
        memo = ctx().path.__dict__.setdefault('elems', {})
        k = (self.key, i.get_id())
        if self.key in ctx().path.__dict__.get('stale', ()):
            # the elements have been modified one by one by a loop
            if k not in memo or ref_of(memo[k][0]) is not None and ref_of(memo[k][0])[0] is self: raise Unsupported("element modified by a loop")
        if k not in memo:
            memo[k] = (None, i)
            v = self.make(i)
            memo[k] = (v, i)
            if not isinstance(v, (Sym, int, float, str, tuple, SComplex, type(None))):
                ctx().path.__dict__.setdefault('refs', {})[id(v)] = (self, i, v)
        return memo[k][0]
    def access_facts(self, i): pass

class FnBase(Base):
    def __init__(self, key, n, f):
        super().__init__(key, n); self.f = f
    def make(self, i): return self.f(i)

class RangeBase(Base):
    def __init__(self, lo, step, n):
        super().__init__(('range', simp(I(lo)).get_id(), simp(I(step)).get_id()), n)
        self.lo, self.step = I(lo), I(step)
        ctx().path.log.append((lo, step))
    def make(self, i): return SInt(simp(self.lo + i * self.step))

def times(a, p):
    """a*p for unknown whole numbers, p > 0: a function known by the lemma a < b => a*p + p <= b*p"""
    a = simp(I(a)); p = simp(I(p))
    if z3.is_int_value(a) or z3.is_int_value(p): return simp(a * p)
    c = ctx()
    f = z3.Function('times', z3.IntSort(), z3.IntSort(), z3.IntSort())
    known = c.path.__dict__.setdefault('memo.times', [])
    x = f(a, p)
    if any(b.eq(a) and q.eq(p) for b, q in known): return x
    c.assume_fact(z3.And(z3.Implies(a >= 0, x >= 0), z3.Implies(a >= 1, x >= p), z3.Implies(a == 0, x == 0)))
    for b, q in known:
        if not q.eq(p): continue
        y = f(b, q)
        c.assume_fact(z3.And(z3.Implies(a < b, x + p <= y), z3.Implies(b < a, y + p <= x)))
    known.append((a, p))
    return x

class StrideBase(Base):
    """every p-th element of a sequence"""
    def __init__(self, base, lo, p, n):
        super().__init__(('stride', base.key, lo.get_id(), p.get_id()), n)
        self.b, self.lo, self.p = base, lo, p
        self.name = '%s[%s::%s]' % (base.name, lo, p) if hasattr(base, 'name') else None
        ctx().path.log.append((lo, p))
    def elem(self, i): return self.b.elem(simp(self.lo + times(i, self.p)))

class SeqBase(Base):
    """view of a sequence value (snapshot) as a base"""
    def __init__(self, segs, key, n, f):
        super().__init__(key, n); self.f = f
    def make(self, i): return self.f(i)


class Seg:
    __slots__ = ('base', 'lo', 'hi')
    def __init__(self, base, lo, hi):
        self.base, self.lo, self.hi = base, simp(I(lo)), simp(I(hi))
    def length(self): return simp(self.hi - self.lo)
    def elem(self, i): return self.base.elem(simp(self.lo + i))
    def split(self, m):
        return Seg(self.base, self.lo, self.lo + m), Seg(self.base, self.lo + m, self.hi)
    def __repr__(self): return "%s[%s:%s]" % (self.base.key, self.lo, self.hi)

class FMSeg:
    """concatenation of emit(i) for lo <= i < hi; emit is a registered emission spec"""
    __slots__ = ('emit', 'lo', 'hi')
    def __init__(self, emit, lo, hi):
        self.emit, self.lo, self.hi = emit, simp(I(lo)), simp(I(hi))
        c = ctx()
        c.assume_fact(z3.Function('fmlen.' + emit.name, z3.IntSort(), z3.IntSort(), z3.IntSort())(self.lo, self.hi) >= 0)
    def length(self):
        if self.emit.each is not None: return z3.If(self.lo >= self.hi, z3.IntVal(0), simp(self.emit.each * (self.hi - self.lo)))
        f = z3.Function('fmlen.' + self.emit.name, z3.IntSort(), z3.IntSort(), z3.IntSort())
        if self.emit.atleast: ctx().assume_fact(z3.Implies(self.lo < self.hi, f(self.lo, self.hi) >= self.emit.atleast * (self.hi - self.lo)))
        return z3.If(self.lo >= self.hi, z3.IntVal(0), f(self.lo, self.hi))
    def elem(self, i):
        return self.emit.elem_at(self, i)
    def split(self, m): raise Unsupported("splitting a flattened sequence")
    def __repr__(self): return "FM(%s)[%s:%s]" % (self.emit.name, self.lo, self.hi)

class Emit:
    """emission spec: what iteration i contributes to a list"""
    def __init__(self, name, fn, single=False, atleast=0, each=None, first=None):
        self.name, self.fn, self.atleast = name, fn, atleast
        self.first = first     # (sequence, test, item) of a selection
        self.each = each        # constant length of the emissions
    def elem_at(self, seg, i):
        """only the last element of a flattened sequence can be told (when its last emission is not empty)"""
        c = ctx()
        if self.atleast and c.valid(z3.And(seg.hi > seg.lo, I(i) == seg.length() - 1)):
            segs = normalize(as_segs(self.fn(simp(seg.hi - 1))))
            s = segs[-1]
            return s[-1] if isinstance(s, list) else s.elem(simp(seglen(s) - 1))
        if self.first is not None and c.valid(z3.And(I(i) == 0, seg.length() > 0)):
            base, test, item = self.first
            memo = c.path.__dict__.setdefault('memo.first', {})
            k = (self.name, seg.lo.get_id(), seg.hi.get_id())
            if k not in memo:
                w = z3.Int(c.fresh_name('first')); c.path.log.append(w)
                c.assume_fact(z3.And(w >= seg.lo, w < seg.hi))
                memo[k] = simp(w)
                c.path.__dict__.setdefault('witnesses', []).append(core.SInt(simp(w)))
                if not test(base.elem(simp(w))): raise Infeasible()
                if bool(core.mkbool(w > seg.lo)) and test(base.elem(simp(w - 1))): raise Infeasible()       # the one before was not selected
            return item(base.elem(memo[k]))
        raise Unsupported("indexing a flattened sequence")

class Opq:
    """an opaque list value named by a tag and scalar/ref arguments, with known length term"""
    __slots__ = ('tag', 'args', 'n', 'last', 'first', 'nonempty')
    def __init__(self, tag, args, n, last=None, first=None, nonempty=False):
        self.nonempty = nonempty
        self.tag, self.args, self.n, self.last, self.first = tag, args, n, last, first
    def length(self): return self.n
    def elem(self, i):
        c = ctx()
        if self.last is not None and c.valid(simp(I(i) == self.n - 1)): return self.last
        if self.first is not None and c.valid(simp(I(i) == 0)): return self.first
        raise Unsupported("element of an opaque list")
    def split(self, m): raise Unsupported("splitting an opaque list")
    def __repr__(self): return "Opq(%s)" % (self.tag,)


def seglen(s):
    return z3.IntVal(len(s)) if isinstance(s, list) else s.length()

def total(segs):
    n = 0; t = None
    for s in segs:
        if isinstance(s, list): n += len(s)
        else:
            l = s.length()
            t = l if t is None else t + l
    if t is None: return n
    return simp(t + n)

def as_len(t):
    if isinstance(t, int): return t
    if z3.is_int_value(t): return t.as_long()
    return SInt(t)

def ref_of(v):
    r = ctx().path.__dict__.get('refs', {}).get(id(v))
    return (r[0], r[1]) if r is not None and r[2] is v else None

def normalize(segs):
    out = []
    c = ctx()
    for s in segs:
        if isinstance(s, list):
            if not s: continue
            # merge unit elements that continue a segment
            i = 0
            while i < len(s) and out and isinstance(out[-1], Seg):
                r = ref_of(s[i])
                if r is None or r[0].key != out[-1].base.key: break
                if not r[1].eq(out[-1].hi) and not z3.is_true(simp(r[1] == out[-1].hi)): break
                out[-1] = Seg(out[-1].base, out[-1].lo, out[-1].hi + 1)
                i += 1
            rest = s[i:]
            if not rest: continue
            if out and isinstance(out[-1], list): out[-1] = out[-1] + list(rest)
            else: out.append(list(rest))
        else:
            if isinstance(s, (Seg, FMSeg)) and (s.lo.eq(s.hi) or z3.is_true(simp(s.lo == s.hi))): continue
            if out and isinstance(s, Seg) and isinstance(out[-1], list):
                r = ref_of(out[-1][-1])
                while r is not None and r[0].key == s.base.key and z3.is_true(simp(r[1] == s.lo - 1)):
                    s = Seg(s.base, s.lo - 1, s.hi)
                    out[-1] = out[-1][:-1]
                    if not out[-1]:
                        out.pop(); break
                    r = ref_of(out[-1][-1])
            if out and isinstance(s, Seg) and isinstance(out[-1], Seg) and out[-1].base.key == s.base.key and \
                    (z3.is_true(simp(out[-1].hi == s.lo))):
                out[-1] = Seg(s.base, out[-1].lo, s.hi)
            elif out and isinstance(s, FMSeg) and isinstance(out[-1], FMSeg) and out[-1].emit.name == s.emit.name and \
                    z3.is_true(simp(out[-1].hi == s.lo)):
                out[-1] = FMSeg(s.emit, out[-1].lo, s.hi)
            else:
                out.append(s)
    return out


class SList:
    """Python list with structural contents"""
    def __init__(self, segs=None, src=None):
        p = ctx().path if core._CTX is not None else None
        self.segs = segs if segs is not None else []
        if p is not None:
            self.id = next(p.objids)
            p.__dict__.setdefault('lists', {})[self.id] = self
        else:
            self.id = -1
    # -- basic
    def touch(self):
        rt = core._CTX and ctx().__dict__.get('runtime')
        if rt: rt.on_list_write(self)
    def concrete(self):
        """python list if the length is a constant"""
        if all(isinstance(s, list) for s in self.segs):
            if len(self.segs) == 1: return self.segs[0]
            return [v for s in self.segs for v in s]
        return None
    def n(self): return total(self.segs)
    def snapshot(self): return [list(s) if isinstance(s, list) else s for s in self.segs]
    def set(self, segs):
        self.touch()
        self.segs = normalize(segs)
    def __hash__(self): raise TypeError("unhashable type: 'list'")
    def __repr__(self): return repr(self.segs)
    def __format__(self, s): return "<list>"
    def __bool__(self):
        n = self.n()
        return n > 0 if isinstance(n, int) else ctx().branch(n > 0)
    def __len__(self):
        n = self.n()
        if isinstance(n, int): return n
        raise Unsupported("native len() of an unbounded sequence")
    def length(self): return as_len(self.n())
    def __iter__(self):
        c = self.concrete()
        if c is None: raise Unsupported("native iteration over an unbounded sequence")
        i = 0
        while True:
            c = self.concrete()
            if i >= len(c): return
            yield c[i]; i += 1
    # -- indexing
    def norm_index(self, i, clamp=False):
        """z3/int index normalized to 0 <= i; None if out of range (not clamp)"""
        n = self.n()
        if isinstance(i, SInt): i = simp(i.t)
        elif isinstance(i, bool): i = int(i)
        elif isinstance(i, int): pass
        elif hasattr(i, '__index__') and not isinstance(i, Sym): i = int(i)
        else: raise TypeError("list indices must be integers or slices, not %s" % type(i).__name__)
        if z3.is_expr(i) and z3.is_int_value(i): i = i.as_long()
        c = ctx()
        if isinstance(i, int) and isinstance(n, int):
            if i < 0: i += n
            if clamp: return max(0, min(i, n))
            return i if 0 <= i < n else None
        iz, nz = I(i), I(n)
        if (i < 0) if isinstance(i, int) else c.branch(iz < 0):
            iz = simp(iz + nz)
            if c.branch(iz < 0): return 0 if clamp else None
            if not clamp: return iz
            return iz
        if clamp:
            if c.branch(iz > nz): return n
            return i
        if c.branch(iz >= nz): return None
        return i
    def locate(self, i):
        """(segment number, offset) for a valid normalized index"""
        c = ctx()
        off = I(i) if not isinstance(i, int) else i
        for j, s in enumerate(self.segs):
            l = seglen(s)
            last = j == len(self.segs) - 1
            if isinstance(s, list):
                for u in range(len(s)):
                    if isinstance(off, int):
                        if off == u: return j, u
                    elif last and u == len(s) - 1:
                        c.assume_fact(off == u); return j, u
                    elif c.branch(off == u): return j, u
                off = off - len(s) if isinstance(off, int) else simp(off - len(s))
            else:
                if last or c.branch(I(off) < l): return j, I(off)
                off = simp(I(off) - l)
                if z3.is_int_value(off): off = off.as_long()
        raise Unsupported("index location")
    def get(self, i):
        j, off = self.locate(i)
        s = self.segs[j]
        return s[off] if isinstance(s, list) else s.elem(off)
    def split(self, m):
        """segs before / after a clamped position m"""
        if isinstance(m, int) and self.concrete() is not None:
            c = self.concrete()
            return [c[:m]], [c[m:]]
        n = self.n()
        if z3.is_true(simp(I(m) == I(n))): return self.snapshot(), []
        if z3.is_true(simp(I(m) == 0)): return [], self.snapshot()
        c = ctx()
        before, off = [], I(m)
        for j, s in enumerate(self.segs):
            l = seglen(s)
            if isinstance(s, list):
                for u in range(len(s)):
                    if c.branch(off == u):
                        return before + [s[:u]], [s[u:]] + self.snapshot()[j + 1:]
                before.append(list(s)); off = simp(off - len(s))
            else:
                if c.branch(off < l):
                    if isinstance(s, Seg):
                        a, b = s.split(off)
                        return before + [a], [b] + self.snapshot()[j + 1:]
                    if c.branch(off == 0): return before, [s] + self.snapshot()[j + 1:]
                    raise Unsupported("splitting inside an opaque sequence")
                before.append(s); off = simp(off - l)
        return before, []
    def bounds(self, sl):
        if sl.step is not None and not (isinstance(sl.step, int) and sl.step == 1):
            return None
        a = 0 if sl.start is None else self.norm_index(sl.start, True)
        b = self.n() if sl.stop is None else self.norm_index(sl.stop, True)
        return a, b
    def slice(self, sl):
        if sl.step is not None and not (isinstance(sl.step, int) and sl.step == 1):
            c = self.concrete()
            if c is not None and not any(isinstance(x, Sym) for x in (sl.start, sl.stop, sl.step)):
                return [list(c[sl])]
            if isinstance(sl.step, int) and sl.step == -1:
                return self._slice_neg(sl)
            if isinstance(sl.step, (int, SInt)): return self._slice_every(sl)
            raise Unsupported("stepped slice of an unbounded sequence")
        a, b = self.bounds(sl)
        if isinstance(a, int) and isinstance(b, int):
            if b < a: return []
        elif ctx().branch(I(b) < I(a)): return []
        pre, rest = self.split(b)
        t = SList.__new__(SList); t.segs = pre; t.id = -1
        return t.split(a)[1]
    def _slice_every(self, sl):
        """x[start:stop:p], p > 0"""
        c = ctx()
        p = simp(I(to_int(sl.step)))
        if c.branch(p == 0): raise ValueError("slice step cannot be zero")
        if c.branch(p < 0): raise Unsupported("slice with a negative step")
        sub = SList(normalize(self.slice(slice(sl.start, sl.stop))))
        if not sub.segs: return []
        if len(sub.segs) != 1 or not isinstance(sub.segs[0], Seg): raise Unsupported("stepped slice of a composed sequence")
        sg = sub.segs[0]
        n = simp(sg.hi - sg.lo)
        L = z3.Function('strides', z3.IntSort(), z3.IntSort(), z3.IntSort())(n, p)
        Lp = times(L, p)
        c.assume_fact(z3.And(L >= 0, z3.Implies(n > 0, z3.And(Lp - p < n, n <= Lp, L >= 1)), z3.Implies(n <= 0, L == 0)))
        b = StrideBase(sg.base, sg.lo, p, L)
        return [Seg(b, 0, L)]
    def _slice_neg(self, sl):
        """x[start:stop:-1] with start/stop possibly symbolic"""
        c = ctx()
        n = I(self.n())
        def adj(v, default):
            if v is None: return default
            v = I(to_int(v) if isinstance(v, SInt) else int(v))
            if c.branch(v < 0):
                v = simp(v + n)
                return z3.IntVal(-1) if c.branch(v < 0) else v
            if c.branch(v >= n): return simp(n - 1)
            return v
        start = adj(sl.start, simp(n - 1)); stop = adj(sl.stop, z3.IntVal(-1))
        if c.branch(start <= stop): return []
        sub = SList(normalize(self.slice(slice(SInt(simp(stop + 1)), SInt(simp(start + 1))))))
        return reversed_segs(sub.segs)
    def __getitem__(self, k):
        if isinstance(k, slice): return SList(normalize(self.slice(k)))
        i = self.norm_index(k)
        if i is None: raise IndexError("list index out of range")
        return self.get(i)
    def __setitem__(self, k, v):
        if isinstance(k, slice):
            a, b = self.bounds(k) or self._nostep()
            if isinstance(a, int) and isinstance(b, int): b = max(a, b)
            elif ctx().branch(I(b) < I(a)): b = a
            pre, _ = self.split(a); _, post = self.split(b)
            self.set(pre + as_segs(v) + post); return
        i = self.norm_index(k)
        if i is None: raise IndexError("list assignment index out of range")
        j, off = self.locate(i)
        s = self.segs[j]
        segs = self.snapshot()
        if isinstance(s, list): segs[j][off] = v
        else:
            a, r = s.split(off); _, b = r.split(1)
            segs[j:j + 1] = [a, [v], b]
        self.set(segs)
    def _nostep(self): raise Unsupported("stepped slice assignment")
    def __delitem__(self, k):
        if isinstance(k, slice):
            a, b = self.bounds(k) or self._nostep()
            if isinstance(a, int) and isinstance(b, int): b = max(a, b)
            elif ctx().branch(I(b) < I(a)): b = a
            pre, _ = self.split(a); _, post = self.split(b)
            self.set(pre + post)
        else:
            self.pop(k)
    def pop(self, k=-1):
        n = self.n()
        if (n == 0) if isinstance(n, int) else ctx().branch(n == 0): raise IndexError("pop from empty list")
        i = self.norm_index(k)
        if i is None: raise IndexError("pop index out of range")
        j, off = self.locate(i)
        s = self.segs[j]
        segs = self.snapshot()
        if isinstance(s, list): v = segs[j].pop(off)
        else:
            v = s.elem(off)
            a, r = s.split(off); _, b = r.split(1)
            segs[j:j + 1] = [a, b]
        self.set(segs)
        return v
    def insert(self, i, v):
        m = self.norm_index(i, True)
        a, b = self.split(m)
        self.set(a + [[v]] + b)
    def append(self, v): self.set(self.snapshot() + [[v]])
    def extend(self, o): self.set(self.snapshot() + as_segs(o))
    def clear(self): self.set([])
    def copy(self): return SList(self.snapshot())
    def reverse(self): self.set(reversed_segs(self.segs))
    def __add__(self, o):
        if not isinstance(o, (SList, list)): raise TypeError('can only concatenate list (not "%s") to list' % type(o).__name__)
        return SList(normalize(self.snapshot() + as_segs(o)))
    def __radd__(self, o):
        if not isinstance(o, (SList, list)): raise TypeError('can only concatenate list (not "%s") to list' % type(o).__name__)
        return SList(normalize(as_segs(o) + self.snapshot()))
    def __iadd__(self, o):
        self.extend(o); return self
    def __mul__(self, k):
        c = self.concrete()
        if c is not None and isinstance(k, int): return SList([list(c * k)])
        if c is not None and len(c) == 1 and isinstance(k, SInt):
            v = c[0]
            kk = z3.If(k.t < 0, z3.IntVal(0), k.t)
            return SList([Seg(FnBase(('const', self.id), kk, lambda i: v), 0, kk)])
        raise Unsupported("list repetition")
    __rmul__ = __mul__
    def __eq__(self, o):
        if not isinstance(o, (SList, list)): return False
        o = o if isinstance(o, SList) else SList([list(o)])
        a, b = self.concrete(), o.concrete()
        if a is not None and b is not None:
            if len(a) != len(b): return False
            for x, y in zip(a, b):
                if x is y: continue
                if not (x == y): return False
            return True
        raise Unsupported("comparing unbounded sequences")
    def __ne__(self, o): return not self.__eq__(o)
    def __contains__(self, v):
        c = self.concrete()
        if c is None: raise Unsupported("membership in an unbounded sequence")
        for x in c:
            if x is v or x == v: return True
        return False
    def index(self, v):
        c = self.concrete()
        if c is None: raise Unsupported("index() in an unbounded sequence")
        for i, x in enumerate(c):
            if x is v or x == v: return i
        raise ValueError("not in list")
    def count(self, v):
        n = 0
        for x in self:
            if x is v or x == v: n += 1
        return n
    def remove(self, v):
        del self[self.index(v)]
    def sort(self, *a, **k): raise Unsupported("sort of a symbolic list")
    def __reversed__(self):
        return iter(SList(reversed_segs(self.segs)))

class STuple(SList):
    """a tuple of unknown length"""
    def _no(self, *a, **k): raise AttributeError("'tuple' object has no such attribute")
    append = extend = insert = pop = clear = reverse = remove = sort = copy = _no
    def _ro(self, *a): raise TypeError("'tuple' object does not support item assignment")
    __setitem__ = __delitem__ = _ro
    def __hash__(self): raise Unsupported("hash of a tuple of unknown length")
    def __getitem__(self, k):
        r = SList.__getitem__(self, k)
        return STuple(r.segs) if isinstance(k, slice) else r
    def _join(self, a, b, o):
        if not isinstance(o, (STuple, tuple)): raise TypeError('can only concatenate tuple (not "%s") to tuple' % type(o).__name__)
        return STuple(normalize(a + b))
    def __add__(self, o): return self._join(self.snapshot(), as_segs(o), o)
    def __radd__(self, o): return self._join(as_segs(o), self.snapshot(), o)
    def __iadd__(self, o): return self.__add__(o)
    def __eq__(self, o):
        if not isinstance(o, (STuple, tuple)): return False
        return SList.__eq__(self, SList(list(as_segs(o))) if not isinstance(o, tuple) else list(o))
    def __mul__(self, k): return STuple(SList.__mul__(self, k).segs)
    __rmul__ = __mul__


class ReversedBase(Base):
    def __init__(self, base):
        super().__init__(('rev', base.key), base.n); self.b = base
    def make(self, i): return self.b.elem(simp(self.b.n - 1 - i))
    def elem(self, i): return self.b.elem(simp(self.b.n - 1 - I(i)))

def reversed_segs(segs):
    out = []
    for s in reversed(segs):
        if isinstance(s, list): out.append(list(reversed(s)))
        elif isinstance(s, Seg):
            if isinstance(s.base, ReversedBase):
                b = s.base.b
                out.append(Seg(b, b.n - s.hi, b.n - s.lo))
            else:
                n = s.base.n
                out.append(Seg(ReversedBase(s.base), n - s.hi, n - s.lo))
        else: raise Unsupported("reversing an opaque sequence")
    return out


def as_segs(o):
    """segments of any iterable the engine understands"""
    if isinstance(o, SList): return o.snapshot()
    if isinstance(o, list): return [list(o)]
    if isinstance(o, tuple): return [list(o)]
    if isinstance(o, View): return o.segs()
    rt = ctx().__dict__.get('runtime')
    if rt:
        s = rt.library_iterable(o)
        if s is not None: return s
    return [list(o)]


class View:
    """lazy iterable: range, enumerate, zip, reversed, map ... over possibly unbounded sequences"""
    def __init__(self, n, f, key, seg=None):
        self._n, self.f, self.key, self.seg = n, f, key, seg
    def n(self): return self._n
    def segs(self):
        if self.seg is not None: return [list(s) if isinstance(s, list) else s for s in self.seg]
        if isinstance(self._n, int): return [[self.f(z3.IntVal(i)) if False else self.f(i) for i in range(self._n)]]
        return [Seg(FnBase(self.key, self._n, self.f), 0, self._n)]
    def slist(self): return SList(self.segs())
    def length(self): return as_len(self._n)
    def __len__(self):
        if isinstance(self._n, int): return self._n
        raise Unsupported("native len() of an unbounded view")
    def __iter__(self):
        if not isinstance(self._n, int): raise Unsupported("native iteration over an unbounded view")
        return iter(SList(self.segs()))
    def __getitem__(self, k): return self.slist()[k]
    def __bool__(self): return bool(self.slist())
    def __reversed__(self): return iter(SList(reversed_segs(self.segs())))
    def __contains__(self, v): raise Unsupported("membership in a view")
    def __hash__(self): return id(self)


def same(a, b):
    """z3 formula: two values are the same (objects by reference, scalars by value)"""
    if a is b: return z3.BoolVal(True)
    a, b = (x.known() if isinstance(x, SChoice) else x for x in (a, b))
    if isinstance(a, SChoice) or isinstance(b, SChoice): return same_choice(a, b)
    ra, rb = ref_of(a), ref_of(b)
    if ra is not None and rb is not None and ra[0].key == rb[0].key:
        return simp(ra[1] == rb[1])
    if type(a).__name__ == 'NameOf' and type(b).__name__ == 'NameOf': return simp(a.i == b.i) if a.base.key == b.base.key else z3.BoolVal(False)
    if type(a).__name__ in ('SVal', 'SKey') or type(b).__name__ in ('SVal', 'SKey'):
        return to_bool(a == b) if type(a).__name__ in ('SVal', 'SKey') else to_bool(b == a)
    num = (SReal, SInt, int, float)
    if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)): return to_bool(a) == to_bool(b)
    if isinstance(a, num) and isinstance(b, num):
        if core.isinf(a) or core.isinf(b): return z3.BoolVal(core.isinf(a) and core.isinf(b) and a == b)
        return to_real(a) == to_real(b)
    if iscomplex(a) or iscomplex(b):
        a, b = cplx(a), cplx(b)
        if a is None or b is None: return z3.BoolVal(False)
        return z3.And(same(a.re, b.re), same(a.im, b.im))
    if a is None or b is None or isinstance(a, str) or isinstance(b, str): return z3.BoolVal(type(a) == type(b) and a == b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b): return z3.BoolVal(False)
        return z3.And(*[same(x, y) for x, y in zip(a, b)]) if a else z3.BoolVal(True)
    eqv = ctx().__dict__.get('value_classes', {})
    if type(a) is type(b) and type(a).__name__ in eqv:
        # spec objects compared by the listed fields
        return z3.And(*[same(a.__dict__.get(f), b.__dict__.get(f)) for f in eqv[type(a).__name__]])
    da, db = getattr(a, '__dict__', {}), getattr(b, '__dict__', {})
    if '_rtv' in da and '_rtv' in db and da['_rtv'][0].key == db['_rtv'][0].key:
        # a copy of an abstract element: same element of the sequence, same content
        return z3.And(simp(I(da['_rtv'][1]) == I(db['_rtv'][1])), *[same(getattr(a, f), getattr(b, f)) for f in
                      ('A', 'B', 'C', 'D', 'L', 'frontVertex', 'backVertex', 'frontIndex', 'backIndex', 'apertureDiameter', 'apertureNA')])
    if isinstance(a, (SList, list)) and isinstance(b, (SList, list)):
        ok = seq_same(as_segs(a), as_segs(b))
        return z3.BoolVal(ok)
    return z3.BoolVal(False)

def same_choice(a, b):
    fs = []
    al = a.alts if isinstance(a, SChoice) else [(z3.BoolVal(True), a)]
    bl = b.alts if isinstance(b, SChoice) else [(z3.BoolVal(True), b)]
    for g, v in al:
        for h, w in bl:
            fs.append(z3.Implies(z3.And(g, h), same(v, w)))
    return z3.And(*fs)

def seq_same(x, y, explain=None):
    """prove that two segment lists denote the same list"""
    c = ctx()
    x, y = normalize(x), normalize(y)
    x, y = [list(s) if isinstance(s, list) else s for s in x], [list(s) if isinstance(s, list) else s for s in y]
    def no(m):
        if explain is not None: explain.append(m)
        return False
    def isempty(s):
        if isinstance(s, Opq) and s.nonempty: return False
        if isinstance(s, Seg): return c.valid(s.hi <= s.lo)
        if isinstance(s, FMSeg) and s.emit.atleast: return c.valid(s.hi <= s.lo)
        if isinstance(s, FMSeg) and s.emit.each is None and not c.valid(seglen(s) == 0):
            # nothing emitted at an arbitrary index
            i = z3.Int(c.fresh_name('ie'))
            c.path.log.append(i)
            def nothing():
                c.assume_fact(z3.And(i >= s.lo, i < s.hi))
                return all(isempty(t) for t in as_segs(s.emit.fn(i)))
            return c.forall(nothing)
        return not s if isinstance(s, list) else c.valid(seglen(s) == 0)
    unfolded = 0
    while x or y:
        if unfolded > 8: return no("no end to the unfolding")
        if x and y and type(x[0]) is type(y[0]) and isinstance(x[0], FMSeg) and x[0].emit.name == y[0].emit.name and x[0].lo.eq(y[0].lo): pass
        else:
            if x and isempty(x[0]): x.pop(0); continue
            if y and isempty(y[0]): y.pop(0); continue
        if not x or not y: return no("lengths differ: %r / %r" % (x, y))
        a, b = x[0], y[0]
        if isinstance(a, list) and isinstance(b, list):
            if not c.valid(same(a[0], b[0])): return no("elements differ")
            a.pop(0); b.pop(0); continue
        if isinstance(a, list) or isinstance(b, list):
            if isinstance(b, list): a, b = b, a; swap = True
            else: swap = False
            # a is a list, b a segment
            if isinstance(b, Seg):
                if not c.valid(b.length() > 0): return no("segment may be empty")
                if not c.valid(same(a[0], b.base.elem(b.lo))): return no("element differs from segment head")
                a.pop(0)
                nb = Seg(b.base, b.lo + 1, b.hi)
                if swap: x[0] = nb
                else: y[0] = nb
                continue
            if isinstance(b, FMSeg):
                if not c.valid(b.hi > b.lo): return no("flattened segment may be empty")
                em = b.emit.fn(b.lo); unfolded += 1
                ex = [em] if False else as_segs(em)
                nb = ex + [FMSeg(b.emit, b.lo + 1, b.hi)]
                if swap: x[0:1] = nb
                else: y[0:1] = nb
                x, y = normalize(x), normalize(y)
                continue
            return no("list against opaque %r" % b)
        if isinstance(a, Opq) and isinstance(b, Opq):
            if a.tag != b.tag or len(a.args) != len(b.args): return no("different opaque lists")
            if not c.valid(z3.And(*[same(p, q) for p, q in zip(a.args, b.args)]) if a.args else z3.BoolVal(True)):
                return no("opaque list arguments differ")
            x.pop(0); y.pop(0); continue
        if isinstance(a, FMSeg) and isinstance(b, FMSeg) and a.emit.name == b.emit.name and c.valid(a.lo == b.lo):
            if c.valid(a.hi == b.hi): x.pop(0); y.pop(0); continue
            if c.valid(a.hi > b.hi):
                y.pop(0); x[0] = FMSeg(a.emit, b.hi, a.hi); continue
            if c.valid(a.hi < b.hi):
                x.pop(0); y[0] = FMSeg(b.emit, a.hi, b.hi); continue
            return no("flattened bounds differ")
        if isinstance(a, FMSeg) and isinstance(b, FMSeg) and c.valid(a.hi - a.lo == b.hi - b.lo):
            # what iteration i contributes, at an arbitrary i
            i = z3.Int(c.fresh_name('ix'))
            c.path.log.append(i)
            def there():
                c.assume_fact(z3.And(i >= 0, i < a.hi - a.lo))
                return seq_same(as_segs(a.emit.fn(simp(a.lo + i))), as_segs(b.emit.fn(simp(b.lo + i))), explain)
            if c.forall(there): x.pop(0); y.pop(0); continue
            return no("emissions differ at an arbitrary index: %r %r" % (a, b))
        if isinstance(a, FMSeg) or isinstance(b, FMSeg):
            # unfold one step if known nonempty
            if isinstance(b, FMSeg): x, y, a, b = y, x, b, a
            if not c.valid(a.hi > a.lo): return no("flattened segment may be empty")
            unfolded += 1
            x[0:1] = as_segs(a.emit.fn(a.lo)) + [FMSeg(a.emit, a.lo + 1, a.hi)]
            x, y = normalize(x), normalize(y)
            if x and isinstance(x[0], FMSeg) and x[0].emit.name == a.emit.name: return no("flattened segments do not match")
            continue
        if isinstance(a, Seg) and isinstance(b, Seg):
            if a.base.key == b.base.key and c.valid(a.lo == b.lo):
                if c.valid(a.hi == b.hi): x.pop(0); y.pop(0); continue
                if c.valid(a.hi >= b.hi): y.pop(0); x[0] = Seg(a.base, b.hi, a.hi); continue
                if c.valid(a.hi <= b.hi): x.pop(0); y[0] = Seg(b.base, a.hi, b.hi); continue
                return no("segment bounds differ: %r %r" % (a, b))
            # element-wise comparison at an arbitrary index, equal lengths
            if not c.valid(a.length() == b.length()): return no("segments of different bases and lengths %r %r" % (a, b))
            i = z3.Int(c.fresh_name('ix'))
            def there():
                c.assume_fact(z3.And(i >= 0, i < a.length()))
                return c.valid(same(a.base.elem(simp(a.lo + i)), b.base.elem(simp(b.lo + i))))
            if not c.forall(there): return no("segments differ at an arbitrary index: %r %r" % (a, b))
            x.pop(0); y.pop(0); continue
        return no("cannot align %r with %r" % (a, b))
    return True
