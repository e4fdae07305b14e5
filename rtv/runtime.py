"""What the instrumented code calls: loops, comprehensions, builtins."""
import sys, types, math, operator
import builtins as _b
import z3
from .core import *
from . import core, maps
from .seq import *
from .seq import I, simp, View, SList, Seg, FMSeg, Base, FnBase, as_segs, as_len


class Poison:
    def __init__(self, why): object.__setattr__(self, '_why', why)
    def _no(self, *a, **k): raise Unsupported("use of a variable with unknown value: " + object.__getattribute__(self, '_why'))
    __getattr__ = __call__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = _no
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __bool__ = __iter__ = __getitem__ = __len__ = __contains__ = _no
    __hash__ = None


class GenView:
    """a generator expression over an unbounded sequence; consumed by a builtin or a for loop"""
    def __init__(self, it, f, c, flat): self.it, self.f, self.c, self.flat, self.used = it, f, c, flat, False
    def __iter__(self): raise Unsupported("native iteration over an unbounded generator")


UNSET = object()

class Runtime:
    MAXNATIVE = 200
    def __init__(self, engine):
        self.engine = engine
        self.mods = []          # active symbolic loops (innermost last)
        self.loopstack = []

    # ------------------------------------------------------------ small helpers
    def mklist(self, l): return SList([l])
    def identity(self, x): return x
    def unpack(self, v, n, star):
        """right-hand side of a, b = v  or  a, *b = v (n names without star)"""
        v = force(v)
        if isinstance(v, GenView): v = self.realize(v)
        if isinstance(v, View): v = SList(normalize(as_segs(v)))
        if not isinstance(v, SList) or v.concrete() is not None: return v
        m = I(v.n())
        if star:
            if ctx().branch(m < n): raise ValueError("not enough values to unpack")
            return v
        if ctx().branch(m < n): raise ValueError("not enough values to unpack")
        if ctx().branch(m > n): raise ValueError("too many values to unpack")
        return [v[j] for j in range(n)]
    def unstar(self, v, before, after):
        v = self.unpack(v, before + after, True)
        if not isinstance(v, SList):
            v = list(v)
            if len(v) < before + after: raise ValueError("not enough values to unpack")
            v = SList([v])
        m = v.length()
        try: mid = SList(normalize(as_segs(v[before:m - after])))
        except Unsupported: mid = SList([Opq('unstarred%d' % next(ctx().path.objids), (), simp(I(v.n()) - before - after))])
        return [v[j] for j in range(before)] + [mid] + [v[m - after + j] for j in range(after)]
    def joined(self, parts):
        """a list display with stars"""
        out = []
        for star, v in parts:
            if not star: out.append([v]); continue
            v = force(v)
            if isinstance(v, GenView): v = self.realize(v)
            out += [list(v)] if self.bounded(v) else as_segs(v)
        return SList(normalize(out))
    def joined_tuple(self, parts):
        l = self.joined(parts)
        return tuple(l) if self.bounded(l) else STuple(l.segs)
    def mkset(self, l):
        c = l.concrete() if isinstance(l, SList) else list(l)
        if c is None: raise Unsupported("set of an unbounded sequence")
        return set(c)
    def mkdict(self, l): return dict((a, b) for a, b in l)
    def is_(self, a, b):
        a, b = force(a), force(b)
        if a is b: return True
        if a is None or b is None:
            o = b if a is None else a
            return o._rtv_is_none() if type(o) is maps.SVal else False
        ra, rb = ref_of(a), ref_of(b)
        if ra and rb and ra[0].key == rb[0].key: return core.mkbool(simp(ra[1] == rb[1]))
        if isinstance(a, SBool) and isinstance(b, bool) or isinstance(b, SBool) and isinstance(a, bool):
            return a == b
        return False
    def isnot_(self, a, b):
        return s_not(self.is_(a, b))
    def in_(self, a, b):
        if isinstance(b, GenView) or (isinstance(b, SList) and b.concrete() is None) or isinstance(b, View) and not isinstance(b.n(), int):
            return self.engine.helpers['contains'](b, a)
        if isinstance(b, dict) and hasattr(b, '_m'): return b.__contains__(a)
        if isinstance(b, (tuple, list, SList, View)):
            for x in b:
                if x is a or x == a: return True
            return False
        return a in b
    def notin_(self, a, b): return not self.in_(a, b)

    # ------------------------------------------------------------ iteration
    def library_iterable(self, o):
        """segments of a library collection object (iteration contract: it visits its elements in order)"""
        f = self.engine.iterables
        for cls in type(o).__mro__:
            if cls.__name__ in f:
                return f[cls.__name__](o)
        return None

    def bounded(self, it):
        """is this iterable natively iterable?"""
        if isinstance(it, SList): return it.concrete() is not None
        if isinstance(it, View): return isinstance(it.n(), int)
        if isinstance(it, GenView): return False
        s = self.library_iterable(it)
        if s is not None: return not any(not isinstance(x, list) for x in s)
        return True

    def comp(self, it, f, c, flat, kind, site):
        if self.bounded(it):
            if kind == 'gen' :
                return self._gen(it, f, c, flat)
            out = []
            for x in it:
                if c is None or c(x):
                    r = f(x)
                    if not flat: out.append([r])
                    elif self.bounded(r): out.append(list(r))
                    else: out += as_segs(self.realize(r) if isinstance(r, GenView) else r)
            return SList(normalize(out))
        if kind == 'gen' and not flat:
            return GenView(it, f, c, flat)
        if flat: return self.engine.helpers['listcomp_flat'](it, f, c)
        if c is None: return self.engine.helpers['listcomp'](it, f)
        return self.engine.helpers['listcomp_if'](it, f, c)
    def _gen(self, it, f, c, flat):
        for x in it:
            if c is None or c(x):
                if flat: yield from f(x)
                else: yield f(x)

    def for_(self, it, site, names, tnames):
        it = force(it)
        counter = None
        if isinstance(it, Counter):
            counter = it
            it = it.view if it.view is not None else it
        if isinstance(it, GenView): it = self.realize(it)
        if isinstance(it, Counter) or self.bounded(it):
            yield NativeFor(it)
            return
        segs = None
        of = getattr(it, 'indices_of', None)
        if of is not None: segs = self.engine.indices(of)
        if segs is None: segs = normalize(as_segs(it))
        whole = it
        done = z3.IntVal(0)
        counted = self.library_iterable(whole) is not None
        if counted: whole.__iter__()
        for j, s in enumerate(segs):
            if isinstance(s, list): yield NativeFor(self.watched(whole, s, done if counted else None))
            else:
                L = SymFor(self, whole, s, "%s#%d" % (site, j), names, tnames, done, j == len(segs) - 1)
                L.counting = counter
                yield L
            done = simp(done + (len(s) if isinstance(s, list) else s.length()))
        if self.library_iterable(whole) is not None:
            self.iter_effect(whole, done)
    def watched(self, whole, s, done=None):
        segs = whole.segs if isinstance(whole, SList) else None
        for j, x in enumerate(s):
            if done is not None: self.iter_effect(whole, simp(done + j + 1))
            yield x
            if segs is not None and whole.segs is not segs: raise Unsupported("loop modifies the list it iterates over")
    def iter_effect(self, it, k):
        f = self.engine.iter_effects
        for cls in type(it).__mro__:
            if cls.__name__ in f:
                f[cls.__name__](it, as_len(simp(k))); return
    def iterating(self, it, k):
        """the iterator state of a library collection while item number k is processed"""
        if isinstance(it, (SList, View)) or self.library_iterable(it) is None: return None
        keep = []
        for L in list(self.loopstack): keep.append(L)
        self.loopstack = []
        try: self.iter_effect(it, simp(k + 1))
        finally: self.loopstack = keep
        return it.__dict__.get('iteration')
    def realize(self, g):
        if g.used: raise Unsupported("a generator used twice")
        g.used = True
        if g.c is None: return self.engine.helpers['listcomp'](g.it, g.f)
        return self.engine.helpers['listcomp_if'](g.it, g.f, g.c)

    def extends(self, l, it):
        """appending one by one the items of a list that is only known as a whole"""
        if type(l) not in (list, SList): return False
        it = force(it)
        if not isinstance(it, SList) or it is l: return False
        return any(not isinstance(s, (list, Seg, FMSeg)) for s in it.segs)

    # `i = ..; while i < bound: ..; i += 1`: a walk over positions
    def countable(self, site): return not ctx().know.get(('plain', site))
    def counter(self, site, i, f): return Counter(self, site, i, f)
    def while_(self, site, env, names):
        c = ctx()
        key = loop_key(c, site)
        if c.know.get(('symwhile', key)):
            return SymWhile(self, site, env, names, key)
        return NativeWhile(self, key)

    # ------------------------------------------------------------ write tracking
    def on_write(self, obj, attr):
        c = core._CTX
        if c is None or c.path is None: return
        reg = c.path.__dict__.setdefault('objs', {})
        e = reg.get(id(obj))
        if e is None or e[1] is not obj:
            e = reg[id(obj)] = (next(c.path.objids), obj)
        for L in self.loopstack: L.wrote_attr(e[0], obj, attr)
    def turned(self, key):
        """an element of that sequence was turned around"""
        for L in self.loopstack:
            if L.mode == 'body' and not L.done and key not in L.K.setdefault('turned', []):
                L.K['turned'].append(key); L.pending = True
        ctx().path.__dict__.setdefault('stale', set()).add(key)
    def register(self, obj):
        c = ctx()
        reg = c.path.__dict__.setdefault('objs', {})
        reg[id(obj)] = (next(c.path.objids), obj)
    def objkey(self, obj):
        e = ctx().path.__dict__.setdefault('objs', {}).get(id(obj))
        return e[0] if e is not None and e[1] is obj else None
    def on_list_write(self, lst):
        for L in self.loopstack: L.wrote_list(lst)


class NativeFor:
    sym = False
    exit_nonempty = False
    def __init__(self, it): self.it = it
    def __iter__(self): return iter(self.it)


class Counter:
    def __init__(self, rt, site, i, f):
        self.site, self.f, self.start = site, f, force(i)
        self.i = self.start
        n = force(f())
        if isinstance(self.start, SInt) or isinstance(n, SInt): self.view = rt.engine.range(self.start, n)
        else: self.view = None
        self.n = n
    def __iter__(self):
        while self.i < self.f():
            yield self.i
            self.i = self.i + 1
    def end(self):
        if self.view is None: return self.i
        a, n = to_int(self.start), to_int(self.n)
        c = ctx()
        if c.valid(n >= a): return self.n
        return as_len(simp(z3.If(n >= a, n, a)))

def loop_key(c, site):
    return (site, tuple(repr(d) for d, _ in c.path.decisions), len(c.path.pc))


class NativeWhile:
    sym = False
    def __init__(self, rt, key):
        self.rt, self.key = rt, key
        self.count = 0
        c = ctx()
        self.d0 = self.forks(c)
    def forks(self, c): return len(c.path.decisions)
    def tosym(self):
        c = ctx()
        c.know[('symwhile', self.key)] = True
        raise Restart("while loop made symbolic")
    def test(self, f):
        c = ctx()
        d = self.forks(c)
        r = bool(f())
        self.count += 1
        if self.forks(c) > d: self.tosym()
        if self.count > 3 and self.forks(c) > self.d0 + 3: self.tosym()
        if self.count > Runtime.MAXNATIVE: self.tosym()
        return r
    def again(self):
        c = ctx()
        self.count += 1
        if self.count > 1 and self.forks(c) > self.d0: self.tosym()
        if self.count > Runtime.MAXNATIVE: self.tosym()
        return True


# ---------------------------------------------------------------------- types of values
def family_of(v):
    """name of the family of sequences (one for each value of its parameters) this list belongs to"""
    if len(v.segs) != 1 or not isinstance(v.segs[0], Seg): return None
    s = v.segs[0]
    f = getattr(s.base, 'family', None)
    if f is None or not (z3.is_true(simp(s.lo == 0)) and z3.is_true(simp(s.hi == s.base.n))): return None
    FAMILIES[f, s.base.system.name] = s.base.again
    return (f, s.base.system.name)
FAMILIES = {}

def kind_of(v, entry=UNSET):
    v = v.known() if isinstance(v, SChoice) else v
    if type(v) is Poison: return ('poison',)
    if isinstance(v, bool) or isinstance(v, SBool): return ('bool',)
    if isinstance(v, SInt) or (isinstance(v, int)): return ('int',)
    if isinstance(v, SReal): return ('real',)
    if isinstance(v, float):
        if v != v: return ('const', 'nan')
        if core.isinf(v): return ('const', 'inf' if v > 0 else '-inf')
        return ('real',)
    if type(v).__module__ == 'numpy' and hasattr(v, 'item') and getattr(v, 'shape', 1) == ():
        return ('real',)
    if v is None: return ('const', 'None')
    if isinstance(v, str): return ('const', 's:' + v) if type(v) is str else ('opaque',)
    if isinstance(v, (SComplex, complex)): return ('complex',)
    if isinstance(v, SChoice):
        return ('choice', tuple(sorted(set(kind_of(a) for _, a in v.alts))))
    if entry is not UNSET and v is entry: return ('entry',)
    r = ref_of(v)
    if r is not None: return ('elem', r[0].key)
    if isinstance(v, SList):
        f = family_of(v)
        return ('family', f) if f else ('seq',)
    if isinstance(v, tuple): return ('tuple', type(v), len(v))
    if isinstance(v, types.FunctionType) or isinstance(v, type) or isinstance(v, types.MethodType): return ('entry',) if v is entry else ('opaque',)
    if hasattr(v, '__dict__') and type(v).__module__.startswith('raytracing'):
        return ('obj', type(v))
    return ('opaque',)

CONST = {'None': None, 'inf': INF, '-inf': -INF, 'nan': float('nan')}


class SymLoop:
    """Common part of for/while over an unknown number of iterations: Houdini-style invariants.

    entry state -> candidate invariants (templates) checked at entry, assumed for an arbitrary
    iteration, checked again after the body; candidates that fail are dropped and the exploration
    restarts, until every remaining candidate is inductive."""
    sym = True
    @property
    def walked(self):
        """the sequence walked, itself or by its positions, and where from: hints of the contracts are about it"""
        b, lo = self.base, self.lo
        while hasattr(b, 'under'): b, lo = b.under[0], simp(b.under[1] + lo)
        return b, lo
    exit_nonempty = False
    counting = None

    def base_init(self, rt, site, names):
        self.c = ctx()
        self.rt = rt
        self.site = site
        self.names = [n for n in names]
        self.mode = None
        self.done = False
    def enter(self, env):
        c = self.c
        self.key = loop_key(c, self.site) if not hasattr(self, 'key') else self.key
        self.K = c.know.setdefault(('loop', self.key), dict(kinds={}, dropped=set(), mods=[], elemw=set()))
        self.entry_env = {n: env[n] for n in env if not n.startswith('rtv_')}
        self.at = (self.key, repr([d for d, _ in c.path.decisions]))
        self.k = None
        self.start_counter = next(c.path.objids)
        self.hav = {}
        self.cands = []
        self.snap = {}
        # entry values of heap locations known to be modified
        self.heap_entry = {}
        self.roots = {}
        for loc in self.K['mods']:
            if loc[0] == 'attr':
                obj = self.find_obj(loc[1])
                self.heap_entry[loc] = obj.__dict__.get(loc[2], UNSET)
            elif loc[0] == 'list':
                self.heap_entry[loc] = c.path.lists[loc[1]].snapshot()
        for n in self.names:
            if n in self.entry_env:
                self.heap_entry[('local', n)] = self.entry_env[n]

    def find_obj(self, key):
        for k, o in self.c.path.objs.values():
            if k == key: return o
        raise Unsupported("lost track of an object modified in a loop")

    # --- writes in the body
    def wrote_attr(self, key, obj, attr):
        if self.mode != 'body' or self.done: return
        r = ref_of(obj)
        if r is not None:
            self.elem_writes.append((obj, attr)); return
        if key > self.start_counter: return
        loc = ('attr', key, attr)
        if loc not in self.K['mods']:
            self.K['mods'].append(loc); self.pending = True
    def wrote_list(self, lst):
        if self.mode != 'body' or self.done: return
        if lst.id > self.start_counter: return
        loc = ('list', lst.id)
        if loc not in self.K['mods']:
            self.K['mods'].append(loc); self.pending = True

    # --- havoc
    def hv(self, name, v):
        return self.havoc_loc(('local', name), v)
    def hu(self, name):
        """name unbound before the loop"""
        loc = ('local', name)
        kinds = self.K['kinds'].get(loc)
        if kinds is None: return Poison(name)
        self.K['kinds'].setdefault(loc, [])
        if self.mode is None: self.choose_mode()
        # bound only if an iteration has run
        if self.c.branch(self.k.t == 0):
            self.unb = getattr(self, 'unb', set()) | {name}
            return Poison(name)
        return self.havoc_loc(loc, UNSET)
    def unbound(self, name):
        return name in getattr(self, 'unb', set())

    def choose_mode(self):
        raise NotImplementedError

    def havoc_loc(self, loc, entry, attr=False):
        if self.mode is None: self.choose_mode()
        kinds = self.K['kinds'].setdefault(loc, [])
        if entry is not UNSET:
            ek = kind_of(entry)
            if ek[0] == 'choice':
                ek = None
                entry2 = entry
                for kk in kind_of(entry)[1]:
                    if kk not in kinds: kinds.append(kk)
            else:
                if ek[0] in ('obj', 'seq', 'opaque') or ek[0] == 'tuple' and ek[1] is not tuple: ek = ('entry',)
                if ek not in kinds: kinds.append(ek)
        if ('int',) in kinds and ('real',) in kinds: use = [x for x in kinds if x != ('int',)]
        else: use = list(kinds)
        if attr and len(use) > 1 and all(x[0] == 'const' or x == ('real',) for x in use):
            # one of several alternatives: kept symbolic until the code looks
            alts, rest = [], z3.BoolVal(True)
            for j, x in enumerate(use):
                if j == len(use) - 1: g = rest
                else:
                    b = z3.Bool(self.c.fresh_name('alt'))
                    g = z3.And(rest, b); rest = z3.And(rest, z3.Not(b))
                alts.append((g, self.make(loc, x, entry)))
            v = SChoice(alts)
            self.hav[loc] = (('choice',), v)
            return v
        kd = use[0] if len(use) == 1 else self.c.decide(use)
        v = self.make(loc, kd, entry)
        self.hav[loc] = (kd, v)
        return v

    def make(self, loc, kd, entry):
        c = self.c
        t = kd[0]
        nm = '.'.join(str(x) for x in loc)
        if t == 'poison': return Poison(nm)
        if t == 'entry':
            return entry
        if t == 'real': return c.real(hint='h_' + nm)
        if t == 'int': return c.int(hint='h_' + nm)
        if t == 'bool': return c.bool(hint='h_' + nm)
        if t == 'complex': return SComplex(c.real(hint='h_' + nm), c.real(hint='h_' + nm))
        if t == 'const':
            return kd[1][2:] if kd[1].startswith('s:') else CONST[kd[1]]
        if t == 'elem':
            try: base = self.find_base(kd[1])
            except Unsupported:
                if loc[0] == 'local' and entry is UNSET: return Poison(nm)     # made in each iteration
                raise
            j = z3.Int(c.fresh_name('j_' + nm))
            c.assume_fact(z3.And(j >= 0, j < base.n))
            v = base.elem(j)
            self.elemidx = getattr(self, 'elemidx', {}); self.elemidx[loc] = (base, j)
            return v
        if t == 'seq':
            l = SList([]); self.seqvars = getattr(self, 'seqvars', {}); self.seqvars[loc] = l
            try: l.segs = self.seq_havoc(loc, entry)
            except Unsupported:
                if loc[0] == 'local' and entry is UNSET: return Poison(nm)     # a list made anew in each iteration
                raise
            return l
        if t == 'family':
            ps = [c.real(hint='h_%s_%d' % (nm, i)) for i in range(2)]
            b = FAMILIES[kd[1]](ps)
            return SList([Seg(b, 0, b.n)])
        if t == 'tuple':
            vals = []
            for i in range(kd[2]):
                sub = loc + (i,)
                vals.append(self.havoc_loc(sub, UNSET) if sub in self.K['kinds'] else Poison(nm))
            return kd[1](vals) if kd[1] is tuple else kd[1](*vals)
        if t == 'obj':
            o = object.__new__(kd[1])
            self.rt.register(o)
            for f in self.K.setdefault('fields', {}).get((loc, kd), []):
                o.__dict__[f] = self.havoc_loc(loc + (f,), UNSET, attr=True)
            return o
        raise Unsupported("loop modifies %s of unsupported kind %r" % (nm, kd))

    def find_base(self, key):
        for v in self.c.path.__dict__.get('refs', {}).values():
            if v[0].key == key: return v[0]
        if getattr(self, 'base', None) is not None and self.base.key == key: return self.base
        raise Unsupported("lost sequence")

    def learn(self, loc, v, entry):
        """record the kind of the value at the end of the body; True if new"""
        kinds = self.K['kinds'].setdefault(loc, [])
        kd = kind_of(v, entry)
        new = False
        if kd[0] == 'choice':
            for kk in kd[1]:
                if kk not in kinds: kinds.append(kk); new = True
            return new
        if kd[0] == 'opaque' and len(loc) == 2 and loc[0] == 'local': kd = ('poison',)      # made in each iteration
        if kd[0] == 'opaque': raise Unsupported("loop modifies %r with a value of unsupported kind %s" % (loc, type(v).__name__))
        if kd not in kinds:
            if kd == ('int',) and ('real',) in kinds: pass
            else: kinds.append(kd); new = True
        if kd[0] == 'obj':
            fl = self.K.setdefault('fields', {}).setdefault((loc, kd), [])
            for f, x in v.__dict__.items():
                if f not in fl: fl.append(f); new = True
                if self.learn(loc + (f,), x, UNSET): new = True
        if kd[0] == 'tuple':
            for i, x in enumerate(v):
                if self.learn(loc + (i,), x, UNSET): new = True
        return new

    # --- sequences modified by the loop
    def seq_entry(self, entry):
        if entry is UNSET: return []
        if isinstance(entry, SList): return entry.snapshot()
        return entry
    def seq_templates(self, loc, entry):
        """possible contents after k iterations: name -> segs(k)"""
        e0 = self.seq_entry(entry)
        out = []
        if getattr(self, 'base', None) is not None:
            for nm, mk in self.source_templates():
                out.append(('++' + nm, lambda k, mk=mk: [list(s) if isinstance(s, list) else s for s in e0] + mk(k)))
        if getattr(self, 'base', None) is not None:
            # the contents of the lists walked, one after the other
            rt, b, lo = self.rt, self.base, self.lo
            def contents(i):
                x = force(b.elem(i))
                if isinstance(x, (SList, list)): return SList(as_segs(x))
                segs = rt.library_iterable(x)
                if segs is None: raise Unsupported("not a sequence")
                return SList(segs)
            def flat(k):
                i = z3.Int(self.c.fresh_name('fl')); self.c.path.log.append(i)
                def there():
                    self.c.assume_fact(z3.And(i >= 0, i < self.n))
                    contents(simp(lo + i)); return True
                self.c.forall(there)
                em = Emit('contents.%s.%s' % (b.key, lo), lambda i: contents(simp(lo + i)))
                return [list(s) if isinstance(s, list) else s for s in e0] + [FMSeg(em, 0, k)]
            out.append(('++contents', flat))
        for em in self.rt.engine.harness_emits():
            out.append(('++emit.' + em.name, lambda k, em=em: [list(s) if isinstance(s, list) else s for s in e0] + [FMSeg(em, 0, k)]))
        for mp in self.rt.engine.harness_maps():
            out.append(('++map.%r' % (mp.key,), lambda k, mp=mp: [list(s) if isinstance(s, list) else s for s in e0] + [Seg(mp, 0, k)]))
        if self.rt.engine._hints:
            ks = [L.k.t for L in self.rt.loopstack if isinstance(L, SymFor) and L is not self]
            for h in self.rt.engine._hints:
                for nm, mk in h(ks):
                    out.append(('++' + nm, lambda k, mk=mk: [list(s) if isinstance(s, list) else s for s in e0] + mk(k)))
        out.append(('same', lambda k: [list(s) if isinstance(s, list) else s for s in e0]))
        return out
    def source_templates(self):
        """source[0:k] when the source is a plain segment"""
        r = []
        s = self.src
        if len(s) == 1 and isinstance(s[0], Seg):
            sg = s[0]
            r.append(('src', lambda k: [Seg(sg.base, sg.lo, simp(sg.lo + I(k)))]))
        else:
            def pre(k):
                l = SList.__new__(SList); l.segs = [list(x) if isinstance(x, list) else x for x in s]; l.id = -1
                return l.split(simp(I(k)))[0]
            r.append(('src', pre))
        return r
    def seq_havoc(self, loc, entry):
        for nm, mk in self.seq_templates(loc, entry):
            if (loc, 'seq', nm) in self.K['dropped']: continue
            try: r = normalize(mk(self.k.t))
            except Unsupported:
                if nm != '++contents': raise
                continue
            if self.K.get('turned') and any(isinstance(x, Seg) and (x.base.key in self.K['turned'] or getattr(getattr(x.base, 'b', None), 'key', None) in self.K['turned']) for x in r):
                self.K['dropped'].add((loc, 'seq', nm)); continue      # elements as they were before the loop turned them around
            self.hav_seq = getattr(self, 'hav_seq', {}); self.hav_seq[loc] = (nm, mk)
            return r
        raise Unsupported("no invariant found for the contents of list %r in loop %s" % (loc, self.site))

    # --- candidates
    def leaf_candidates(self, loc, entry, v):
        """(name, fn(value, k) -> z3 bool) for scalar locations"""
        out = []
        num = lambda x: isinstance(x, (SReal, SInt)) or (isinstance(x, (int, float)) and not isinstance(x, bool) and not core.isinf(x) and x == x)
        def guard(f):
            return lambda x, k: f(x, k) if num(x) else None
        if num(entry) :
            e = to_real(entry)
            R = lambda x: to_real(x)
            kr = lambda k: z3.ToReal(k)
            out += [('==entry', guard(lambda x, k: R(x) == e)),
                    ('>=entry', guard(lambda x, k: R(x) >= e)),
                    ('<=entry', guard(lambda x, k: R(x) <= e)),
                    ('+k', guard(lambda x, k: R(x) == e + kr(k))),
                    ('-k', guard(lambda x, k: R(x) == e - kr(k)))]
            for nm, fn in self.sums():
                out.append(('+sum ' + nm, guard(lambda x, k, fn=fn: R(x) == e + fn(k))))
                out.append(('-sum ' + nm, guard(lambda x, k, fn=fn: R(x) == e - fn(k))))
        out += [('>=0', guard(lambda x, k: to_real(x) >= 0)), ('>0', guard(lambda x, k: to_real(x) > 0)),
                ('<=n', guard(lambda x, k: to_real(x) <= z3.ToReal(self.n)) if self.n is not None else None)]
        if isinstance(entry, (bool, SBool)):
            e = to_bool(entry)
            out.append(('==entry', lambda x, k: to_bool(x) == e if isinstance(x, (bool, SBool)) else None))
        return [(a, b) for a, b in out if b is not None]

    def sums(self):
        return []

    def elem_candidates(self, loc):
        return [('==src[k-1]', lambda base, j, k: j == self.lo + k - 1), ('<src[k]', lambda base, j, k: j < self.lo + k),
                ('==src[max(k-1,0)]', lambda base, j, k: j == self.lo + z3.If(k > 0, k - 1, z3.IntVal(0)))]

    def all_candidates(self, state, k):
        """state: loc -> value.  -> list of (id, z3 bool or None)"""
        out = []
        for loc, v in state.items():
            out += self.value_candidates(loc, self.heap_entry.get(loc, UNSET), v, k)
        for nm, f in self.rt.engine.harness_invariants(self, state, k):
            out.append((('hint', nm), f))
        # element-like objects against the ordered product of the elements walked so far
        fg = getattr(self.rt.engine, 'fold_group', None)
        if fg and self.seg is not None:
            heap = {}
            for loc, v in state.items():
                if loc[0] == 'attr': heap.setdefault(loc[1], {})[loc[2]] = v
                elif loc[0] == 'local' and hasattr(v, '__dict__') and type(v).__module__.startswith('raytracing'):
                    ent = self.heap_entry.get(loc, UNSET)
                    out += self.fold_cands(fg, loc, v.__dict__, ent.__dict__ if hasattr(ent, '__dict__') else None, k)
            for key, fields in heap.items():
                ent = {l[2]: e for l, e in self.heap_entry.items() if l[0] == 'attr' and l[1] == key}
                full = dict(self.find_obj(key).__dict__); full.update(ent)
                out += self.fold_cands(fg, ('obj', key), fields, full, k)
                if not hasattr(self.base, 'fold'): out += self.rt.engine.class_invariant(self, key, fields, k, ent)
        return out
    def fold_cands(self, fg, loc, fields, entry, k):
        from .api import MSpec, ATTR
        if not any(a in fields for a in ATTR.values()): return []
        ent = None
        g = self.rt.engine.g
        try:
            if entry is not None:
                ent = MSpec(*[g.opt(entry[ATTR[f]]) if f in ('fv', 'bv') else entry[ATTR[f]] for f in ('A', 'B', 'C', 'D', 'L', 'fv', 'bv', 'fi', 'bi')])
        except (KeyError, AttributeError): ent = None
        return fg(self, loc, {f: fields[a] for f, a in ATTR.items() if a in fields}, ent, k)

    def value_candidates(self, loc, entry, v, k):
        out = []
        v = v.known() if isinstance(v, SChoice) else v
        if isinstance(v, Poison): return out
        kd = kind_of(v)
        if kd[0] == 'choice': return out
        if entry is not UNSET and len(loc) <= 2 and loc[0] == 'local' and ('entry',) in self.K['kinds'].get(loc, ()):
            out.append(((loc, 'entry=>k=0'), k == 0) if v is entry else ((loc, 'other=>k>0'), k > 0))
        if kd[0] in ('real', 'int', 'bool'):
            ent = self.entry_of(loc, entry)
            for nm, f in self.leaf_candidates(loc, ent, v):
                t = f(v, k)
                if t is not None: out.append(((loc, nm), t))
        # which kind when
        ent = self.entry_of(loc, entry)
        if ent is not UNSET and kd[0] in ('real', 'int', 'const', 'elem', 'obj') and len(loc) <= 2:
            ek = kind_of(ent)
            if ek[0] == 'const':
                if kd == ek:
                    out.append(((loc, 'const=>k=0'), k == 0))
                else:
                    out.append(((loc, 'nonconst=>k>0'), k > 0))
        if kd[0] == 'elem':
            r = ref_of(v)
            under = getattr(getattr(self, 'base', None), 'under', None)
            if under is not None and r[0].key == under[0].key:
                lo = simp(under[1] + self.lo)
                for nm, t in (('==src[k-1]', r[1] == lo + k - 1), ('<src[k]', r[1] < lo + k), ('==src[max(k-1,0)]', r[1] == lo + z3.If(k > 0, k - 1, z3.IntVal(0)))): out.append(((loc, nm), t))
            elif getattr(self, 'base', None) is not None and r[0].key == self.base.key:
                for nm, f in self.elem_candidates(loc):
                    out.append(((loc, nm), f(r[0], r[1], k)))
            else:
                for nm, t in (('==[k-1]', r[1] == k - 1), ('==[k]', r[1] == k), ('==[max(k-1,0)]', r[1] == z3.If(k > 0, k - 1, z3.IntVal(0)))):
                    out.append(((loc, nm), t))
        if kd[0] == 'obj' and ref_of(v) is None and not (entry is not UNSET and v is entry):
            for f, x in v.__dict__.items():
                out += self.value_candidates(loc + (f,), UNSET, x, k)
        if kd[0] == 'tuple':
            for i, x in enumerate(v): out += self.value_candidates(loc + (i,), UNSET, x, k)
        if kd[0] == 'family':
            ep = entry.segs[0].base.params if isinstance(entry, SList) and family_of(entry) else None
            for i, x in enumerate(v.segs[0].base.params):
                for nm, f in self.leaf_candidates(loc + (i,), SReal(ep[i]) if ep else UNSET, SReal(x)):
                    t = f(SReal(x), k)
                    if t is not None: out.append(((loc, i, nm), t))
        return out

    def entry_of(self, loc, entry):
        if entry is not UNSET: return entry
        # sub-location: walk from the root's entry value
        for root, e in self.heap_entry.items():
            if loc[:len(root)] == root and e is not UNSET:
                v = e
                for f in loc[len(root):]:
                    if isinstance(v, tuple) and isinstance(f, int) and f < len(v): v = v[f]
                    elif hasattr(v, '__dict__') and f in v.__dict__: v = v.__dict__[f]
                    else: return UNSET
                return v.known() if isinstance(v, SChoice) else v
        return UNSET

    def current_state(self, env):
        st = {}
        for n in self.names:
            if n in env and not (n in self.tnames): st[('local', n)] = env[n]
        for loc in self.K['mods']:
            if loc[0] == 'attr':
                o = self.find_obj(loc[1])
                st[loc] = o.__dict__.get(loc[2], UNSET)
        return {l: v for l, v in st.items() if v is not UNSET}

    # --- phases
    def start(self, env):
        """called with the havocked locals in env: havoc the heap, assume the invariants"""
        c = self.c
        if self.mode is None: self.choose_mode()
        first = c.__dict__.setdefault('first_iterations', {})
        if self.mode == 'body' and not first.get(self.at) and c.feasible(self.k.t == 0): first[self.at] = False
        # candidates that hold at entry
        if 'init' not in self.K:
            self.K['init'] = set()
        entry_state = {}
        for n in self.names:
            if n in self.entry_env and n not in self.tnames: entry_state[('local', n)] = self.entry_env[n]
        for loc in self.K['mods']:
            if loc[0] == 'attr' and self.heap_entry.get(loc, UNSET) is not UNSET: entry_state[loc] = self.heap_entry[loc]
        init_false = set()
        self.in_entry = True
        for cid, f in self.all_candidates(entry_state, z3.IntVal(0)):
            if f is None or cid in self.K['dropped']: continue
            if not c.valid(f):
                self.K['dropped'].add(cid)
        self.in_entry = False
        self.with_witness(entry_state, z3.IntVal(0), z3.IntVal(-1), 'entry')
        # heap havoc
        for loc in self.K['mods']:
            if loc[0] == 'attr':
                o = self.find_obj(loc[1])
                o.__dict__[loc[2]] = self.havoc_loc(loc, self.heap_entry[loc], attr=True)
        for loc in self.K['mods']:
            if loc[0] == 'list':
                l = c.path.lists[loc[1]]
                l.segs = self.seq_havoc(loc, self.heap_entry[loc])
        self.extra_havoc()
        st = dict(self.current_state(env))
        for cid, f in self.all_candidates(st, self.k.t):
            if f is None or cid in self.K['dropped']: continue
            c.assume_fact(simp(f) if not z3.is_bool(f) else f)
        # after no iteration: the entry state
        for loc, v in st.items():
            e = self.heap_entry.get(loc, UNSET)
            if isinstance(v, (SReal, SInt)) and kind_of(e)[0] in ('real', 'int'): c.assume_fact(z3.Implies(self.k.t == 0, to_real(v) == to_real(e)))
            elif isinstance(v, SBool) and isinstance(e, (bool, SBool)): c.assume_fact(z3.Implies(self.k.t == 0, v.t == to_bool(e)))
        if self.rt.engine._witness and self.base is not None:
            self.wit = z3.Int(c.fresh_name('witness'))
            c.assume_fact(z3.And(self.wit >= -1, self.wit < self.k.t))
            for nm, f in self.witness_facts(st, self.k.t, self.wit):
                if ('witness', nm) not in self.K['dropped']: c.assume_fact(f)
            if self.mode == 'exit': c.path.__dict__.setdefault('witnesses', []).append(SInt(simp(self.lo + self.wit)))
        self.after_assume()
        c.check_alive()
        if first.get(self.at) is False and c.feasible(self.k.t == 0): first[self.at] = True
        self.pending = False
        self.done = False
        if self.mode == 'exit': self.mark_stale()
        self.elem_writes = []
        if self.mode == 'body': self.rt.loopstack.append(self)
        self.active = True

    def mark_stale(self):
        for key in self.K.get('turned', ()): self.c.path.__dict__.setdefault('stale', set()).add(key)
    def extra_havoc(self): pass
    def after_assume(self): pass

    # --- an item of the sequence selected so far (ghost; -1: none)
    def witness_facts(self, state, k, w):
        out = []
        for f in self.rt.engine._witness: out += f(self, state, k, w)
        return out
    def with_witness(self, state, k, w, when):
        """choose the selected item (any choice is sound) and drop the facts that fail; True if any"""
        if not self.rt.engine._witness or self.base is None: return False
        if w is not None: opts = [w]
        else:
            # a value kept from before the loop has changed: the current item was selected
            changed = False
            for loc, (kd, h) in self.hav.items():
                if loc not in self.heap_entry or loc not in state: continue
                v = state[loc]
                if v is not h and not (isinstance(v, Sym) and isinstance(h, Sym) and v.t.eq(h.t)): changed = True
            opts = [simp(k - 1), self.wit] if changed else [self.wit, simp(k - 1)]
        best = None
        for opt in opts:
            fails = [nm for nm, f in self.witness_facts(state, k, opt) if ('witness', nm) not in self.K['dropped'] and not self.c.valid(f)]
            if best is None or not fails: best = fails
            if not fails: break
        for nm in best:
            if self.c.__dict__.get('debug'): print('drop witness', nm, when)
            self.K['dropped'].add(('witness', nm))
        if not best and when == 'step': self.note('witness')
        return bool(best)

    def end_body(self, env):
        """the body fell through (or continue): the invariants must hold for k+1"""
        c = self.c
        self.done = True
        restart = self.pending
        k1 = simp(self.k.t + 1)
        for loc_n in self.names:
            if loc_n in self.tnames: continue
            loc = ('local', loc_n)
            if loc_n in env:
                ent = self.heap_entry.get(loc, UNSET)
                if self.learn(loc, env[loc_n], ent): restart = True
        for loc in self.K['mods']:
            if loc[0] == 'attr':
                o = self.find_obj(loc[1])
                if loc[2] in o.__dict__ and self.learn(loc, o.__dict__[loc[2]], self.heap_entry.get(loc, UNSET)): restart = True
        if restart: raise Restart("loop state grew")
        self.before_check()
        bad = False
        # sequences
        for loc, (nm, mk) in list(getattr(self, 'hav_seq', {}).items()):
            if loc[0] == 'list': l = c.path.lists[loc[1]]
            elif loc[0] == 'local': l = env.get(loc[1])
            else: l = self.find_obj(loc[1]).__dict__.get(loc[2])
            if not isinstance(l, SList): continue
            self.check_sub(loc, l, nm, mk, k1)
            why = []
            if not seq_same(l.snapshot(), mk(k1), why):
                if c.__dict__.get('debug'): print('drop', loc, nm, why)
                self.K['dropped'].add((loc, 'seq', nm)); bad = True
            else:
                self.note(loc, nm)
        for o, attr in self.elem_writes:
            r = ref_of(o)
            orig = r[0].original(attr, r[1]) if hasattr(r[0], 'original') else None
            cur = o.__dict__.get(attr)
            if orig is None or not c.valid(same(cur, orig)):
                raise Unsupported("loop modifies the elements it iterates over (%s)" % attr)
        st = self.current_state(env)
        for cid, f in self.all_candidates(st, k1):
            if f is None or cid in self.K['dropped']: continue
            if not c.valid(f):
                if c.__dict__.get('debug'): print('drop', cid)
                self.K['dropped'].add(cid); bad = True
            else: self.note(cid)
        if self.with_witness(st, k1, None, 'step'): bad = True
        if bad: raise Restart("candidate invariant dropped")
        self.deactivate()
        raise PathEnd()

    def check_sub(self, *a): pass
    def before_check(self): pass
    def note(self, *cid):
        o = core.Obligation("loop invariant preserved: %s %s" % (self.site, cid))
        o.status, o.backend = 'proved', 'loop'
        self.c.obligations.append(o)

    def deactivate(self):
        if self in self.rt.loopstack: self.rt.loopstack.remove(self)
        self.done = True


class SymFor(SymLoop):
    """one abstract segment of the sequence walked by a for loop"""
    def __init__(self, rt, whole, seg, site, names, tnames, done, is_last):
        self.tnames = set(tnames)
        self.it = whole
        self.seg = seg
        self.done_before = done
        self.base = seg.base if isinstance(seg, Seg) else None
        self.lo = seg.lo if isinstance(seg, (Seg, FMSeg)) else z3.IntVal(0)
        if not isinstance(seg, (Seg, FMSeg)): raise Unsupported("iteration over an opaque list")
        self.n = simp(seg.hi - seg.lo)
        self.src = [seg]
        self.base_init(rt, site, list(names))
    def choose_mode(self):
        c = self.c
        self.k = SInt(z3.Int(c.fresh_name('k')))
        self.mode = c.decide(['body', 'exit'])
        c.assume_fact(self.k.t >= 0)
        if isinstance(self.seg, Seg): c.assume_fact(self.n >= 0)
        if self.mode == 'body': c.assume_fact(self.k.t < self.n)
        else: c.assume_fact(self.k.t == z3.If(self.n >= 0, self.n, z3.IntVal(0)))
        self.rt.engine.loop_facts(self, self.src, self.k.t)
        if self.mode == 'exit':
            self.k = SInt(self.n)
            if self.tnames and isinstance(self.seg, Seg): self.exit_nonempty = bool(c.branch(self.n > 0))
            elif c.branch(self.n == 0): pass
    def extra_havoc(self): pass
    def last(self):
        try: return self.seg.elem(simp(self.n - 1))
        except Unsupported:
            if not self.K.get('turned'): raise
            return Poison('element modified by the loop')
    def sums(self):
        if self.base is None: return []
        base, lo = self.base, self.lo
        if hasattr(base, 'under'): base, lo = base.under[0], simp(base.under[1] + lo)
        return [(nm, lambda k, fn=fn: fn(lo, simp(lo + k))) for nm, fn in getattr(base, 'sums', {}).items()]
    def any_item(self, parts):
        s = parts[self.c.decide(list(range(len(parts))))] if parts else []
        if isinstance(s, list):
            if not s: raise Infeasible()
            return s[self.c.decide(list(range(len(s))))]
        m = z3.Int(self.c.fresh_name('item'))
        self.c.assume_fact(z3.And(m >= 0, m < s.hi - s.lo)); self.c.check_alive()
        if isinstance(s, Seg): return s.elem(m)
        if not isinstance(s, FMSeg): raise Unsupported("iteration over an opaque emission %r" % (parts,))
        return self.any_item(normalize(as_segs(s.emit.fn(simp(s.lo + m)))))
    def __iter__(self):
        if self.mode == 'exit': return
        mark = self.rt.iterating(self.it, simp(self.done_before + self.k.t)) if isinstance(self.seg, Seg) else None
        if not isinstance(self.seg, Seg) and not isinstance(self.it, (SList, View)) and self.rt.library_iterable(self.it) is not None: self.it.__dict__['iteration'] = Poison('iteration')
        try:
            if isinstance(self.seg, Seg):
                x = self.seg.elem(self.k.t)
                self.mark_stale()
                yield x
            else:
                parts = normalize(as_segs(self.seg.emit.fn(simp(self.lo + self.k.t))))
                if all(isinstance(s, list) for s in parts):
                    for s in parts:
                        for x in s: yield x
                else:
                    # nothing is carried from one item to the next: any item of the emission stands for all
                    if any(n not in self.tnames for n in self.names): raise Unsupported("iteration over an opaque emission %s" % self.names)
                    yield self.any_item(parts)
                    if self.pending or self.K['mods'] or self.elem_writes: raise Unsupported("iteration over an opaque emission %s" % (self.K['mods'],))
        except GeneratorExit:       # break, return or exception: what follows is not the loop
            core._CTX.path.__dict__.setdefault('witnesses', []).append(SInt(simp(self.lo + self.k.t)))
            self.deactivate(); raise
        # the consumer came back for more: the body is finished
        if mark is not None and self.it.__dict__.get('iteration') is not mark: raise Unsupported("loop body iterates over the same collection")
        env = sys._getframe(1).f_locals
        if self.counting is not None:
            # the bound is asked for before each iteration
            n = force(self.counting.f())
            if not (n is self.counting.n or isinstance(n, (SInt, int)) and not isinstance(n, bool) and self.c.valid(to_int(n) == to_int(self.counting.n))):
                self.c.know[('plain', self.counting.site)] = True
                raise Restart("the bound of a loop changes")
        if isinstance(self.it, SList) and ('list', self.it.id) in self.K['mods']:
            raise Unsupported("loop modifies the list it iterates over")
        self.end_body(dict(env))

class SymWhile(SymLoop):
    def __init__(self, rt, site, env, names, key):
        self.tnames = set()
        self.key = key
        self.n = None; self.base = None; self.src = []; self.seg = None; self.lo = z3.IntVal(0)
        self.base_init(rt, site, list(names))
        self.enter(env)
        self.state = 0
    def choose_mode(self):
        self.k = SInt(z3.Int(self.c.fresh_name('k')))
        self.c.assume_fact(self.k.t >= 0)
        self.mode = 'body'
    def source_templates(self): return []
    def elem_candidates(self, loc): return []
    def leaf_candidates(self, loc, entry, v):
        out = SymLoop.leaf_candidates(self, loc, entry, v)
        if isinstance(v, (SReal, SInt, int, float)) and not isinstance(v, bool) and len(loc) == 2 and loc[0] == 'local':       # bounds kept in the object at work
            for a, b in getattr(self.entry_env.get('self'), '__dict__', {}).items():
                if (isinstance(b, (SReal, float)) and not core.isinf(b) and b == b or type(b) is int) and not any(('attr', m[1], a) == m for m in self.K['mods'] if m[0] == 'attr'):
                    out += [('>=self.' + a, lambda x, k, b=b: to_real(x) >= to_real(b) if isinstance(x, (SReal, SInt, int, float)) and not core.isinf(x) and x == x else None),
                            ('<=self.' + a, lambda x, k, b=b: to_real(x) <= to_real(b) if isinstance(x, (SReal, SInt, int, float)) and not core.isinf(x) and x == x else None)]
        return out
    def test(self, f):
        if self.state == 0:
            self.state = 1
            r = bool(f())
            if not r: self.deactivate()
            return r
        self.end_body(dict(sys._getframe(1).f_locals))
    def again(self):
        if self.state == 0:
            self.state = 1
            return True
        self.end_body(dict(sys._getframe(1).f_locals))
