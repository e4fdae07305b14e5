"""Symbolic reading of a contract."""
import z3, types
from . import core, maps, engine as eng
from .core import *
from .seq import *
from .seq import I, simp
from .api import *
from .runtime import UNSET

RS = z3.RealSort(); IS = z3.IntSort(); BS = z3.BoolSort()

def zt(x):
    """z3 truth of a harness-level condition"""
    return to_bool(x)


class ElemBase(Base):
    """arbitrary elements e[0..n-1]; fields are uninterpreted functions of the index"""
    def __init__(self, g, name, n, opts):
        super().__init__(('elem', name), n)
        self.g, self.name, self.opts = g, name, opts
        self.step_facts = [self.fold_step]
        self.lo_facts = [self.fold_lo]
        self.origs = {}
        self.sums = {'L': lambda a, b: to_real(self.fold(a, b).L)}
    def uf(self, f, *sorts): return z3.Function('%s.%s' % (self.name, f), *sorts)
    def R(self, f, i):
        if f == 'idx' and 'medium' in self.opts: return self.opts['medium']
        return SReal(self.uf(f, IS, RS)(i))
    def Bt(self, f, i): return self.uf(f, IS, BS)(i)
    def make(self, i):
        g = self.g; c = ctx(); o = self.opts
        e = object.__new__(o.get('cls') or g.AnyElement)
        d = e.__dict__
        for f in 'ABCD': d[f] = self.R(f, i)
        d['L'] = self.R('L', i)
        if o.get('matched', True):
            d['frontIndex'] = self.R('idx', i); d['backIndex'] = self.R('idx', simp(i + 1))
        else:
            d['frontIndex'] = self.R('fi', i); d['backIndex'] = self.R('bi', i)
        for f, p, v in (('frontVertex', 'hasfv', 'fv'), ('backVertex', 'hasbv', 'bv')):
            d[f] = SChoice([(z3.Not(self.Bt(p, i)), None), (self.Bt(p, i), self.R(v, i))])
        d['apertureDiameter'] = SChoice([(self.Bt('noap', i), INF), (z3.Not(self.Bt('noap', i)), self.R('ap', i))])
        d['apertureNA'] = SChoice([(self.Bt('nona', i), INF), (z3.Not(self.Bt('nona', i)), self.R('na', i))]) if o.get('NA') else INF
        d['isFlipped'] = SBool(self.Bt('flipped', i))
        d['label'] = ''
        d['_rtv'] = (self, i)
        for f, v in o.get('fixed', {}).items(): d[f] = v
        self.facts(i)
        self.origs[(i.get_id())] = dict(d)
        g.engine.runtime.register(e)
        return e
    def facts(self, i):
        c = ctx(); o = self.opts
        fi, bi = (self.R('idx', i), self.R('idx', simp(i + 1))) if o.get('matched', True) else (self.R('fi', i), self.R('bi', i))
        A, B, C, D = (self.R(f, i) for f in 'ABCD')
        c.assume_fact(fi.t > 0); c.assume_fact(bi.t > 0)
        c.assume_fact((A.t * D.t - B.t * C.t) * bi.t == fi.t)
        c.assume_fact(self.R('ap', i).t > 0)
        if o.get('NA'): c.assume_fact(self.R('na', i).t > 0)
        if o.get('nonneg', False): c.assume_fact(self.R('L', i).t >= 0)
        for f in o.get('facts', ()): f(self, i)
    def access_facts(self, i): self.facts(i)
    def original(self, attr, i):
        d = self.origs.get(i.get_id())
        return d.get(attr) if d else None
    # ---- ordered product of e[lo:hi]
    def fold(self, lo, hi):
        lo, hi = simp(I(lo)), simp(I(hi))
        F = lambda f: SReal(self.uf('F.' + f, IS, IS, RS)(lo, hi))
        Fb = lambda f: SBool(self.uf('F.' + f, IS, IS, BS)(lo, hi))
        if lo.eq(hi):
            n0 = self.R('idx' if self.opts.get('matched', True) else 'fi', lo)
            return MSpec(fi=n0, bi=n0)
        m = MSpec(F('A'), F('B'), F('C'), F('D'), F('L'), Opt(Fb('hasfv'), F('fv')), Opt(Fb('hasbv'), F('bv')), F('fi'), F('bi'))
        self.fold_facts(lo, hi, m)
        return m
    def fold_facts(self, lo, hi, m):
        """consequences of the definition, proved by induction in contract lemma_product_of_matched_elements"""
        if not self.opts.get('matched', True) or self.g.no_fold_lemma: return
        c = ctx()
        a, b = self.R('idx', lo), self.R('idx', hi)
        c.assume_fact(z3.Implies(lo <= hi, z3.And(a.t > 0, b.t > 0, (m.A.t * m.D.t - m.B.t * m.C.t) * b.t == a.t, m.fi.t == a.t, m.bi.t == b.t)))
        if self.opts.get('nonneg', False): c.assume_fact(z3.Implies(lo <= hi, m.L.t >= 0))
    def assume_spec(self, m, s):
        c = ctx()
        for f in 'ABCDL': c.assume_fact(to_real(getattr(m, f)) == to_real(getattr(s, f)))
        for f in ('fi', 'bi'): c.assume_fact(to_real(getattr(m, f)) == to_real(getattr(s, f)))
        for f in ('fv', 'bv'):
            x, y = getattr(m, f), getattr(s, f)
            c.assume_fact(zt(x.present) == zt(y.present))
            c.assume_fact(z3.Implies(zt(x.present), to_real(x.val) == to_real(y.val)))
    def fold_step(self, lo, i):
        """definition: product of e[lo:i+1] = e[i] after the product of e[lo:i]"""
        g = self.g
        prev = self.fold(lo, i)
        nxt = self.fold(lo, simp(i + 1))
        self.assume_spec(nxt, g.mul(g.spec(self.elem(i)), prev))
    def fold_lo(self, lo):
        F = lambda f: self.uf('F.' + f, IS, IS, RS)(lo, lo)
        c = ctx()
        n0 = self.R('idx' if self.opts.get('matched', True) else 'fi', lo).t
        for f, v in (('A', 1), ('B', 0), ('C', 0), ('D', 1), ('L', 0), ('fi', n0), ('bi', n0)): c.assume_fact(F(f) == v)
        for f in ('hasfv', 'hasbv'): c.assume_fact(z3.Not(self.uf('F.' + f, IS, IS, BS)(lo, lo)))


class TurnedBase(ElemBase):
    """the elements of a sequence in reverse order, each turned around (contract of flipOrientation)"""
    def __init__(self, base):
        opts = dict(base.opts); opts['facts'] = list(opts.get('facts', ())) + [TurnedBase.turned_facts]
        self.orig = base
        ElemBase.__init__(self, base.g, base.name + '.turned', base.n, opts)
        self.key = ('turned', base.key)
    def turned_facts(self, i):
        c = ctx(); b = self.orig; j = simp(b.n - 1 - i)
        b.facts(j)
        fi, bi = b.R('idx', j).t, b.R('idx', simp(j + 1)).t
        for f, h in (('A', 'D'), ('B', 'B'), ('C', 'C'), ('D', 'A')): c.assume_fact(self.R(f, i).t * fi == b.R(h, j).t * bi)
        c.assume_fact(self.R('L', i).t == b.R('L', j).t)
        for p, q, v, w in (('hasfv', 'hasbv', 'fv', 'bv'), ('hasbv', 'hasfv', 'bv', 'fv')):
            c.assume_fact(self.Bt(p, i) == b.Bt(q, j)); c.assume_fact(self.R(v, i).t == b.R('L', j).t - b.R(w, j).t)
        for f in ('noap', 'nona'): c.assume_fact(self.Bt(f, i) == b.Bt(f, j))
        c.assume_fact(self.Bt('flipped', i) == z3.Not(b.Bt('flipped', j)))
        for f in ('ap', 'na'): c.assume_fact(self.R(f, i).t == b.R(f, j).t)
    def R(self, f, i):
        if f == 'idx': return self.orig.R('idx', simp(self.orig.n - i))
        return ElemBase.R(self, f, i)

class RayBase(Base):
    """arbitrary rays r[0..n-1]"""
    def __init__(self, g, name, n, opts):
        super().__init__(('rays', name), n)
        self.g, self.name, self.opts = g, name, opts
        self.origs = {}
    def uf(self, f, *sorts): return z3.Function('%s.%s' % (self.name, f), *sorts)
    def R(self, f, i): return SReal(self.uf(f, IS, RS)(i))
    def B(self, f, i): return SBool(self.uf(f, IS, BS)(i))
    def make(self, i):
        r = object.__new__(self.g.ns.Ray)
        d = r.__dict__
        for f in ('y', 'theta', 'z'): d[f] = self.R(f, i)
        d['isBlocked'] = self.B('blocked', i) if self.opts.get('blocked') is None else self.opts['blocked']
        d['apertureDiameter'] = SChoice([(self.B('noap', i).t, INF), (z3.Not(self.B('noap', i).t), self.R('ap', i))])
        d['wavelength'] = SChoice([(z3.Not(self.B('haswl', i).t), None), (self.B('haswl', i).t, self.R('wl', i))])
        self.origs[i.get_id()] = dict(d)
        self.access_facts(i)
        self.g.engine.runtime.register(r)
        return r
    def original(self, attr, i):
        d = self.origs.get(i.get_id())
        return d.get(attr) if d else None
    def access_facts(self, i):
        c = ctx()
        if self.opts.get('sorted'):
            seen = c.path.__dict__.setdefault('sorted.' + self.name, [])
            z = lambda k: self.uf('z', IS, RS)(k)
            for j in seen:
                if j.eq(i): return
            for j in seen:
                c.assume_fact(z3.Implies(i <= j, z(i) <= z(j))); c.assume_fact(z3.Implies(j <= i, z(j) <= z(i)))
            seen.append(i)


class TraceBase(RayBase):
    """the trace, through a fixed system of apertures, of an unblocked ray (y0, theta): the heights are a(i)*y0 + b(i)*theta
    until a ray is blocked (contract linear_trace)"""
    family = 'trace'
    def __init__(self, g, system, params):
        self.system, self.params = system, tuple(simp(p if z3.is_expr(p) else to_real(p)) for p in params)
        ctx().path.log.append(self.params)
        RayBase.__init__(self, g, system.name + '.trace', system.n, {})
        self.key = ('trace', system.name) + tuple(p.get_id() for p in self.params)
    def again(self, params): return TraceBase(self.g, self.system, params)
    def P(self, f, i, sort=RS):
        return z3.Function('%s.%s' % (self.name, f), RS, RS, IS, sort)(self.params[0], self.params[1], i)
    def R(self, f, i): return SReal(self.P(f, i))
    def B(self, f, i): return SBool(self.P(f, i, BS))
    def access_facts(self, i):
        c = ctx(); S = self.system
        seen = c.path.__dict__.setdefault('trace.seen', {}).setdefault(self.key, [])
        if any(j.eq(i) for j in seen): return
        bl = lambda k: self.P('blocked', simp(I(k)), BS)
        y, z, ap, noap = self.P('y', i), self.P('z', i), self.P('ap', i), self.P('noap', i, BS)
        y0, th = self.params
        lin = S.a(i) * y0 + S.b(i) * th
        here = z3.And(z == S.z(i), y == lin)
        tested = S.f('tested', i, BS)           # the aperture of an element of some length blocks rays at its entrance
        inside = z3.Or(S.noap(i), z3.Not(tested), z3.And(2 * y <= S.ap(i), -2 * y <= S.ap(i)))
        rng = z3.And(i >= 0, i < self.n)
        c.assume_fact(z3.Implies(i == 0, z3.And(z3.Not(bl(0)), y == y0, z3.Not(bl(simp(I(0)))), S.noap(i), S.free(i))))
        c.assume_fact(z3.Implies(z3.And(rng, z3.Not(bl(i))), z3.And(here, inside, noap == S.free(i), ap == S.reported(i))))
        c.assume_fact(z3.Implies(z3.And(rng, bl(i), i > 0, z3.Not(bl(i - 1))), z3.And(here, z3.Not(inside), noap == S.noap(i), ap == S.ap(i))))
        c.assume_fact(z3.And(S.ap(i) > 0, S.reported(i) > 0))
        c.assume_fact(ap > 0)
        for j in seen + [simp(I(self.n - 1))]:
            c.assume_fact(z3.Implies(z3.And(j >= i, j < self.n, i >= 0, bl(i)), bl(j)))
            c.assume_fact(z3.Implies(z3.And(i >= j, i < self.n, j >= 0, bl(j)), bl(i)))
        seen.append(i)

class ThinSystem:
    """heights, positions and apertures along a system of apertures"""
    def __init__(self, name, n): self.name, self.n = name, n
    def f(self, nm, i, sort=RS): return z3.Function('%s.%s' % (self.name, nm), IS, sort)(simp(I(i)))
    def a(self, i): return self.f('a', i)
    def b(self, i): return self.f('b', i)
    def z(self, i): return self.f('z', i)
    def ap(self, i): return self.f('ap', i)
    def noap(self, i): return self.f('noap', i, BS)
    # what a ray that is not blocked reports: the aperture it went through last (or is about to, where it enters an element)
    def reported(self, i): return self.f('reported', i)
    def free(self, i): return self.f('free', i, BS)


def make_any_element(g):
    ns = g.ns
    Matrix = ns.Matrix
    class AnyElement(Matrix):
        """an element of unknown class, known only through the contracts of Matrix"""
        def _rtv_isinstance(self, cls):
            if cls in (object, Matrix): return True
            if not isinstance(cls, type): return isinstance(self, cls)
            if not issubclass(cls, Matrix):
                if cls.__name__ == 'Iterable': return self._rtv_tag('MatrixGroup')
                return isinstance(self, cls)
            return self._rtv_tag(cls.__name__)
        def _rtv_copy(self):
            """a separate element of the same class with the same content"""
            o = object.__new__(type(self))
            o.__dict__.update(self.__dict__)
            g.engine.runtime.register(o)
            return o
        def _rtv_tag(self, name):
            base, i = self.__dict__['_rtv']
            kinds = base.opts.get('kinds')
            if kinds is not None and name not in kinds:
                if kinds == () : return False
                return False
            t = base.uf('is' + name, IS, BS)(i)
            c = ctx()
            g.tag_facts(base, i, name)
            return core.mkbool(t)
        def _rtv_exact(self, name):
            base, i = self.__dict__['_rtv']
            kinds = base.opts.get('kinds')
            if kinds is not None and name not in kinds: return False
            t = base.uf('exact' + name, IS, BS)(i)
            ctx().assume_fact(z3.Implies(t, base.uf('is' + name, IS, BS)(i)))
            g.tag_facts(base, i, name)
            return core.mkbool(t)
        def trace(self, ray):
            base, i = self.__dict__['_rtv']
            if not base.opts.get('trace'): raise Unsupported("trace of an unknown element")
            return g.element_trace(base, i, ray)
        def flipOrientation(self):
            base, i = self.__dict__['_rtv']
            if not base.opts.get('flips') or isinstance(base, TurnedBase) or ref_of(self) is None or ref_of(self)[0] is not base: raise Unsupported("turning an unknown element around")
            t = TurnedBase(base)
            j = simp(base.n - 1 - i)
            x = t.elem(j)
            self.__dict__.clear(); self.__dict__.update(x.__dict__)
            p = ctx().path
            p.refs[id(self)] = (t, j, self)
            p.elems[(t.key, j.get_id())] = (self, j)
            g.engine.runtime.turned(base.key)
            return self
        def transferMatrix(self, upTo=INF):
            base, i = self.__dict__['_rtv']
            if not base.opts.get('parts'): return Matrix.transferMatrix(self, upTo)
            return g.element_part(self, base, i, upTo)
        def transferMatrices(self):
            base, i = self.__dict__['_rtv']
            if not base.opts.get('parts'): return Matrix.transferMatrices(self)
            return SList([g.element_matrices(base, i)])
    AnyElement.__module__ = 'raytracing.any'
    return AnyElement


class SymG(GBase):
    symbolic = True; drawn = False
    def __init__(self, engine, harness=None):
        self.engine = engine
        self.ns = engine.ns
        self.no_fold_lemma = False
        self.AnyElement = make_any_element(self)
        self.h = harness
        self.in_stub = 0
    def begin(self, h):
        self.h = h
        self.engine.reset_hints()
        self.engine.warnings_log = None
        self.engine.opened = None
        self.no_fold_lemma = bool(h.opts.get('no_fold_lemma'))
        self.engine.fold_group = self.fold_group_candidates
        self.counts = {}
    # ---- inputs
    def note(self, name, kind, t):
        ctx().inputs[name] = (kind, t)
    def real(self, name, lo=None, hi=None, pos=False, nonzero=False, nonneg=False, **kw):
        r = ctx().real(name); self.note(name, 'real', r.t)
        c = ctx()
        if lo is not None: c.assume_fact(r.t >= rv(lo))
        if hi is not None: c.assume_fact(r.t <= rv(hi))
        if pos: c.assume_fact(r.t > 0)
        if nonneg: c.assume_fact(r.t >= 0)
        if nonzero: c.assume_fact(r.t != 0); c.nonzero(r.t)
        if pos: c.nonzero(r.t)
        return r
    def int(self, name, lo=None, hi=None, **kw):
        r = ctx().int(name); self.note(name, 'int', r.t)
        c = ctx()
        if lo is not None: c.assume_fact(r.t >= to_int(lo))
        if hi is not None: c.assume_fact(r.t <= to_int(hi))
        return r
    def bool(self, name):
        r = ctx().bool(name); self.note(name, 'bool', r.t)
        return r
    def choice(self, name, options):
        c = ctx()
        i = c.decide(list(range(len(options))))
        self.note(name, 'const', i)
        return options[i]
    def maybe(self, name, value):
        """None or the value"""
        b = ctx().bool('has_' + name); self.note('has_' + name, 'bool', b.t)
        return SChoice([(z3.Not(b.t), None), (b.t, value)])
    def aperture(self, name):
        b = ctx().bool('inf_' + name); self.note('inf_' + name, 'bool', b.t)
        return SChoice([(b.t, INF), (z3.Not(b.t), self.real(name, pos=True))])
    def inf_or(self, name, value, sign=1):
        b = ctx().bool('inf_' + name); self.note('inf_' + name, 'bool', b.t)
        return SChoice([(b.t, INF * sign), (z3.Not(b.t), value)])
    def index(self, name): return self.real(name, pos=True)
    def matrix(self, name='m', cls=None, frontIndex=None, backIndex=None, L=None, nonneg=False, vertices=True, **fixed):
        """arbitrary element (exactly consistent determinant)"""
        m = object.__new__(cls or self.ns.Matrix)
        d = m.__dict__
        for f in 'ABCD': d[f] = self.real(name + '.' + f)
        d['L'] = self.real(name + '.L', nonneg=nonneg) if L is None else L
        d['frontVertex'] = self.maybe(name + '.fv', self.real(name + '.fv')) if vertices else None
        d['backVertex'] = self.maybe(name + '.bv', self.real(name + '.bv')) if vertices else None
        d['frontIndex'] = self.index(name + '.fi') if frontIndex is None else frontIndex
        d['backIndex'] = self.index(name + '.bi') if backIndex is None else backIndex
        d['apertureDiameter'] = self.aperture(name + '.ap')
        d['apertureNA'] = self.aperture(name + '.na')
        d['isFlipped'] = self.bool(name + '.flipped')
        d['label'] = ''
        for k, v in fixed.items(): d[k] = v
        c = ctx()
        det = to_real(d['A'] * d['D'] - d['B'] * d['C'])
        c.assume_fact(det * to_real(d['backIndex']) == to_real(d['frontIndex']))
        self.engine.runtime.register(m)
        return m
    def ray(self, name='r', blocked=None, **kw):
        r = object.__new__(self.ns.Ray)
        d = r.__dict__
        d['y'], d['theta'], d['z'] = (self.real(name + '.' + f) for f in ('y', 'theta', 'z'))
        d['isBlocked'] = self.bool(name + '.blocked') if blocked is None else blocked
        d['apertureDiameter'] = self.aperture(name + '.ap')
        d['wavelength'] = self.maybe(name + '.wl', self.real(name + '.wl', pos=True))
        for k, v in kw.items(): d[k] = v
        self.engine.runtime.register(r)
        return r
    def complex(self, name): return SComplex(self.real(name + '.re'), self.real(name + '.im'))
    def function(self, name, *args):
        """an arbitrary function of its arguments, with values >= 1"""
        r = ctx().uf('fun.' + name, *[SReal(z3.simplify(to_real(a))) for a in args])
        ctx().assume_fact(r.t >= 1)
        return r
    def quantity(self, name, *args):
        """an arbitrary function of its arguments"""
        return ctx().uf('quantity.' + name, *[SReal(z3.simplify(to_real(force(a)))) for a in args])
    def whole(self, name, *args):
        """some function, a whole number that is not negative"""
        f = z3.Function('whole.' + name, *([RS] * len(args)), IS)
        r = f(*[to_real(force(a)) for a in args])
        ctx().assume_fact(r >= 0)
        return SInt(r)
    def numbered(self, name, make, lo=0):
        """an arbitrary list of opaque items: make(i) is item i"""
        n = self.length(name, lo)
        return SList([Seg(FnBase(('numbered', name), n.t, lambda i: make(SInt(I(i)))), 0, n.t)])
    def asin(self, x): return eng.m_asin(x)
    def cos(self, x): return self.engine.proxies['math'].cos(x)
    def sin(self, x): return self.engine.proxies['math'].sin(x)
    def known(self, cond):
        """the condition follows from what is known (it is an obligation of the argument, not of the code)"""
        return ctx().prove('', cond, record=False, keep=False)
    def named(self, tag, m):
        """an unknown value depending on the content of the element only (the callee's contract is not opened)"""
        sp = self.spec(m)
        ts = [z3.simplify(to_real(getattr(sp, f))) for f in ('A', 'B', 'C', 'D', 'L', 'fi', 'bi')]
        memo = ctx().path.__dict__.setdefault('named', {})
        k = (tag,) + tuple(t.get_id() for t in ts)
        if k not in memo: memo[k] = (ctx().real(hint=tag), ts)
        return memo[k][0]
    def sqrt(self, x): return ctx().sqrt(x) if isinstance(x, Sym) else x ** 0.5
    def warnings(self):
        """starts recording the warnings issued by the library"""
        log = []
        self.engine.warnings_log = log
        class Log:
            def count(self): return len(log)
            def categories(self): return [c for _, c in log]
        return Log()
    def cplx(self, re, im): return SComplex(re, im)
    def engine_inputs(self): return ctx().inputs
    def new(self, cls): return object.__new__(cls)
    def register(self, o):
        self.engine.runtime.register(o); return o
    # ---- assume / check
    def t(self, x): return SBool(zt(x)) if not isinstance(x, (bool, SBool)) else x
    def assume(self, cond):
        c = ctx()
        c.assume(cond)
        c.check_alive()
    def check(self, name, cond):
        ctx().prove(name, cond, keep=False)
    def eq(self, name, a, b):
        ctx().prove(name, same(self.norm(a), self.norm(b)), keep=False)
    def norm(self, x):
        if isinstance(x, SChoice): return x.known() if isinstance(x.known(), SChoice) is False else self.collapse(x)
        return x
    def collapse(self, ch):
        """numeric alternatives into one term"""
        if all(isinstance(v, (SReal, SInt, float, int)) and not core.isinf(v) for _, v in ch.alts):
            t = to_real(ch.alts[-1][1])
            for g, v in reversed(ch.alts[:-1]): t = z3.If(g, to_real(v), t)
            return SReal(t)
        return ch
    def implied(self, name, cond, a, b):
        c = ctx()
        c.prove(name, z3.Implies(zt(cond), same(self.norm(a), self.norm(b))), keep=False)
    def same_object(self, name, a, b):
        a, b = force(a), force(b)
        ctx().prove(name, zt(self.engine.runtime.is_(a, b)))
    def fail(self, name): ctx().fail(name)
    def attempt(self, f):
        try:
            return Outcome(value=f())
        except Exception as e:
            return Outcome(exc=e)
    def lemma(self, name, cond):
        """intermediate assertion: proved, then used"""
        ctx().prove(name, cond)
    def fact(self, cond): ctx().assume_fact(zt(cond))
    # ---- logic
    def and_(self, *a):
        if any(x is False for x in a): return False
        a = [x for x in a if x is not True]
        return core.mkbool(z3.And(*[zt(x) for x in a])) if a else True
    def or_(self, *a):
        if any(x is True for x in a): return True
        a = [x for x in a if x is not False]
        return core.mkbool(z3.Or(*[zt(x) for x in a])) if a else False
    def not_(self, a): return s_not(a if isinstance(a, (bool, SBool)) else SBool(zt(a)))
    def implies(self, a, b):
        if a is False or b is True: return True
        if a is True: return b
        return SBool(z3.Implies(zt(a), zt(b)))
    def iff(self, a, b):
        if isinstance(a, bool) and isinstance(b, bool): return a == b
        return SBool(zt(a) == zt(b))
    def ite(self, c, a, b):
        if c is True: return a
        if c is False: return b
        if a is b: return a
        if isinstance(a, (bool, SBool)): return SBool(z3.If(zt(c), zt(a), zt(b)))
        if isinstance(a, SInt) and isinstance(b, (int, SInt)) or isinstance(b, SInt) and isinstance(a, int):
            return SInt(z3.If(zt(c), to_int(a), to_int(b)))
        return SReal(z3.If(zt(c), to_real(a), to_real(b)))
    def abs(self, x): return abs(x)
    def raw(self, o, f): 
        v = o.__dict__[f]
        if isinstance(v, SChoice): v = v.known()
        return v
    def opt(self, v):
        if isinstance(v, Opt): return v
        if v is None: return Opt(False, SReal(rv(0)))
        if isinstance(v, SChoice):
            v = v.known()
            if not isinstance(v, SChoice): return self.opt(v)
            p = z3.Or(*[g for g, x in v.alts if x is not None])
            vals = [(g, x) for g, x in v.alts if x is not None]
            t = to_real(vals[-1][1])
            for g, x in reversed(vals[:-1]): t = z3.If(g, to_real(x), t)
            return Opt(SBool(p), SReal(t))
        return Opt(True, v)
    def from_opt(self, o):
        """library value of an optional"""
        if o.present is True: return o.val
        if o.present is False: return None
        return SChoice([(z3.Not(o.present.t), None), (o.present.t, o.val)])
    def close(self, a, b, tol): return abs(a - b) <= tol
    def separated(self, a, b): pass
    def distinct(self, a, b): pass
    def distinct_or_equal(self, a, b): pass
    def equal(self, a, b): return core.mkbool(z3.simplify(same(self.norm(a), self.norm(b))))
    def le(self, a, b): return a <= b
    def lt(self, a, b): return a < b
    def position(self, name, l):
        n = self.len(l)
        ctx().assume(SBool(to_int(n) > 0)) if isinstance(n, Sym) else self.assume(n > 0)
        i = ctx().int(name); self.note(name, 'int', i.t)
        ctx().assume_fact(z3.And(i.t >= 0, i.t < to_int(n)))
        return i
    def forall(self, name, l, f):
        """f(i, l[i]) states obligations for every position i"""
        n = self.len(l)
        if isinstance(n, int):
            for i in range(n): f(i, l[i])
            return
        c = ctx()
        if c.decide(['rest', 'each']) == 'each':
            i = c.int(hint='i_' + name)
            c.assume_fact(z3.And(i.t >= 0, i.t < to_int(n)))
            c.check_alive()
            f(i, l[i])
            c.path.completed = True
            raise PathEnd()
    def isinf(self, x): return core.isinf(force(x))
    def force(self, x): return force(x)
    # ---- sequences
    def length(self, name, lo=0):
        n = ctx().int(name + '.n'); self.note(name + '.n', 'int', n.t)
        ctx().assume_fact(n.t >= lo)
        return n
    def elements(self, name='E', lo=0, **opts):
        """an arbitrary list of elements (any number, any values)"""
        n = self.length(name, lo)
        b = ElemBase(self, name, n.t, opts)
        self.note(name, 'elements', b)
        return SList([Seg(b, 0, n.t)])
    def rays(self, name='R', lo=0, **opts):
        """an arbitrary list of rays; sorted: positions never decrease"""
        n = self.length(name, lo)
        b = RayBase(self, name, n.t, opts)
        self.note(name, 'rays', b)
        return SList([Seg(b, 0, n.t)])
    def len_of(self, o): return self.engine.builtins['len'](o)
    def field_list(self, l, f): return self.engine.helpers['listcomp'](l, lambda r: self.raw(r, f))
    def min_of(self, l): return self.engine.builtins['min'](l)
    def max_of(self, l): return self.engine.builtins['max'](l)
    def grid(self, a, b, n, i):
        """i-th of n equally spaced values from a to b"""
        return eng.lin_at(force(a), force(b), force(n), force(i))
    def loop_invariant(self, name, f):
        """f(k) holds after k iterations (offered to every loop)"""
        def inv(loop, state, k): return [(name, zt(f(as_len(simp(I(k))))))]
        self.engine._invs.append(inv)
    def threshold(self, t):
        """offered to every loop: up to iteration t, and after"""
        t = to_int(t)
        def inv(loop, state, k):
            out = [(('<=', t), k <= t)]
            for loc, v in state.items():
                if isinstance(v, (SBool, bool)) and loc[0] == 'local':
                    out.append(((loc, 'iff past', t), to_bool(v) == (k > t))); out.append(((loc, 'iff not past', t), to_bool(v) == (k <= t)))
            return out
        self.engine._invs.append(inv)
    def surfaces(self, name, lo=0, facts=()):
        n = z3.Int(name + '.n'); ctx().assume_fact(n >= lo)
        b = maps.SurfacesBase(name, n, facts)
        self.engine._maps.append(b)
        return SList([Seg(b, 0, n)])
    def optical_surface(self, l, i): return l.segs[0].base.elem(to_int(i))
    def lens_at(self, l, i, a, b):
        """surface i is followed by glass from the first to the last of the lens, by air before and at the last"""
        air = maps.AnySurface(l.segs[0].base, i).mat._air()
        a, b = to_int(a), to_int(b)
        return SBool(z3.And(z3.Implies(i < a, air), z3.Implies(z3.And(i >= a, i < b), z3.Not(air)), z3.Implies(i == b, air)))
    def index_facts(self, l, i, w):
        m = maps.AnySurface(l.segs[0].base, i).mat
        n = to_real(m.n(w))
        return SBool(z3.And(n >= 1, z3.Implies(m._air(), n == 1)))
    def number_text(self, v): return maps.Number(v)
    def emissions(self, name, l, fn):
        """fn(0) + fn(1) + ... for the positions of a list; offered as a loop invariant"""
        out = []
        for s in normalize(as_segs(l)):
            if not isinstance(s, Seg) or not s.lo.eq(z3.IntVal(0)): raise Unsupported("emissions of %r" % (s,))
            em = Emit('%s.%s' % (name, s.base.key), lambda i: SList([list(fn(SInt(i)))]))
            self.engine._emits.append(em)
            out.append(FMSeg(em, s.lo, s.hi))
        return SList(out)
    def attribute_invariant(self, attr, f):
        """offered to every loop that changes an attribute of that name: its value after k > 0 iterations is f(k)"""
        def inv(loop, state, k):
            out = []
            for loc, v in state.items():
                if (loc[0] == 'attr' and loc[2] == attr or loc[0] == 'local' and len(loc) == 2) and isinstance(v, (SReal, SInt, float, int)) and not isinstance(v, bool) and not core.isinf(v) and v == v:
                    out.append(((loc, 'after k'), z3.Implies(k > 0, to_real(v) == to_real(f(SInt(k))))))
            return out
        self.engine._invs.append(inv)
    def from_position(self, name, l, a):
        """loop invariant hint: l[a:k], what has been collected when the first a items are left out"""
        s = normalize(as_segs(l))[0]; a = to_int(a)
        def mk(k):
            top = simp(s.lo + I(k))
            return [Seg(s.base, simp(s.lo + a), simp(z3.If(top >= s.lo + a, top, s.lo + a)))]
        self.engine._hints.append(lambda ks: [(name, mk)])
    def truncated(self, x):
        t = to_real(x)
        return SInt(simp(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t))))
    def image(self, r):
        """an arbitrary function of a ray of an abstract list: image number i of ray number i (a new ray each time)"""
        if ref_of(r) is None: raise Unsupported("image of another ray")
        b, i = ref_of(r)[:2]
        im = ctx().path.__dict__.setdefault('images', {})
        if b.key not in im: im[b.key] = RayBase(self, 'image.' + b.name, b.n, {})
        return im[b.key].elem(i)
    def map_list(self, l, f):
        """[f(x) for x in l], a specification list; offered as a loop invariant"""
        out = []
        for s in normalize(as_segs(l)):
            if isinstance(s, list): out.append([f(x) for x in s]); continue
            if not isinstance(s, Seg): raise Unsupported("specification list over a flattened sequence")
            b = FnBase(('spec', next(ctx().path.objids), s.base.key), s.length(), lambda i, s=s: f(s.elem(i)))
            self.engine._maps.append(b)
            out.append(Seg(b, 0, b.n))
        return SList(normalize(out))
    def filter_list(self, name, l, f, keep):
        """[f(x) for x in l if keep(f(x))]; offered as a loop invariant"""
        out = []
        for s in normalize(as_segs(l)):
            if isinstance(s, FMSeg): raise Unsupported("specification list over a flattened sequence")
            if isinstance(s, list): out += [f(x) for x in s if keep(f(x))]; continue
            def fn(i, s=s):
                r = f(s.base.elem(i))
                return SList([[r]]) if keep(r) else SList([])
            em = Emit('%s.%s' % (name, s.base.key), fn)
            seg = FMSeg(em, s.lo, s.hi)
            self.engine._emits.append(em) if s.lo.eq(z3.IntVal(0)) else None
            out.append(seg)
        return SList(normalize(out))
    def same_up_to_order(self, name, out, want):
        """the same items, none lost, none duplicated: a one-to-one correspondence between positions that hold an item"""
        c = ctx()
        o, w = normalize(as_segs(out)), normalize(as_segs(want))
        if c.forall(lambda: seq_same(o, w)): self.check(name, self.t(True)); return
        if len(w) != 1 or not isinstance(w[0], FMSeg) or len(o) != 1 or not isinstance(o[0], FMSeg): return self.check(name + ': nothing to compare with', self.t(False))
        W, O = w[0], o[0]
        def inner(i):
            s = normalize(as_segs(O.emit.fn(i)))
            if not s: return Seg(FnBase(('nothing',), 0, lambda j: None), 0, 0)
            if len(s) != 1 or not isinstance(s[0], (FMSeg, Seg)): raise Unsupported("comparing up to order: %r" % (s,))
            return s[0]
        def at(s, j):
            r = s.emit.fn(j).concrete() if isinstance(s, FMSeg) else [s.base.elem(j)]
            if r is None or len(r) > 1: raise Unsupported("comparing up to order: several items at one place")
            return r
        def place(tag):
            i, j = z3.Int(c.fresh_name('i' + tag)), z3.Int(c.fresh_name('j' + tag))
            c.path.log.append((i, j))
            c.assume_fact(z3.And(i >= O.lo, i < O.hi))
            s = inner(i)
            c.assume_fact(z3.And(j >= s.lo, j < s.hi))
            c.check_alive()
            return i, j, at(s, j)
        way = c.decide(['none invented', 'none duplicated', 'none lost'])
        if way == 'none lost':
            q = z3.Int(c.fresh_name('q')); c.path.log.append(q)
            c.assume_fact(z3.And(q >= W.lo, q < W.hi))
            leaf = W.emit.fn(q).concrete()
            if not leaf: return
            p = simp(O.hi - O.lo)
            for kind in ('dealt', 'cut', 'as is'):
                i, j = z3.Int(c.fresh_name('wi')), z3.Int(c.fresh_name('wj')); c.path.log.append((i, j))
                # division with remainder: i and j exist
                if kind == 'dealt':
                    if not c.valid(p > 0): continue
                    c.assume_fact(z3.And(q - W.lo == (i - O.lo) + times(j, p), i >= O.lo, i < O.hi, j >= 0))
                elif kind == 'cut':
                    s0 = inner(O.lo); m = simp(s0.hi - s0.lo)
                    if not c.valid(m > 0): continue
                    c.assume_fact(z3.And(q - W.lo == times(i - O.lo, m) + j, j >= 0, j < m, i >= O.lo))
                else: c.assume_fact(z3.And(i == O.lo, j == q))
                if not c.valid(z3.And(i >= O.lo, i < O.hi)): continue
                s = inner(i)
                if not c.valid(z3.And(j >= s.lo, j < s.hi)): continue
                r = at(s, j)
                if len(r) == 1 and c.valid(same(r[0], leaf[0])): return self.check(name + ': none lost', self.t(True))
            return self.check(name + ': none lost', self.t(False))
        i, j, leaf = place('a')
        if not leaf: return
        r = ref_of(leaf[0])
        if r is None: raise Unsupported("comparing up to order: an item of unknown origin")
        if way == 'none invented':
            q = simp(r[1])
            self.check(name + ': position', SBool(z3.And(q >= W.lo, q < W.hi)))
            self.check(name + ': an item of the list', SBool(z3.BoolVal(seq_same([leaf], as_segs(W.emit.fn(q))))))
            return
        i2, j2, leaf2 = place('b')
        if not leaf2: return
        r2 = ref_of(leaf2[0])
        if r2 is None or r2[0].key != r[0].key: raise Unsupported("comparing up to order: items of several origins")
        self.check(name + ': none duplicated', SBool(z3.Implies(r[1] == r2[1], z3.And(i == i2, j == j2))))
    def pool(self):
        import contextlib
        return contextlib.nullcontext()
    def stream(self, name, **opts):
        """rays to come: an unbounded supply of arbitrary rays; offered as a loop invariant"""
        b = RayBase(self, name, z3.IntVal(10 ** 9), opts)
        self.engine._maps.append(b)
        def at(i): return b.elem(to_int(i))
        at.base = b
        return at
    def stream_list(self, st, n): return SList([Seg(st.base, 0, to_int(n))])
    def below(self, name, n):
        i = self.int(name, 0)
        self.assume(i < n)
        return i
    def histogram(self, values, bins, lo, hi):
        """(centres of the bins, counts)"""
        from . import models
        np = self.engine.proxies['numpy']
        counts, edges = np.histogram(values, bins=bins, range=(lo, hi))
        n = to_int(bins)
        b = FnBase(('wanted.centres', next(ctx().path.objids)), n, lambda i: models.centre(edges, i))
        return SList([Seg(b, 0, n)]), SList(counts.snapshot())
    def nested(self, name, dims, fn):
        """the list fn(i, j, ..) for i < dims[0], j < dims[1](i), .. (the last index varies fastest); offered as a loop invariant"""
        D = len(dims)
        keep = ctx().path.log
        def size(d, ks):
            n = dims[d](*[SInt(k) for k in ks]) if callable(dims[d]) else dims[d]
            return simp(I(to_int(n)))
        def const(d):
            if any(callable(x) for x in dims[d:]): return None
            t = z3.IntVal(1)
            for x in dims[d:]: t = t * to_int(x)
            return simp(t)
        def level(d, ks):
            n = size(d, ks)
            keep.append((ks, n))
            ids = '.'.join(str(k.get_id()) for k in ks)
            if d == D - 1:
                b = FnBase((name, d, ids), n, lambda i: fn(*[as_len(x) for x in ks], as_len(simp(I(i)))))
                return lambda lo, hi: [Seg(b, lo, hi)], n
            def emit(i):
                mk, m = level(d + 1, ks + (simp(I(i)),))
                return SList(mk(0, m))
            em = Emit('%s.%d.%s' % (name, d, ids), emit, each=const(d + 1))
            return lambda lo, hi: [FMSeg(em, lo, hi)], n
        def hint(ks):
            # the enclosing loops give the outer indices; loops run concretely (one row, one column) count for index 0
            import itertools
            out = []
            for pad in range(D - len(ks)):
                m = len(ks) + pad
                for pos in itertools.combinations(range(m), len(ks)):
                    k0 = [z3.IntVal(0)] * m
                    for p, k in zip(pos, ks): k0[p] = k
                    out.append(('%s.%d.%s' % (name, m, ''.join(map(str, pos))), lambda k, k0=tuple(k0): level(len(k0), k0)[0](0, k)))
            return out
        self.engine._hints.append(hint)
        mk, n = level(0, ())
        return SList(mk(0, n))
    # ---- files
    def new_path(self, name): return '/work/' + name
    def file(self, name, content):
        """a file with a pickled object"""
        from . import models
        models.store().files['/work/' + name] = ('pickle', content, True)
        return '/work/' + name
    def stored(self, path):
        from . import models
        c = models.store().files.get(path)
        return c[1] if c is not None and c[0] == 'pickle' else None
    # ---- dictionaries and files of preferences
    def text_key(self, name):
        t = z3.Int(name); self.note(name, 'int', t)
        return maps.SKey(t)
    def json_value(self, name, acceptable=True):
        t = z3.Const(name, maps.VAL); c = ctx()
        c.assume_fact(t != maps.ABSENT)
        c.assume_fact(maps.JSONABLE(t) if acceptable else z3.Not(maps.JSONABLE(t)))
        return maps.SVal(t)
    def mapping(self, name, acceptable=True):
        """any dictionary with texts as keys; JSON values"""
        return maps.MapModel.of((z3.Array(name, maps.KEY, maps.VAL), z3.BoolVal(True) if acceptable else z3.Bool(name + '.ok'), None))
    def empty_map(self): return maps.MapModel()
    def with_item(self, m, k, v):
        m = maps.MapModel.of(m._m); m[k] = v
        return m
    def map_has(self, m, k): return core.mkbool(z3.Select(m._m[0], maps.key_term(k)) != maps.ABSENT)
    def map_get(self, m, k): return maps.MapModel._at(m, k)
    def map_eq(self, name, a, b):
        ctx().prove(name, z3.BoolVal(False) if a is None or b is None else a._m[0] == b._m[0], keep=False)
    def contents(self, P): return maps.MapModel.of(P._m)
    def set_contents(self, P, m): P.__dict__['_m'] = m._m
    def put_text(self, path, kind, m=None):
        from . import models
        st = models.store()
        if kind == 'absent': st.files.pop(path, None)
        elif kind == 'map': st.files[path] = ('text', maps.JsonText((m._m[0], z3.BoolVal(True), None)))
        elif kind == 'not json': st.files[path] = ('text', maps.OtherText())
        elif kind == 'empty': st.files[path] = ('text', '')
        else: st.files[path] = ('text', maps.OtherText(kind, valid=True))
    def text_map(self, path):
        """the dictionary a file holds, if it does"""
        from . import models
        c = models.store().files.get(path)
        if c is None or c[0] != 'text': return None
        if isinstance(c[1], maps.JsonText): return maps.MapModel.of(c[1].m)
        if type(c[1]) is str and c[1].strip() == '{}': return maps.MapModel()
        return None
    def text(self, name): return maps.SText(name)
    def name_matches(self, t, s):
        """t is the name s, but for case and dashes"""
        return t.replace('-', '').lower() == s.replace('_', '').lower()
    def material_names(self):
        p = ctx().path.__dict__
        if 'material_names' not in p:
            n = z3.Int('materials'); ctx().assume_fact(n >= 0)
            p['material_names'] = maps.NamesBase('materials', n)
        b = p['material_names']
        return SList([Seg(b, 0, b.n)])
    def index_entry(self, k, w):
        m = k.base.cls(k.i)
        return (k, m.n(w), m.abbeNumber())
    def is_real(self, x): return isinstance(force(x), (SReal, SInt, float, int))
    def on_system(self, name): ctx().path.__dict__['system'] = name
    # ---- partial transfer matrices of arbitrary elements (contracts of the elements' transferMatrix)
    def part_refused(self, base, i, d): return base.uf('indivisible', IS, BS)(simp(I(i)))
    def part_spec(self, base, i, d):
        """content of element i up to distance d inside it"""
        i = simp(I(i)); d = z3.simplify(to_real(d))
        f = lambda n: SReal(base.uf('part.' + n, IS, RS, RS)(i, d))
        b = lambda n: SBool(base.uf('part.' + n, IS, RS, BS)(i, d))
        fi, bi = base.elem(i).frontIndex, f('bi')
        ctx().assume_fact(bi.t > 0)
        A, B, C, D = (f(x) for x in 'ABCD')
        ctx().assume_fact(to_real((A * D - B * C) * bi) == to_real(fi))
        return MSpec(A, B, C, D, SReal(d), Opt(b('hasfv'), f('fv')), Opt(b('hasbv'), f('bv')), fi, bi)
    def element_part(self, e, base, i, upTo):
        upTo = force(upTo)
        if self.isinf(upTo) and upTo > 0: return e
        if bool(e.L <= upTo): return e
        if ctx().branch(self.part_refused(base, i, upTo)): raise TypeError('Subclass of non-null physical length must override transferMatrix()')
        return self.element_from(self.part_spec(base, i, upTo))
    def part_of(self, e, d):
        """content of the part of the element up to d; None if it cannot be divided"""
        base, i = e.__dict__['_rtv']
        if ctx().branch(self.part_refused(base, i, d)): return None
        return self.part_spec(base, i, d)
    def element_matrices(self, base, i):
        i = simp(I(i))
        n = base.uf('matrices.len', IS, IS)(i)
        ctx().assume_fact(n >= 1)
        return Opq(base.name + '.matrices', (SInt(i),), n, nonempty=True)
    def all_matrices(self, l):
        """the individual matrices of the elements, one element after the other"""
        base, lo = l.segs[0].base, l.segs[0].lo
        em = Emit(base.name + '.allmatrices', lambda k: SList([self.element_matrices(base, simp(lo + k))]), atleast=1)
        self.engine._emits.append(em)
        return SList([FMSeg(em, 0, l.segs[0].length())])
    def lengths_grow(self, l, *ghosts):
        """the positions of the elements never decrease (their lengths are not negative)"""
        base, lo = l.segs[0].base, l.segs[0].lo
        S = lambda k: to_real(base.fold(lo, simp(lo + I(k))).L)
        idx = [to_int(x) for x in ghosts]
        def facts(loop, src, k):
            c = ctx()
            for a in (k, simp(k + 1)):
                for b in idx:
                    c.assume_fact(z3.Implies(a <= b, S(a) <= S(b))); c.assume_fact(z3.Implies(b <= a, S(b) <= S(a)))
        self.engine._facts.append(facts)
        c = ctx()
        for a in idx:
            for b in idx:
                if not a.eq(b): c.assume_fact(z3.Implies(a <= b, S(a) <= S(b)))
    # ---- tracing through arbitrary elements (contract of an element's trace)
    STATE = ('y', 'theta', 'z', 'isBlocked')
    def ray_terms(self, r):
        return tuple(z3.simplify(to_bool(self.raw(r, f)) if f == 'isBlocked' else to_real(self.raw(r, f))) for f in self.STATE)
    def ray_from(self, t):
        """a new ray in the given state"""
        r = object.__new__(self.ns.Ray)
        r.__dict__.update(y=SReal(t[0]), theta=SReal(t[1]), z=SReal(t[2]), isBlocked=core.mkbool(t[3]), apertureDiameter=self.aperture_of(t), wavelength=None)
        self.engine.runtime.register(r)
        return r
    def aperture_of(self, t):
        f = z3.Function('lastray.ap', RS, RS, RS, BS, RS)(*t)
        return SReal(f)
    def traced(self, base, i, t):
        """state of the last ray of the trace of element i, given the state of the input ray"""
        i = simp(I(i))
        args = (IS, RS, RS, RS, BS)
        o = tuple(base.uf('trace.' + f, *args, BS if f == 'isBlocked' else RS)(i, *t) for f in self.STATE)
        c = ctx()
        c.assume_fact(z3.Implies(t[3], z3.And(o[3], o[0] == t[0], o[1] == t[1], o[2] == t[2])))
        if base.opts.get('linear', True):
            A, B, C, D, L = (base.R(f, i).t for f in 'ABCDL')
            c.assume_fact(z3.Implies(z3.Not(o[3]), z3.And(o[0] == A * t[0] + B * t[1], o[1] == C * t[0] + D * t[1], o[2] == t[2] + L)))
        return o
    def element_trace(self, base, i, ray):
        if not self.engine.builtins['isinstance'](ray, self.ns.Ray): raise Unsupported("trace of something else than a ray")
        t = self.ray_terms(ray)
        return SList([self.trace_list(base, simp(I(i)), t)])
    def trace_list(self, base, i, t):
        n = base.uf('trace.len', IS, RS, RS, RS, BS, IS)(i, *t)
        ctx().assume_fact(n >= 1)
        last = self.ray_from(self.traced(base, i, t))
        return Opq(base.name + '.trace', (SInt(i), SReal(t[0]), SReal(t[1]), SReal(t[2]), core.mkbool(t[3])), n, last=last, nonempty=True)
    def traces(self, l, r):
        """the traces of the elements one after the other, starting from ray r (and the loop invariant that goes with it)"""
        base = l.segs[0].base; lo = l.segs[0].lo
        tag = base.name + '.ray' + str(self.counts.setdefault('traces', 0)); self.counts['traces'] += 1
        R = lambda k: tuple(z3.Function('%s.%s' % (tag, f), IS, BS if f == 'isBlocked' else RS)(simp(I(k))) for f in self.STATE)
        c = ctx()
        for a, b in zip(R(0), self.ray_terms(r)): c.assume_fact(a == b)
        def step(k):
            for a, b in zip(R(simp(I(k) + 1)), self.traced(base, simp(lo + k), R(k))): ctx().assume_fact(a == b)
        def emission(k):
            step(k)
            return SList([self.trace_list(base, simp(lo + k), R(k))])
        em = Emit(tag, emission, atleast=1)
        self.engine._emits.append(em)
        def inv(loop, state, k):
            out = []
            for loc, v in state.items():
                v = v.known() if isinstance(v, SChoice) else v
                if isinstance(v, self.ns.Ray):
                    try: t = self.ray_terms(v)
                    except (KeyError, Unsupported): continue
                    for f, a, b in zip(self.STATE, t, R(k)): out.append(('%s: %s %s' % (tag, loc, f), a == b))
            return out
        self.engine._invs.append(inv)
        self.engine._facts.append(lambda loop, src, k: step(k))
        class Traces: pass
        o = Traces(); n = l.segs[0].length()
        o.list = SList([FMSeg(em, 0, n)]); o.state = R; o.n = n; o.base = base; o.lo = lo
        return o
    def last_state(self, tr):
        """(y, theta, z, blocked) after the last element"""
        t = tr.state(tr.n)
        return SReal(t[0]), SReal(t[1]), SReal(t[2]), SBool(t[3])
    def walked(self, name, l, i, pred):
        """loop invariant hint: pred holds of element i once the walk has passed it"""
        b = l.segs[0].base; lo = l.segs[0].lo
        it = simp(lo + to_int(i))
        e = b.elem(it)
        p = zt(pred(e))
        n = self.len(l)
        def inv(loop, state, k):
            return [(name, z3.Implies(z3.And(to_int(i) >= 0, to_int(i) < to_int(n), k > to_int(i)), p))]
        self.engine._invs.append(inv)
    def is_one_of(self, x, l):
        """x is an element of the list (the very object)"""
        x = force(x)
        r = ref_of(x)
        c = self.as_list(l)
        out = []
        for s in normalize(c.segs):
            if isinstance(s, list): out += [zt(self.engine.runtime.is_(x, y)) for y in s]
            elif r is not None and r[0].key == s.base.key: out.append(z3.And(r[1] >= s.lo, r[1] < s.hi))
        return core.mkbool(simp(z3.Or(*out))) if out else False
    def thin_system(self, name='T'):
        """what is known of any imaging path: heights and apertures along a trace"""
        n = self.length(name, 1)
        return ThinSystem(name, n.t)
    def trace_in(self, S, y0, theta): return SList([Seg(TraceBase(self, S, (to_real(force(y0)), to_real(force(theta)))), 0, S.n)])
    def largest_seen(self, S, i0):
        """loop invariant hints for a walk along a trace: some ray was selected (witness), or none; a value kept is not less than the
        one of ray i0 once it has been passed"""
        i0 = to_int(i0)
        def flat(state):
            out = {}
            def add(loc, v):
                v = v.known() if isinstance(v, SChoice) else v
                if isinstance(v, tuple):
                    for j, x in enumerate(v): add(loc + (j,), x)
                else: out[loc] = v
            for loc, v in state.items(): add(loc, v)
            return out
        def inv(loop, state, k):
            b, lo = loop.walked
            if not isinstance(b, TraceBase): return []
            out = []
            q0 = self.ratio_at(b, i0)
            for loc, v in flat(state).items():
                if isinstance(v, SReal) or (isinstance(v, (int, float)) and not isinstance(v, bool) and abs(v) != INF):
                    out.append(('%s not less than the ratio of ray i' % (loc,), z3.Implies(k > i0 - lo, to_real(v) >= q0)))
            return out
        def wit(loop, state, k, w):
            b, lo = loop.walked
            if not isinstance(b, TraceBase): return []
            i = simp(lo + w)
            e = b.elem(i)
            out = []
            for loc, v in flat(state).items():
                v = v.known() if isinstance(v, SChoice) else v
                if isinstance(v, core.Sym) is False and ref_of(v) is not None and ref_of(v)[0].key == b.key:
                    out.append(('%s: the ray' % (loc,), z3.Implies(w >= 0, ref_of(v)[1] == i)))
                if isinstance(v, SReal) or (isinstance(v, (int, float)) and not isinstance(v, bool) and abs(v) != INF):
                    t = to_real(v)
                    out.append(('%s: position' % (loc,), z3.Implies(w >= 0, t == b.P('z', i))))
                    out.append(('%s: aperture' % (loc,), z3.Implies(w >= 0, z3.And(t == b.P('ap', i), z3.Not(b.P('noap', i, BS))))))
                    out.append(('%s: ratio' % (loc,), z3.Implies(w >= 0, t == self.ratio_at(b, i))))
                    ent = loop.entry_of(loc, loop.heap_entry.get(loc, UNSET))
                    if isinstance(ent, (SReal, int, float)) and not isinstance(ent, bool) and not core.isinf(ent): out.append(('%s: at first' % (loc,), z3.Implies(w < 0, t == to_real(ent))))
                    out.append(('%s: selected' % (loc,), (w >= 0) == (t > 0)))
                elif v is None or (isinstance(v, float) and core.isinf(v)): out.append(('%s: not a number' % (loc,), z3.Or(w < 0, b.P('noap', i, BS))))
            return out
        self.engine._invs.append(inv)
        self.engine._witness.append(wit)
    def chief_angle(self, S, y):
        """angle of the chief ray of height y: proportional to the height"""
        y = to_real(force(y))
        t = z3.Function(S.name + '.chief', RS, RS)(simp(y))
        ctx().assume_fact(z3.Implies(y == 0, t == 0))
        return SReal(t)
    def chief_blocked(self, S, y):
        """the chief ray of an object of height y is blocked somewhere"""
        y = simp(to_real(force(y)))
        th = self.chief_angle(S, SReal(y)).t
        b = z3.Function(S.name + '.trace.blocked', RS, RS, IS, BS)(y, th, simp(I(S.n - 1)))
        z = z3.Function(S.name + '.trace.blocked', RS, RS, IS, BS)(z3.RealVal(0), z3.RealVal(0), simp(I(S.n - 1)))
        ctx().assume_fact(z3.Not(z)); ctx().assume_fact(z3.Implies(y == 0, z3.Not(b)))
        return core.mkbool(b)
    def first_blocked(self):
        """loop invariant hint for a walk along a trace: no ray walked past is blocked"""
        def inv(loop, state, k):
            b, lo = loop.walked
            if not isinstance(b, TraceBase): return []
            i = simp(lo + k - 1)
            b.access_facts(i)
            return [('not blocked so far', z3.Implies(k > 0, z3.Not(b.P('blocked', i, BS))))]
        self.engine._invs.append(inv)
    def chief_height(self, S, y, i):
        """height of the chief ray of an object at y where ray i of its trace is, before it is blocked"""
        y = simp(to_real(force(y)))
        return SReal(S.a(to_int(i)) * y + S.b(to_int(i)) * self.chief_angle(S, SReal(y)).t)
    def edges(self): return ctx().path.__dict__.get('edges', [])
    def edge_search(self, S, precision, want):
        """loop invariant hints for a search along y by steps dy of the height where the chief ray gets blocked:
        a, b, w stand for any two numbers and any truth value kept by the loop (height, step, blocked at the last height)"""
        B = lambda y: to_bool(self.chief_blocked(S, SReal(y)))
        p = to_real(precision)
        def inv(loop, state, k):
            if loop.base is not None: return []
            num = {l: to_real(v) for l, v in state.items() if len(l) == 2 and l[0] == 'local' and (isinstance(v, SReal) or isinstance(v, (int, float)) and not isinstance(v, bool) and abs(v) != INF)}
            boo = {l: to_bool(v) for l, v in state.items() if len(l) == 2 and isinstance(v, (bool, SBool))}
            out = []
            absv = lambda x: z3.If(x >= 0, x, -x)
            for la, a in num.items():
                for lb, b in num.items():
                    if la == lb: continue
                    last = simp(a - b)
                    out.append(('%s %s: last height' % (la[1], lb[1]), last >= 0))
                    for lw, w in boo.items():
                        n = '%s %s %s' % (la[1], lb[1], lw[1])
                        out.append((n + ': blocked at the last height', w == z3.And(k > 0, B(last))))
                        out.append((n + ': sign', z3.And(z3.Implies(w, b <= 0), z3.Implies(z3.Not(w), b >= 0))))
                        if not want: out.append((n + ': edge', z3.Or(absv(b) > p, w, z3.And(B(simp(a + b)), b > 0))))
                        else: out.append((n + ': edge', z3.Or(absv(b) > p, z3.Not(w), z3.And(z3.Not(B(simp(a + b))), b < 0), last <= 2 * p)))
                    for l, v in state.items():
                        if isinstance(v, self.ns.Ray):
                            try: y, th = to_real(v.__dict__['y']), to_real(v.__dict__['theta'])
                            except (KeyError, Unsupported): continue
                            out.append(('%s %s: %s is the last chief ray' % (la[1], lb[1], l[1]), z3.Implies(k > 0, z3.And(y == last, th == self.chief_angle(S, SReal(last)).t))))
                        elif isinstance(v, SList) and v.segs and isinstance(v.segs[0], Seg) and isinstance(v.segs[0].base, TraceBase):
                            y, th = v.segs[0].base.params
                            out.append(('%s %s: %s is the last trace' % (la[1], lb[1], l[1]), z3.Implies(k > 0, z3.And(y == last, th == self.chief_angle(S, SReal(last)).t))))
            if getattr(loop, 'in_entry', False) is False:
                e = ctx().path.__dict__.setdefault('edges', [])
                for la, a in num.items():
                    for lb, b in num.items():
                        if la != lb: e += [SReal(simp(a + b)), SReal(simp(a - b))]
            return out
        self.engine._invs.append(inv)
    def ratio_at(self, b, i):
        """height over aperture of a ray of a trace (0 without aperture)"""
        b.elem(i); b.access_facts(simp(I(i)))
        y = b.P('y', simp(I(i)))
        return z3.If(b.P('noap', i, BS), z3.RealVal(0), z3.If(y >= 0, y, -y) / b.P('ap', i))
    def val(self, t): return core.mkbool(t) if z3.is_bool(t) else SInt(t) if z3.is_int(t) else SReal(t)
    def limits(self, S, i):
        """the aperture reported at ray i limits the cone of rays from the axis"""
        i = to_int(i)
        return core.mkbool(z3.And(z3.Not(S.free(i)), S.b(i) != 0))
    def check_any(self, name, candidates, f):
        """f holds of one of the candidates"""
        xs = []
        for w in candidates:
            x = f(w)
            if ctx().prove('', x, record=False, keep=False): self.check(name, x); return
            xs.append(x)
        self.check(name, self.or_(*xs) if xs else False)
    def witnesses(self): return ctx().path.__dict__.get('witnesses', [])
    def len(self, l):
        l = force(l)
        if isinstance(l, (SList, View)): return l.length()
        return len(l)
    def list(self, l): return SList([list(l)])
    def at(self, l, i): return l[i]
    def isinstance(self, o, cls): return self.engine.builtins['isinstance'](o, cls)
    def copy(self, l): return SList(l.snapshot())
    def as_list(self, l):
        l = force(l)
        if isinstance(l, eng.GenView): l = self.engine.runtime.realize(l)
        return l if isinstance(l, SList) else SList(normalize(as_segs(l)))
    def ghost_index(self, name, l):
        i = ctx().int(name); self.note(name, 'int', i.t)
        ctx().assume_fact(i.t >= 0)
        return i
    def neighbours_match(self, l, i):
        """loop invariant hint: the neighbours i, i+1 walked so far have matching media"""
        b = l.segs[0].base
        def inv(loop, state, k):
            if loop.walked[0] is not b: return []
            return [('neighbours', z3.Implies(k > i.t + 1, b.R('bi', i.t).t == b.R('fi', simp(i.t + 1)).t))]
        self.engine._invs.append(inv)
    def element_of_any_kind(self, name='m', **opts):
        """one element of unknown class"""
        opts.setdefault('matched', False)
        return ElemBase(self, name, 1, opts).elem(0)
    def split_elements(self, kind):
        """elements, one element of the given kind, elements; neighbours have matching media"""
        E1, E2 = self.elements('E1', nonneg=True), self.elements('E2', nonneg=True)
        b1, b2 = E1.segs[0].base, E2.segs[0].base
        fi = b1.R('idx', b1.n)
        ctx().assume_fact(fi.t > 0)
        if kind in ('Space', 'ToFocus'):
            d = self.real('m.L', nonneg=True)
            m = self.matrix('m', cls=getattr(self.ns, kind), A=1.0, B=d, C=0.0, D=1.0, L=d, frontIndex=fi, backIndex=fi, vertices=False, frontVertex=None, backVertex=None)
        else: m = self.matrix('m', cls=getattr(self.ns, kind), frontIndex=fi, nonneg=True)
        ctx().assume_fact(z3.Implies(b2.n > 0, b2.R('idx', z3.IntVal(0)).t == to_real(m.backIndex)))
        return E1, m, E2
    def distinct_images(self, l, near):
        """[[position, magnification] of the image of the front edge formed after each element], without those at position 0 and those near
        an earlier one kept; offered as a loop invariant.  Ghost functions: kept(i); w(i) an earlier image near image i, if any"""
        s = normalize(as_segs(l))
        b = s[0].base; n = s[0].hi
        R = lambda f: z3.Function('%s.image.%s' % (b.name, f), IS, RS)
        pos, mag = R('pos'), R('mag')
        kept, seen, wit = z3.Function(b.name + '.image.kept', IS, BS), z3.Function(b.name + '.image.seen', IS, BS), z3.Function(b.name + '.image.near', IS, IS)
        def close(j, i):
            d = lambda f: f(j) - f(i)
            return z3.And(*[z3.And(d(f) < to_real(near), -d(f) < to_real(near)) for f in (pos, mag)])
        def defs(i):
            c = ctx(); i = simp(i)
            P = b.fold(0, simp(i + 1))
            A, B, C, D, L = (to_real(getattr(P, f)) for f in 'ABCDL')
            c.assume_fact(z3.Implies(D != 0, z3.And(pos(i) * D == L * D - B, mag(i) * D == A * D - B * C)))
            c.assume_fact(kept(i) == z3.And(D != 0, pos(i) != 0, z3.Not(seen(i))))
            c.assume_fact(z3.Implies(seen(i), z3.And(wit(i) >= 0, wit(i) < i, kept(wit(i)), close(wit(i), i))))
        def walks():
            return [L.k.t for L in self.engine.runtime.loopstack if type(L).__name__ == "SymFor" and L.walked[0] is b]
        def fn(i):
            c = ctx(); i = simp(I(i))
            defs(i)
            for K in walks():
                defs(K)
                c.assume_fact(z3.Implies(z3.And(i >= 0, i < K, kept(i), close(i, K)), seen(K)))
            return SList([[SList([[SReal(pos(i)), SReal(mag(i))]])]]) if c.branch(kept(i)) else SList([])
        em = Emit('images.%s' % (b.key,), fn)
        self.engine._emits.append(em)
        def inv(loop, state, k):
            if loop.walked[0] is b: defs(k); return []
            out = []
            for K in walks():
                defs(K)
                out.append(('none near so far', z3.Not(z3.And(wit(K) >= 0, wit(K) < k, kept(wit(K)), close(wit(K), K)))))
            return out
        self.engine._invs.append(inv)
        def image_is(m, d, mm):
            """the ghost position and magnification, where m is the product of the elements walked (contract lemma_position_of_an_image)"""
            c = ctx()
            for K in walks():
                P = b.fold(0, simp(K + 1))
                if all(c.valid(to_real(getattr(P, f)) == to_real(getattr(m, f))) for f in 'ABCDL'):
                    c.assume_fact(z3.And(pos(K) == to_real(m.L + d), mag(K) == to_real(mm)))
        self.image_is = image_is
        return SList([FMSeg(em, 0, n)])
    def reversed(self, l): return SList(reversed_segs(normalize(as_segs(l))))
    def turned(self, l):
        """the elements in reverse order, each turned around; offered as a loop invariant.  Its product is that of the elements seen by light
        travelling backwards (lemma_product_of_turned_elements, by induction on the number of elements)"""
        s = normalize(as_segs(l))
        if len(s) != 1 or not isinstance(s[0], Seg) or not s[0].lo.eq(z3.IntVal(0)) or not s[0].hi.eq(s[0].base.n): raise Unsupported("turning a composed list around")
        t = TurnedBase(s[0].base)
        self.engine._maps.append(t)
        return SList([Seg(t, 0, t.n)])
    def turned_product(self, l, want, s):
        """assume the lemma for a list, its turned list and the content s seen backwards"""
        F = self.fold(want)
        for f in FIELDS:
            a, b = getattr(F, f), getattr(s, f)
            if f in ('fv', 'bv'):
                ctx().assume_fact(zt(a.present) == zt(b.present)); ctx().assume_fact(z3.Implies(zt(a.present), to_real(a.val) == to_real(b.val)))
            else: ctx().assume_fact(to_real(a) == to_real(b))
    def joins(self, m, l):
        """the media match along m, l[0], l[1].."""
        return bool(self.chain(SList([[m]] + as_segs(l))))
    def group(self, elements, cls=None, **fields):
        """a group whose contents are the given list and that satisfies the class invariant"""
        m = object.__new__((getattr(self.ns, cls) if isinstance(cls, str) else cls) or self.ns.MatrixGroup)
        d = m.__dict__
        s = self.fold(elements)
        for f in 'ABCDL': d[f] = getattr(s, f)
        d['frontVertex'], d['backVertex'] = self.from_opt(s.fv), self.from_opt(s.bv)
        d['frontIndex'], d['backIndex'] = s.fi, s.bi
        d['apertureDiameter'] = INF; d['apertureNA'] = INF
        d['isFlipped'] = self.bool('group.flipped'); d['label'] = ''
        d['iteration'] = 0
        d['elements'] = elements
        d['_lastRayToBeTraced'] = None; d['_lastRayTrace'] = None
        d.update(fields)
        self.engine.runtime.register(m)
        return m
    def fold(self, l, medium=None):
        """ordered product of a list, starting from the identity in the medium of its first element (or the medium given)"""
        segs = [x for x in normalize(as_segs(l)) if not (isinstance(x, list) and not x)]
        if not segs: return MSpec() if medium is None else MSpec(fi=medium, bi=medium)
        # medium of the first element (1 when there is none)
        fi = 1.0
        for s in reversed(segs):
            if isinstance(s, list): fi = self.spec(s[0]).fi
            elif isinstance(s, Seg):
                e = simp(s.lo == s.hi)
                f = self.outer_media(s)[0]
                fi = f if z3.is_false(e) else self.ite(SBool(s.lo < s.hi), f, fi)
            else: raise Unsupported("product of an opaque sequence")
        if medium is not None: fi = medium
        acc = MSpec(fi=fi, bi=fi)
        for j, s in enumerate(segs):
            if isinstance(s, list):
                for x in s: acc = self.mul(self.spec(x), acc)
            else:
                F = self.fold_seg(s)
                acc = self.mul(F, acc)
        return acc
    def outer_media(self, s):
        """the media before the first and after the last element of a segment"""
        b = s.base
        if isinstance(b, ReversedBase):
            return self.spec(b.elem(s.lo)).fi, self.spec(b.elem(simp(s.hi - 1))).bi
        if b.opts.get('matched', True): return b.R('idx', s.lo), b.R('idx', s.hi)
        return b.R('fi', s.lo), b.R('bi', simp(s.hi - 1))
    def chain(self, l):
        """neighbouring elements have matching media"""
        conds = []
        has, bi = False, None         # something before, and its back index
        for s in normalize(as_segs(l)):
            if isinstance(s, list):
                for x in s:
                    sx = self.spec(x)
                    if has is not False: conds.append(self.or_(self.not_(has), self.equal(bi, sx.fi)))
                    has, bi = True, sx.bi
            elif isinstance(s, Seg) and (isinstance(s.base, ReversedBase) or s.base.opts.get('matched', True)):
                b = s.base
                ctx().assume_fact(s.lo <= s.hi)
                ne = self.t(SBool(s.lo < s.hi))
                if isinstance(b, ReversedBase):
                    # neighbours in reverse order: whether their media match is a function of the range
                    rev = SBool(b.b.uf('rev.matched', IS, IS, BS)(s.lo, s.hi))
                    ctx().assume_fact(z3.Implies(s.hi - s.lo <= 1, rev.t))
                    conds.append(rev)
                first, last = self.outer_media(s)
                if has is not False: conds.append(self.or_(self.not_(self.and_(has, ne)), self.equal(bi, first)))
                bi = last if bi is None else self.ite(ne, last, bi)
                has = self.or_(has, ne)
            else: raise Unsupported("media of an opaque sequence")
        return self.and_(*conds) if conds else True
    def fold_seg(self, s):
        b = s.base
        if isinstance(b, ReversedBase) and hasattr(b.b, 'fold'):
            # product of the elements in reverse order: a function of the range; its length is that of the range, lengths add up in any order
            F = lambda f: SReal(b.b.uf('RF.' + f, IS, IS, RS)(s.lo, s.hi))
            Fb = lambda f: SBool(b.b.uf('RF.' + f, IS, IS, BS)(s.lo, s.hi))
            ctx().assume_fact(s.lo <= s.hi)
            c = ctx()
            c.assume_fact(F('fi').t > 0); c.assume_fact(F('bi').t > 0)
            n = b.n
            c.assume_fact(F('L').t == self.fold_seg(Seg(b.b, n - s.hi, n - s.lo)).L.t)
            e = simp(s.lo == s.hi)
            for f, v in (('A', 1), ('B', 0), ('C', 0), ('D', 1), ('L', 0)): c.assume_fact(z3.Implies(e, F(f).t == v))
            for f in ('hasfv', 'hasbv'): c.assume_fact(z3.Implies(e, z3.Not(Fb(f).t)))
            return MSpec(F('A'), F('B'), F('C'), F('D'), F('L'), Opt(Fb('hasfv'), F('fv')), Opt(Fb('hasbv'), F('bv')), F('fi'), F('bi'))
        if not hasattr(b, 'fold'): raise Unsupported("product over %r" % (b.key,))
        c = ctx()
        b.fold_lo(s.lo)
        c.assume_fact(s.lo <= s.hi)
        F = b.fold(s.lo, s.hi)
        e = z3.simplify(s.lo == s.hi)
        if not z3.is_false(e):
            n0 = b.R('idx' if b.opts.get('matched', True) else 'fi', s.lo)
            idm = MSpec(fi=n0, bi=n0)
            for f in FIELDS:
                x, y = getattr(F, f), getattr(idm, f)
                if f in ('fv', 'bv'): c.assume_fact(z3.Implies(e, z3.Not(zt(x.present))))
                else: c.assume_fact(z3.Implies(e, to_real(x) == to_real(y)))
        return F
    def unfold_first(self, base, lo, hi):
        pass
    def seq_eq(self, name, a, b):
        """the two lists hold the same objects in the same order"""
        why = []
        c = ctx()
        ok = seq_same(as_segs(a), as_segs(b), why)
        if ok: c.prove(name, z3.BoolVal(True))
        else:
            c.prove(name, z3.BoolVal(False), note='; '.join(str(w) for w in why))
    def tag_facts(self, base, i, name):
        c = ctx()
        f = lambda n: base.uf('is' + n, IS, BS)(i)
        if name == 'Space':
            pass
        c.assume_fact(z3.Not(z3.And(f('Space'), f('MatrixGroup'))))
    # loop-invariant templates: an element-like value against the ordered product of what was walked
    def fold_group_candidates(self, loop, loc, fields, entry, k):
        out = []
        s = loop.seg
        if not isinstance(s, Seg): return out
        base, lo = s.base, s.lo
        if hasattr(base, 'under'): base, lo = base.under[0], simp(base.under[1] + s.lo)
        if not hasattr(base, 'fold'): return out
        base.fold_lo(lo)
        F = base.fold(lo, simp(lo + k))
        alts = [('fold', F)]
        if entry is not None:
            lit = all(isinstance(getattr(entry, f), (int, float)) for f in 'ABCD') and (entry.A, entry.B, entry.C, entry.D) == (1, 0, 0, 1)
            if not lit: alts.append(('fold∘entry', self.mul(F, entry)))
        for nm, S in alts:
            for f in FIELDS:
                if f not in fields: continue
                a, b = fields[f], getattr(S, f)
                if f in ('fv', 'bv'):
                    try: a = self.opt(a)
                    except Exception: continue
                    t = z3.And(zt(a.present) == zt(b.present), z3.Implies(zt(a.present), to_real(a.val) == to_real(b.val)))
                else:
                    if not isinstance(a, (SReal, SInt, int, float)) or core.isinf(a): continue
                    t = to_real(a) == to_real(b)
                out.append(((loc, nm, f), t))
                if f in ('fi', 'bi') and nm == 'fold' and all(x in fields for x in 'ABCD'):
                    try: out.append(((loc, 'fold, or an identity', f), z3.Or(t, z3.And(*[to_real(fields[x]) == v for x, v in zip('ABCD', (1, 0, 0, 1))]))))
                    except (TypeError, z3.Z3Exception, Unsupported): pass
                if nm == 'fold' and entry is not None:
                    out.append(((loc, 'k>0:fold', f), z3.Or(k == 0, t)))
                    try: e0 = z3.Or(k > 0, self.same_field(f, fields[f], getattr(entry, f)))
                    except Exception: continue
                    out.append(((loc, 'k=0:entry', f), e0))
        return out
    def product_candidates(self, loc, fields, S, k, entry):
        out = []
        for f, a in ATTR.items():
            if a in fields and not (isinstance(fields[a], (int, float)) and core.isinf(fields[a])):
                try:
                    t = self.same_field(f, fields[a], getattr(S, f))
                    out.append(((loc, 'product of its elements', f), t))
                    out.append(((loc, 'product of its elements from the first', f), z3.Implies(k > 0, t)))
                    if a in entry: out.append(((loc, 'k=0:its own', f), z3.Implies(k == 0, self.same_field(f, fields[a], self.opt(entry[a]) if f in ('fv', 'bv') else entry[a]))))
                except (TypeError, z3.Z3Exception, Unsupported): pass
        return out
    def same_field(self, f, a, b):
        if f in ('fv', 'bv'):
            a, b = self.opt(a), self.opt(b)
            return z3.And(zt(a.present) == zt(b.present), z3.Implies(zt(a.present), to_real(a.val) == to_real(b.val)))
        return to_real(a) == to_real(b)
    def element_from(self, s, cls=None, **fields):
        """a new element with the given content"""
        m = object.__new__(cls or self.ns.Matrix)
        d = m.__dict__
        for f in 'ABCDL': d[f] = getattr(s, f)
        d['frontVertex'], d['backVertex'] = self.from_opt(s.fv), self.from_opt(s.bv)
        d['frontIndex'], d['backIndex'] = s.fi, s.bi
        d['apertureDiameter'] = INF; d['apertureNA'] = INF
        d['isFlipped'] = False; d['label'] = ''
        d.update(fields)
        self.engine.runtime.register(m)
        return m
    def original(self, name):
        """the real method behind a callee contract"""
        cn, mn = name.split('.')
        for cls, n, orig in self.saved:
            if cls.__name__ == cn and n == mn: return orig
        return getattr(getattr(self.ns, cn), mn)
    def install(self, names):
        """callee contracts replace callee bodies at call sites"""
        saved = self.saved = []
        for nm in names:
            cn, mn = nm.split('@')[0].split('.')
            cls = getattr(self.ns, cn, None)
            if cls is None or not hasattr(cls, mn): continue
            fn = STUBS[nm]
            orig = cls.__dict__.get(mn)
            saved.append((cls, mn, orig))
            def w(self_, *a, _fn=fn, _orig=orig, **k):
                return _fn(self, self_, *a, **k)
            if isinstance(orig, property): w = property(w)
            if isinstance(orig, classmethod): w = classmethod(w)
            if isinstance(orig, staticmethod):
                def w0(*a, _fn=fn, **k): return _fn(self, *a, **k)
                w = staticmethod(w0)
            setattr(cls, mn, w)
        return saved
    def uninstall(self, saved):
        for cls, mn, orig in reversed(saved):
            if orig is None: delattr(cls, mn)
            else: setattr(cls, mn, orig)
