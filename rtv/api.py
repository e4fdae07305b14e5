"""Contracts (harnesses) registry and the parts of the contract language common to both readings.

A harness is a contract of real functions: it builds arbitrary arguments satisfying the precondition,
calls the real code and states the postconditions.  It is read twice:
  * symbolically (symg.SymG): every input, obligations discharged by the verifier;
  * concretely (cong.ConG): executed on the unmodified library with given inputs (counterexample replay,
    run-time contract cross-check)."""

HARNESSES = []
STUBS = {}       # 'Class.method' -> function(g, self, *args) : callee contract used at call sites

class Harness:
    def __init__(self, fn, props, under, uses, mode, name, note, cases, weight, **kw):
        self.fn, self.props, self.under, self.uses, self.mode, self.name = fn, props, under, uses, mode, name
        self.note, self.cases, self.weight = note, cases, weight
        self.opts = kw
    def __repr__(self): return self.name

def harness(*props, under=(), uses=(), mode='both', note='', cases=300, weight=1, **kw):
    """props: properties decided; under: functions under contract here; uses: callee contracts relied upon.
    mode: 'both' | 'sym' (proof only) | 'con' (bounded run-time check only)"""
    def deco(fn):
        h = Harness(fn, props, list(under), list(uses), mode, fn.__name__, note or (fn.__doc__ or '').strip(), cases, weight, **kw)
        HARNESSES.append(h)
        return fn
    return deco

def stub(name):
    def deco(fn):
        STUBS[name] = fn
        return fn
    return deco


class Outcome:
    """result of a call: value or exception"""
    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc
    @property
    def ok(self): return self.exc is None
    def raised(self, *types):
        return self.exc is not None and isinstance(self.exc, types)

class Opt:
    """optional number: present (truth value), val"""
    def __init__(self, present, val): self.present, self.val = present, val

FIELDS = ('A', 'B', 'C', 'D', 'L', 'fv', 'bv', 'fi', 'bi')
ATTR = dict(A='A', B='B', C='C', D='D', L='L', fv='frontVertex', bv='backVertex', fi='frontIndex', bi='backIndex')

class MSpec:
    """mathematical content of an optical element"""
    def __init__(self, A=1.0, B=0.0, C=0.0, D=1.0, L=0.0, fv=None, bv=None, fi=1.0, bi=1.0):
        self.A, self.B, self.C, self.D, self.L = A, B, C, D, L
        self.fv = fv if isinstance(fv, Opt) else Opt(fv is not None, fv if fv is not None else 0.0)
        self.bv = bv if isinstance(bv, Opt) else Opt(bv is not None, bv if bv is not None else 0.0)
        self.fi, self.bi = fi, bi

class CheckFailed(Exception): pass
class Discard(Exception): pass


class GBase:
    symbolic = None
    def mul(self, a, b):
        """Specification of combining element a after element b."""
        g = self
        fv = g.opt_or(b.fv, g.opt_shift(a.fv, b.L))
        bv = g.opt_or(g.opt_shift(a.bv, b.L), b.bv)
        aid, bid = g.is_identity(a), g.is_identity(b)
        fi = g.ite(g.and_(bid, g.not_(aid)), a.fi, b.fi)
        bi = g.ite(aid, b.bi, a.bi)
        return MSpec(a.A * b.A + a.B * b.C, a.A * b.B + a.B * b.D, a.C * b.A + a.D * b.C, a.C * b.B + a.D * b.D,
                     a.L + b.L, fv, bv, fi, bi)
    def is_identity(self, m):
        return self.and_(self.t(m.A == 1), self.t(m.B == 0), self.t(m.C == 0), self.t(m.D == 1))
    def t(self, x): return x
    def det(self, m): return m.A * m.D - m.B * m.C
    def spec(self, m):
        if isinstance(m, MSpec): return m
        r = self.raw
        return MSpec(r(m, 'A'), r(m, 'B'), r(m, 'C'), r(m, 'D'), r(m, 'L'), self.opt(r(m, 'frontVertex')), self.opt(r(m, 'backVertex')),
                     r(m, 'frontIndex'), r(m, 'backIndex'))
    def opt_shift(self, o, d): return Opt(o.present, o.val + d)
    def opt_or(self, a, b):
        return Opt(self.or_(a.present, b.present), self.ite(a.present, a.val, b.val))
    def eq_spec(self, name, m, s, fields=FIELDS):
        """element (or spec) m has the content s"""
        m = self.spec(m)
        for f in fields:
            a, b = getattr(m, f), getattr(s, f)
            if f in ('fv', 'bv'): self.opt_eq(name + ': ' + ATTR[f], a, b)
            else: self.eq(name + ': ' + ATTR[f], a, b)
    def opt_eq(self, name, a, b):
        self.check(name + ' present', self.iff(a.present, b.present))
        if self.symbolic or a.present:
            self.implied(name, a.present, a.val, b.val)
