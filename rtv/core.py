"""RTV core: symbolic values, path exploration, proof obligations.

The real source text of /repo is executed by CPython itself (see instrument.py); the values
flowing through it are the symbolic ones defined here.  Every branch on a symbolic truth value
forks the path; every division forks on a zero divisor; obligations are discharged by the back
ends in solve.py.  Floats are treated as mathematical reals plus the explicit infinities.
"""
import z3, math, sys, time, itertools
from fractions import Fraction
import builtins as _b

INF = float('inf')


class Control(BaseException):
    """Engine control flow: never caught by the code under verification."""

class PathEnd(Control):
    pass

class Restart(Control):
    def __init__(self, why=''):
        self.why = why

class Unsupported(Control):
    """The code left the verifier's reach."""
    pass

class Infeasible(PathEnd):
    pass


# ------------------------------------------------------------------ conversion
def frac(x):
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, float):
        if x != x or x in (INF, -INF):
            raise Unsupported("non finite number in arithmetic")
        # the mathematical value meant by the shortest decimal that denotes this double
        return Fraction(repr(x))
    if isinstance(x, Fraction):
        return x
    raise Unsupported("not a number: %r" % (x,))

_rv_cache = {}
def rv(x):
    f = frac(x)
    r = _rv_cache.get(f)
    if r is None:
        r = _rv_cache[f] = z3.RealVal(f)
    return r

def is_num(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool) or isinstance(x, bool) or \
        type(x).__module__ == 'numpy' and hasattr(x, 'item')

def isinf(x):
    return isinstance(x, float) and (x == INF or x == -INF)

def to_real(x):
    """z3 real term for a scalar (SReal, SInt, number)"""
    if isinstance(x, SReal): return x.t
    if isinstance(x, SInt): return z3.ToReal(x.t)
    if isinstance(x, SBool): return z3.If(x.t, z3.RealVal(1), z3.RealVal(0))
    if type(x).__module__ == 'numpy': x = x.item()
    return rv(x)

def to_int(x):
    if isinstance(x, SInt): return x.t
    if isinstance(x, bool): return z3.IntVal(int(x))
    if isinstance(x, int): return z3.IntVal(x)
    if hasattr(x, '__index__') and not isinstance(x, Sym): return z3.IntVal(int(x))
    raise Unsupported("not an integer: %r" % (x,))

def to_bool(x):
    """z3 bool of a truth-like value, without forking"""
    if isinstance(x, SBool): return x.t
    if isinstance(x, z3.BoolRef): return x
    if isinstance(x, SReal): return x.t != 0
    if isinstance(x, SInt): return x.t != 0
    return z3.BoolVal(_b.bool(x))


class Sym:
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def __hash__(self): raise Unsupported("hash of a symbolic value")
    def __repr__(self): return "<sym>"
    __str__ = __repr__
    def __format__(self, spec): return "<sym>"
    def __float__(self): raise Unsupported("symbolic value reached C code (float)")
    def __index__(self): raise Unsupported("symbolic value reached C code (index)")
    def __int__(self): raise Unsupported("symbolic value reached C code (int)")
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self
    def __reduce__(self): raise Unsupported("pickling a symbolic value")


class SBool(Sym):
    __slots__ = ()
    def __bool__(self):
        return ctx().branch(self.t)
    def __eq__(self, o):
        if isinstance(o, (SBool, bool)): return SBool(self.t == to_bool(o))
        if isinstance(o, (SReal, SInt, int, float)):
            return SReal(to_real(self)) == o
        return NotImplemented
    def __ne__(self, o):
        if isinstance(o, (SBool, bool)): return SBool(self.t != to_bool(o))
        r = self.__eq__(o)
        return r if r is NotImplemented else s_not(r)
    def __and__(self, o): return SBool(z3.And(self.t, to_bool(o)))
    def __or__(self, o): return SBool(z3.Or(self.t, to_bool(o)))
    __rand__ = __and__; __ror__ = __or__
    def __xor__(self, o): return SBool(self.t != to_bool(o))
    __rxor__ = __xor__
    def __invert__(self): raise Unsupported("~ on a truth value")
    # arithmetic on booleans (sum of flags, ...)
    def _r(self): return SInt(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)))
    def __add__(self, o): return self._r() + o
    def __radd__(self, o): return o + self._r()
    def __sub__(self, o): return self._r() - o
    def __rsub__(self, o): return o - self._r()
    def __mul__(self, o): return self._r() * o
    def __rmul__(self, o): return o * self._r()
    __hash__ = Sym.__hash__


def s_not(x):
    if isinstance(x, SBool): return SBool(z3.Not(x.t))
    return not x


def simp(t):
    return z3.simplify(t) if t.num_args() <= 3 and t.decl().arity() else t


class SNum(Sym):
    __slots__ = ()
    def __bool__(self):
        return ctx().branch(self.t != 0)
    def __neg__(self): return type(self)(-self.t)
    def __pos__(self): return self
    def __abs__(self):
        return type(self)(z3.If(self.t >= 0, self.t, -self.t))
    # ---- comparison
    def _cmp(self, o, op):
        if isinstance(o, SChoice): o = o.force()
        if isinstance(o, SBool): o = o._r()
        if o is None or isinstance(o, str):
            if op in ('==', '!='):
                return op == '!='
            raise TypeError("'%s' not supported between instances of 'float' and '%s'" % (op, type(o).__name__))
        if isinstance(o, float) and o != o:
            return op == '!='
        if isinf(o):
            pos = o > 0
            return {'<': pos, '<=': pos, '>': not pos, '>=': not pos, '==': False, '!=': True}[op]
        if isinstance(self, SInt) and (isinstance(o, SInt) or isinstance(o, int)):
            a, b = self.t, to_int(o)
        elif isinstance(o, (SReal, SInt)) or is_num(o):
            a, b = to_real(self), to_real(o)
        elif isinstance(o, SComplex):
            if op == '==': return o == self
            if op == '!=': return o != self
            raise TypeError("'%s' not supported between instances of 'float' and 'complex'" % op)
        else:
            return NotImplemented
        t = {'<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b, '>=': lambda: a >= b,
             '==': lambda: a == b, '!=': lambda: a != b}[op]()
        return mkbool(t)
    def __lt__(self, o): return self._cmp(o, '<')
    def __le__(self, o): return self._cmp(o, '<=')
    def __gt__(self, o): return self._cmp(o, '>')
    def __ge__(self, o): return self._cmp(o, '>=')
    def __eq__(self, o): return self._cmp(o, '==')
    def __ne__(self, o): return self._cmp(o, '!=')
    __hash__ = Sym.__hash__
    # ---- arithmetic
    def _coerce(self, o):
        if isinstance(o, SChoice): o = o.force()
        if isinstance(o, SBool): o = o._r()
        return o
    def _bin(self, o, f, name, swap=False):
        o = self._coerce(o)
        if o is None or isinstance(o, (str, list, tuple, dict)):
            raise TypeError("unsupported operand type(s) for %s: 'float' and '%s'" % (name, type(o).__name__))
        if isinstance(o, SComplex) or isinstance(o, complex):
            return NotImplemented if not swap else NotImplemented
        if isinstance(o, float) and (o != o): return o
        if isinf(o): return None
        if isinstance(self, SInt) and (isinstance(o, SInt) or isinstance(o, int)):
            a, b, cls = self.t, to_int(o), SInt
        elif isinstance(o, (SReal, SInt)) or is_num(o):
            a, b, cls = to_real(self), to_real(o), SReal
        else:
            return NotImplemented
        if swap: a, b = b, a
        return mknum(cls, f(a, b))
    def __add__(self, o):
        r = self._bin(o, lambda a, b: a + b, '+')
        return o if r is None else (cplx(self) + o if iscomplex(o) else r)
    def __radd__(self, o):
        r = self._bin(o, lambda a, b: a + b, '+', True)
        return o if r is None else (o + cplx(self) if iscomplex(o) else r)
    def __sub__(self, o):
        r = self._bin(o, lambda a, b: a - b, '-')
        return -o if r is None else (cplx(self) - o if iscomplex(o) else r)
    def __rsub__(self, o):
        r = self._bin(o, lambda a, b: a - b, '-', True)
        return o if r is None else (cplx(o) - self if iscomplex(o) else r)
    def __mul__(self, o):
        o = self._coerce(o)
        if isinstance(o, (list, tuple, str)) : raise Unsupported("sequence repetition")
        if iscomplex(o): return cplx(self) * o
        if is_num(o) and not isinf(o) and o == o:
            if isinstance(o, (int, float)) and not isinstance(o, bool):
                if o == 1: return self if isinstance(self, SReal) or isinstance(o, int) else SReal(to_real(self))
                if o == 0: return 0 * o if isinstance(self, SInt) or not isinstance(o, float) else 0.0
        r = self._bin(o, lambda a, b: a * b, '*')
        if r is None:   # times an infinity
            if self > 0: return o
            if self < 0: return -o
            return float('nan')
        return r
    def __rmul__(self, o): return self.__mul__(o)
    def __truediv__(self, o):
        o = self._coerce(o)
        if iscomplex(o): return cplx(self) / o
        if isinf(o): return 0.0
        if isinstance(o, float) and o != o: return o
        if isinstance(o, Sym):
            if ctx().branch_zero(to_real(o)):
                raise ZeroDivisionError("float division by zero")
        elif is_num(o):
            if o == 0: raise ZeroDivisionError("float division by zero")
        else:
            return NotImplemented
        return mknum(SReal, to_real(self) / to_real(o))
    def __rtruediv__(self, o):
        o = self._coerce(o)
        if iscomplex(o): return cplx(o) / self
        if isinstance(o, float) and o != o: return o
        if ctx().branch_zero(to_real(self)):
            raise ZeroDivisionError("float division by zero")
        if isinf(o): return o if self > 0 else -o
        if not is_num(o): return NotImplemented
        if o == 0: return 0.0
        return mknum(SReal, to_real(o) / to_real(self))
    def __pow__(self, e):
        if isinstance(e, float) and e == int(e): e = int(e)
        if isinstance(e, int):
            if e == 0: return 1.0 if isinstance(self, SReal) else 1
            r = self
            for _ in range(abs(e) - 1): r = r * self
            return r if e > 0 else 1.0 / r
        if isinstance(e, float) and e == 0.5:
            if ctx().branch(to_real(self) < 0): return SComplex(0.0, ctx().sqrt(-self))      # as Python does
            return ctx().sqrt(self)
        raise Unsupported("power %r" % (e,))
    def __rpow__(self, b): raise Unsupported("symbolic exponent")
    def __floordiv__(self, o):
        if isinstance(self, SInt) and (isinstance(o, int) and o > 0):
            return SInt(self.t / z3.IntVal(o))
        if isinstance(self, SInt) and isinstance(o, SInt):
            c = ctx()
            if c.branch(o.t == 0): raise ZeroDivisionError("integer division or modulo by zero")
            if c.branch(o.t > 0): return SInt(self.t / o.t)
            raise Unsupported("floor division by a negative number")
        q = self / o
        if isinstance(q, SReal): return SReal(z3.ToReal(z3.ToInt(q.t)))
        raise Unsupported("floor division")
    def __rfloordiv__(self, o):
        if isinstance(o, int): return SInt(z3.IntVal(o)) // self
        raise Unsupported("floor division")
    def __mod__(self, o):
        if isinstance(self, SInt) and (isinstance(o, int) and o > 0):
            return SInt(self.t % z3.IntVal(o))
        if isinstance(self, SInt) and isinstance(o, SInt):
            c = ctx()
            if c.branch(o.t == 0): raise ZeroDivisionError("integer division or modulo by zero")
            if c.branch(o.t > 0): return SInt(self.t % o.t)
            raise Unsupported("modulo of a negative number")
        raise Unsupported("modulo")
    def __rmod__(self, o):
        if isinstance(o, int): return SInt(z3.IntVal(o)) % self
        raise Unsupported("modulo")
    def __divmod__(self, o): return (self // o, self % o)
    def __round__(self, n=None): raise Unsupported("round of a symbolic value")
    @property
    def real(self): return self
    @property
    def imag(self): return 0.0 if isinstance(self, SReal) else 0
    def conjugate(self): return self
    def item(self): return self


class SReal(SNum):
    __slots__ = ()
    def is_integer(self):
        return mkbool(z3.IsInt(self.t))

class SInt(SNum):
    __slots__ = ()


def iscomplex(o): return isinstance(o, (SComplex, complex))

def mkbool(t):
    if z3.is_true(t): return True
    if z3.is_false(t): return False
    if t.num_args() == 2 and z3.is_rational_value(t.arg(0)) and z3.is_rational_value(t.arg(1)) or \
       t.num_args() == 2 and z3.is_int_value(t.arg(0)) and z3.is_int_value(t.arg(1)):
        t = z3.simplify(t)
        return z3.is_true(t)
    return SBool(t)

def mknum(cls, t):
    return cls(t)


class SComplex:
    """complex number with symbolic parts"""
    __slots__ = ('re', 'im')
    def __init__(self, re, im): self.re, self.im = re, im
    @property
    def real(self): return self.re
    @property
    def imag(self): return self.im
    def conjugate(self): return SComplex(self.re, -self.im)
    def __hash__(self): raise Unsupported("hash of a symbolic value")
    def __repr__(self): return "<symc>"
    def __format__(self, s): return "<symc>"
    def __neg__(self): return SComplex(-self.re, -self.im)
    def __pos__(self): return self
    def __add__(self, o):
        o = cplx(o)
        return NotImplemented if o is None else SComplex(self.re + o.re, self.im + o.im)
    __radd__ = __add__
    def __sub__(self, o):
        o = cplx(o)
        return NotImplemented if o is None else SComplex(self.re - o.re, self.im - o.im)
    def __rsub__(self, o): return cplx(o) - self
    def __mul__(self, o):
        o = cplx(o)
        if o is None: return NotImplemented
        return SComplex(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)
    __rmul__ = __mul__
    def __truediv__(self, o):
        o = cplx(o)
        if o is None: return NotImplemented
        d = o.re * o.re + o.im * o.im
        if isinstance(d, Sym):
            zero = z3.And(to_real(o.re) == 0, to_real(o.im) == 0)
            if ctx().branch(zero): raise ZeroDivisionError("complex division by zero")
            ctx().assume_fact(to_real(d) > 0)
            ctx().nonzero(to_real(d))
        elif d == 0:
            raise ZeroDivisionError("complex division by zero")
        return SComplex((self.re * o.re + self.im * o.im) / d, (self.im * o.re - self.re * o.im) / d)
    def __rtruediv__(self, o): return cplx(o) / self
    def __pow__(self, e):
        if isinstance(e, int) and e > 0:
            r = self
            for _ in range(e - 1): r = r * self
            return r
        raise Unsupported("complex power")
    def __eq__(self, o):
        if isinstance(o, SChoice): o = o.force()
        if o is None or isinstance(o, str): return False
        if isinstance(o, float) and (isinf(o) or o != o): return False
        o = cplx(o)
        if o is None: return NotImplemented
        return mkbool(z3.simplify(z3.And(to_real(self.re) == to_real(o.re), to_real(self.im) == to_real(o.im))))
    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else s_not(r)
    def __bool__(self): return bool(self != 0)
    def __abs__(self): return ctx().sqrt(self.re * self.re + self.im * self.im)
    def __lt__(self, o): raise TypeError("'<' not supported between instances of 'complex' and 'float'")
    __gt__ = __le__ = __ge__ = __lt__

def cplx(o):
    if isinstance(o, SComplex): return o
    if isinstance(o, complex): return SComplex(o.real, o.imag)
    if isinstance(o, SChoice): o = o.force()
    if isinstance(o, SBool): o = o._r()
    if isinstance(o, (SReal, SInt)) or is_num(o): return SComplex(o, 0.0)
    if o is None or isinstance(o, (str, list)):
        raise TypeError("unsupported operand type(s) for complex arithmetic")
    return None


class SChoice:
    """A value that is one of several alternatives, each under a guard (exhaustive, exclusive).
    Stored in attributes of library objects; reading the attribute from library code forces it."""
    __slots__ = ('alts', '_forced_in', '_forced')
    def __init__(self, alts):
        self.alts = [(g, v) for g, v in alts if not z3.is_false(g)]
        self._forced_in = None
    def force(self):
        c = ctx()
        if self._forced_in is c.path: return self._forced
        v = None
        for i, (g, val) in enumerate(self.alts):
            if i == len(self.alts) - 1:
                c.assume_fact(g)
                v = val
            elif c.branch(g):
                v = val
                break
        self._forced_in, self._forced = c.path, v
        c.path.forced.append(self)
        return v
    def known(self):
        """the alternative already chosen on this path, or self"""
        if self._forced_in is ctx().path: return self._forced
        return self
    def __hash__(self): raise Unsupported("hash of a symbolic value")
    def __repr__(self): return "<choice>"
    def __bool__(self): return bool(self.force())
    def __eq__(self, o): return self.force() == force(o)
    def __ne__(self, o): return self.force() != force(o)

def force(v):
    return v.force() if isinstance(v, SChoice) else v


# ------------------------------------------------------------------ context
_CTX = None
def ctx():
    if _CTX is None: raise RuntimeError("no verification context")
    return _CTX
def set_ctx(c):
    global _CTX
    _CTX = c


class Path:
    """One execution."""
    def __init__(self, prefix):
        self.prefix = list(prefix)
        self.terms = {}; self.linked = {}
        self.pos = 0
        self.decisions = []
        self.pc = []
        self.counter = itertools.count()
        self.objids = itertools.count()
        self.nonzero = set()
        self.known = {}
        self.sqrts = {}
        self.log = []
        self.forced = []           # choices made, in order
        self.lazies = []           # attributes computed on first read, in order


class Obligation:
    __slots__ = ('name', 'status', 'backend', 'time', 'model', 'pc', 'goal', 'path', 'note')
    def __init__(self, name):
        self.name = name; self.status = None; self.backend = None; self.time = 0; self.model = None
        self.pc = None; self.goal = None; self.path = None; self.note = ''


class Ctx:
    """Exploration of one verified function (harness)."""
    def __init__(self, solver_mod, name, timeouts=(2000, 8000), max_paths=6000, deadline=None):
        self.solve = solver_mod
        self.name = name
        self.timeouts = timeouts
        self.max_paths = max_paths
        self.deadline = deadline
        self.obligations = []      # Obligation, for the last complete exploration
        self.dead_cache = {}
        self.stats = dict(paths=0, feas=0, feas_t=0.0, restarts=0, vc_t=0.0)
        self.know = {}             # knowledge about loops, kept over restarts
        self.path = None
        self.inputs = {}           # name -> (kind, z3 terms) for replay
        self.vc_cache = {}
        self.feas_cache = {}
        self.funcs_run = set()

    # -- exploration
    def explore(self, fn):
        """Run fn() along every feasible path."""
        while True:
            try:
                return self._explore_once(fn)
            except Restart as r:
                self.stats['restarts'] += 1
                if self.stats['restarts'] > 400:
                    raise Unsupported("invariant search does not converge: " + r.why)

    def _explore_once(self, fn):
        self.obligations = []
        self.first_iterations = {}      # of the loops met: False until an invariant that allows it has been assumed
        work = [[]]
        npaths = 0
        while work:
            prefix = work.pop()
            npaths += 1
            self.stats['paths'] += 1
            if npaths > self.max_paths: raise Unsupported("too many paths")
            if self.deadline and time.time() > self.deadline: raise Unsupported("time budget exhausted")
            self.path = Path(prefix)
            self.inputs = {}
            self.solver = z3.Solver()
            self.solver.set('timeout', 250)
            self._nassert = 0
            try:
                fn()
            except PathEnd:
                pass
            except RecursionError:
                raise Unsupported("recursion too deep")
            # alternatives
            p = self.path
            for i in range(len(prefix), len(p.decisions)):      # deepest alternative explored first
                taken, alts = p.decisions[i]
                for a in alts:
                    work.append([d for d, _ in p.decisions[:i]] + [a])
        self.npaths = npaths

    # -- symbols
    def fresh_name(self, hint):
        return "%s!%d" % (hint, next(self.path.counter))
    def real(self, name=None, hint='r'):
        return SReal(z3.Real(name or self.fresh_name(hint)))
    def int(self, name=None, hint='i'):
        return SInt(z3.Int(name or self.fresh_name(hint)))
    def bool(self, name=None, hint='b'):
        return SBool(z3.Bool(name or self.fresh_name(hint)))

    # -- path condition
    def assume_fact(self, t):
        """Add a z3 fact to the path condition (no feasibility check)."""
        if z3.is_true(t): return
        i = t.get_id()
        if i in self.path.known and self.path.known[i][0] is True: return
        self.path.known[i] = (True, t)
        self.path.pc.append(t)

    def link(self, t):
        """expressions compared earlier on this path that are the same rational functions, written differently"""
        terms = self.path.terms
        for x in self.solve.messy_terms(t):
            if x.get_id() in self.path.linked: continue
            self.path.linked[x.get_id()] = x
            h = self.solve.fingerprint(x)
            if h is None: continue
            for hh, s in ((h, 1), (-h % self.solve.PRIME, -1)):
                y = terms.get(hh)
                if y is None: continue
                fact = x == (y if s == 1 else -y)
                if self.solve.poly_identity(fact): self.assume_fact(fact)
                break
            else: terms[h] = x

    def assume(self, cond):
        t = to_bool(cond)
        self.link(t)
        if z3.is_false(t): raise Infeasible()
        self.assume_fact(t)

    def _sync(self):
        pc = self.path.pc
        while self._nassert < len(pc):
            self.solver.add(pc[self._nassert])
            self._nassert += 1

    def scoped(self):
        return _Scope(self)

    def forall(self, fn):
        """fn() is True along every way it can go, judged here: the alternatives met inside do not divide the path"""
        p = self.path
        todo = [[]]
        while todo:
            prefix = todo.pop()
            saved = p.decisions, p.prefix
            nf, nl = len(p.forced), len(p.lazies)
            memos = {k: (dict(v) if isinstance(v, dict) else list(v)) for k, v in p.__dict__.items()
                     if k in ('elems', 'refs', 'images') or k.startswith('memo.')}
            p.decisions, p.prefix = [], prefix
            try:
                with self.scoped():
                    try: ok = fn()
                    except (Infeasible, PathEnd): ok = True
            finally:
                made = p.decisions
                p.decisions, p.prefix = saved
                for ch in p.forced[nf:]: ch._forced_in = None
                for obj, name, old in reversed(p.lazies[nl:]): obj.__dict__[name] = old
                del p.forced[nf:], p.lazies[nl:]
                for k in list(p.__dict__):
                    if k in ('elems', 'refs', 'images') or k.startswith('memo.'):
                        p.__dict__.setdefault('keep', []).append(p.__dict__[k])
                        if k in memos: p.__dict__[k] = memos[k]
                        else: del p.__dict__[k]
            if not ok: return False
            for i in range(len(prefix), len(made)):
                for a in made[i][1]: todo.append([d for d, _ in made[:i]] + [a])
        return True

    def feasible(self, t):
        """False only if pc and t is unsatisfiable."""
        key = (tuple(x.get_id() for x in self.path.pc), t.get_id())
        if key in self.feas_cache: return self.feas_cache[key][0]
        t0 = time.time()
        self._sync()
        r = self.solve.WATCH.check(self.solver, 250, t)
        self.stats['feas'] += 1
        self.stats['feas_t'] += time.time() - t0
        res = r != z3.unsat
        if r == z3.unknown:
            r2 = self.solve.quick_check(self.path.pc + [t])
            res = r2 != 'unsat'
        self.feas_cache[key] = (res, list(self.path.pc), t)
        return res

    def check_alive(self):
        if not self.feasible(z3.BoolVal(True)): raise Infeasible()

    def decide(self, options, kind='choice'):
        """Nondeterministic choice among options (all explored)."""
        p = self.path
        i = len(p.decisions)
        if i < len(p.prefix):
            d = p.prefix[i]
            p.decisions.append((d, []))
            return d
        d = options[0]
        p.decisions.append((d, list(options[1:])))
        return d

    def branch(self, t):
        p = self.path
        if z3.is_true(t): return True
        if z3.is_false(t): return False
        i = t.get_id()
        if i in p.known: return p.known[i][0]
        st = z3.simplify(t)
        if z3.is_true(st): return True
        if z3.is_false(st): return False
        i2 = st.get_id()
        if i2 in p.known:
            return p.known[i2][0]
        self.link(st)
        n = len(p.decisions)
        if n < len(p.prefix):
            d = p.prefix[n]
            p.decisions.append((d, []))
            forked = True
        else:
            nt = z3.Not(t)
            can_t = self.feasible(t)
            can_f = self.feasible(nt) if can_t else True
            if can_t and can_f:
                d = True
                p.decisions.append((True, [False])); forked = True
            else:
                d = can_t
                p.decisions.append((d, [])); forked = True
        fact = t if d else z3.Not(t)
        p.known[i] = (d, t); p.known[i2] = (d, st)
        p.pc.append(fact)
        sn = z3.simplify(z3.Not(st))
        p.known[sn.get_id()] = (not d, sn)
        return d

    def nonzero(self, t):
        self.path.nonzero.add(t.get_id())
        self.path.known[('nz', t.get_id())] = (True, t)

    def branch_zero(self, t):
        """is t == 0?  (forks)"""
        if t.get_id() in self.path.nonzero: return False
        r = self.branch(t == 0)
        if not r: self.nonzero(t)
        return r

    # -- functions of reals
    def sqrt(self, x):
        if not isinstance(x, Sym): return math.sqrt(x)
        t = to_real(x)
        if self.branch(t < 0): raise ValueError("math domain error")
        st = z3.simplify(t); k = st.get_id()
        if k in self.path.sqrts: return self.path.sqrts[k][0]
        r = self.real(hint='sqrt')
        self.assume_fact(r.t >= 0)
        self.assume_fact(r.t * r.t == t)
        self.path.sqrts[k] = (r, t, st)
        return r

    def uf(self, name, *args):
        f = z3.Function(name, *([z3.RealSort()] * (len(args) + 1)))
        return SReal(f(*[to_real(a) for a in args]))

    # -- obligations
    def prove(self, name, goal, note='', record=True, keep=True):
        """An obligation: goal must hold on this path.  Returns True when discharged (and assumes it)."""
        t = to_bool(goal)
        pc = self.path.pc
        key = (tuple(x.get_id() for x in pc), t.get_id())
        if key in self.vc_cache:
            st, backend, dt, model = self.vc_cache[key][:4]
        else:
            t0 = time.time()
            st, backend, model = self.solve.discharge(pc, t, self.timeouts)
            dt = time.time() - t0
            self.stats['vc_t'] += dt
            if dt > 1 and self.__dict__.get('debug'): print('    slow VC %.1fs %s %s: %s' % (dt, st, name, t.sexpr()[:300]), [str(x)[:100] for x in pc][-5:])
            self.vc_cache[key] = (st, backend, dt, model, list(pc), t)
        if record:
            o = Obligation(name)
            o.status, o.backend, o.time, o.model, o.note = st, backend, dt, model, note
            if st != 'proved':
                o.pc, o.goal = list(pc), t
                o.path = (dict(self.inputs))
            self.obligations.append(o)
        if st == 'proved' and keep:
            self.assume_fact(t)
        return st == 'proved'

    def valid(self, goal):
        """Internal query (not an obligation).  A goal that is false whatever the variables holds on impossible paths only"""
        t = z3.simplify(to_bool(goal))
        if z3.is_false(t):
            pc = self.path.pc
            key = tuple(x.get_id() for x in pc)
            if key not in self.dead_cache: self.dead_cache[key] = (self.solve.quick_check(pc, 1000) == 'unsat', list(pc))
            return self.dead_cache[key][0]
        return self.prove('', goal, record=False)

    def fail(self, name, note=''):
        """Obligation that fails whenever this path is feasible."""
        return self.prove(name, z3.BoolVal(False), note=note)


class _Scope:
    """facts assumed inside are forgotten on exit"""
    def __init__(self, c): self.c = c
    def __enter__(self):
        p = self.c.path
        self.saved = (list(p.pc), dict(p.known), set(p.nonzero), dict(p.sqrts), dict(p.terms), dict(p.linked))
        return self
    def __exit__(self, *a):
        p = self.c.path
        keep = p.__dict__.setdefault('keep', [])
        keep.append((p.pc, p.known))
        p.pc, p.known, p.nonzero, p.sqrts, p.terms, p.linked = self.saved
        self.c.solver = z3.Solver(); self.c.solver.set('timeout', 250); self.c._nassert = 0
        return False
