"""Back ends: polynomial normal form, z3 (smt, nlsat), cvc5."""
import z3, time, threading, subprocess, shutil
from fractions import Fraction

STATS = {}
USE_CVC5 = True

def _note(b):
    STATS[b] = STATS.get(b, 0) + 1

# ---------------------------------------------------------------- polynomial identities
MAXTERMS = 4000
class TooBig(Exception): pass

def _mul(p, q):
    r = {}
    if len(p) * len(q) > 60000: raise TooBig()
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            d = dict(m1)
            for v, e in m2: d[v] = d.get(v, 0) + e
            m = tuple(sorted(d.items()))
            c = r.get(m, 0) + c1 * c2
            if c: r[m] = c
            else: r.pop(m, None)
    if len(r) > MAXTERMS: raise TooBig()
    return r

def _add(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        c2 = r.get(m, 0) + s * c
        if c2: r[m] = c2
        else: r.pop(m, None)
    return r

ONE = {(): Fraction(1)}

def ratio(t, memo):
    """(numerator, denominator factors) as polynomials over atoms; valid where denominators are nonzero
    (the engine forks on every zero divisor, so on each path they are)."""
    k = t.get_id()
    if k in memo: return memo[k]
    if z3.is_rational_value(t):
        c = t.as_fraction()
        r = ({(): c} if c else {}, ONE)
    elif z3.is_int_value(t):
        c = Fraction(t.as_long())
        r = ({(): c} if c else {}, ONE)
    else:
        d = t.decl().kind()
        ch = t.children()
        if d in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
            n, dn = ratio(ch[0], memo)
            for c in ch[1:]:
                n2, d2 = ratio(c, memo)
                s = 1 if d == z3.Z3_OP_ADD else -1
                if dn == d2: n = _add(n, n2, s)
                else:
                    n = _add(_mul(n, d2), _mul(n2, dn), s)
                    dn = _mul(dn, d2)
            r = (n, dn)
        elif d == z3.Z3_OP_MUL:
            n, dn = ONE, ONE
            for c in ch:
                n2, d2 = ratio(c, memo)
                n = _mul(n, n2); dn = _mul(dn, d2)
            r = (n, dn)
        elif d == z3.Z3_OP_UMINUS:
            n, dn = ratio(ch[0], memo)
            r = ({m: -c for m, c in n.items()}, dn)
        elif d == z3.Z3_OP_DIV:
            n, dn = ratio(ch[0], memo)
            n2, d2 = ratio(ch[1], memo)
            if not n2: r = ({((k, 1),): Fraction(1)}, ONE)
            else: r = (_mul(n, d2), _mul(dn, n2))
        elif d == z3.Z3_OP_TO_REAL:
            r = ratio(ch[0], memo)
        else:
            r = ({((k, 1),): Fraction(1)}, ONE)
    memo[k] = r
    return r

def poly_identity(t):
    """t is an equality of reals that is a polynomial identity"""
    if not (z3.is_eq(t) and t.arg(0).sort().kind() in (z3.Z3_REAL_SORT, z3.Z3_INT_SORT)): return False
    try:
        memo = {}
        n1, d1 = ratio(t.arg(0), memo)
        n2, d2 = ratio(t.arg(1), memo)
        if d1 == d2: return not _add(n1, n2, -1)
        return not _add(_mul(n1, d2), _mul(n2, d1), -1)
    except TooBig:
        return False

# ---------------------------------------------------------------- equal expressions written differently
PRIME = (1 << 61) - 1
_FP = {}; _FP_KEEP = []
def fingerprint(t):
    """value of a term modulo a prime, its atoms having arbitrary values; None where a denominator vanishes.
    Only selects pairs worth comparing: they are then compared as rational functions"""
    k = t.get_id()
    if k in _FP: return _FP[k]
    if z3.is_rational_value(t) or z3.is_int_value(t):
        c = t.as_fraction() if z3.is_rational_value(t) else Fraction(t.as_long())
        r = c.numerator * pow(c.denominator, -1, PRIME) % PRIME
    else:
        d = t.decl().kind()
        if d in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS, z3.Z3_OP_DIV, z3.Z3_OP_TO_REAL):
            v = [fingerprint(c) for c in t.children()]
            if any(x is None for x in v): r = None
            elif d == z3.Z3_OP_ADD: r = sum(v) % PRIME
            elif d == z3.Z3_OP_SUB: r = (v[0] - sum(v[1:])) % PRIME
            elif d == z3.Z3_OP_UMINUS: r = -v[0] % PRIME
            elif d == z3.Z3_OP_MUL:
                r = 1
                for x in v: r = r * x % PRIME
            elif d == z3.Z3_OP_DIV: r = v[0] * pow(v[1], -1, PRIME) % PRIME if v[1] else None
            else: r = v[0]
        else: r = pow(0x1234567890abcdef ^ k, 0x10001, PRIME)
    _FP[k] = r; _FP_KEEP.append(t)
    return r

def messy_terms(t, out=None, seen=None):
    """the operands of comparisons in t that are products or quotients of unknowns"""
    if out is None: out = []; seen = set()
    k = t.get_id()
    if k in seen or not z3.is_app(t): return out
    seen.add(k)
    if t.sort().kind() == z3.Z3_REAL_SORT:
        d = t.decl().kind()
        if d == z3.Z3_OP_ITE:
            for c in t.children(): messy_terms(c, out, seen)
        elif d == z3.Z3_OP_UMINUS: messy_terms(t.arg(0), out, seen)
        elif is_messy(t): out.append(t)
    elif z3.is_bool(t):
        for c in t.children(): messy_terms(c, out, seen)
    return out
_MESSY = {}
def is_messy(t):
    k = t.get_id()
    if k in _MESSY: return _MESSY[k]
    d = t.decl().kind() if z3.is_app(t) else None
    if d in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS): r = any(is_messy(c) for c in t.children())
    elif d == z3.Z3_OP_MUL: r = sum(not z3.is_rational_value(c) for c in t.children()) > 1 or any(is_messy(c) for c in t.children())
    elif d == z3.Z3_OP_DIV: r = not z3.is_rational_value(t.arg(1)) or is_messy(t.arg(0))
    else: r = False
    _MESSY[k] = r; _FP_KEEP.append(t)
    return r

# ---------------------------------------------------------------- division elimination
class Elim:
    """Replace x/y by a fresh variable q with q*y == x (y nonzero on the path: the engine forks on zero
    divisors before it builds a quotient)."""
    def __init__(self):
        self.memo = {}; self.defs = {}; self.n = 0; self.keep = []
    def run(self, t):
        """-> (term without quotients, names of the quotients it uses)"""
        k = t.get_id()
        r = self.memo.get(k)
        if r is not None: return r
        n = t.num_args() if z3.is_app(t) else 0
        if not n:
            r = (t, NOQ)
        else:
            ch = [t.arg(i) for i in range(n)]
            rs = [self.run(c) for c in ch]
            nch = [x for x, _ in rs]
            qs = NOQ
            for _, x in rs:
                if x: qs = qs | x if qs else x
            if t.decl().kind() == z3.Z3_OP_DIV and not z3.is_rational_value(nch[1]):
                q = z3.Real("quot!%d" % self.n)
                self.defs[self.n] = (q * nch[1] == nch[0], nch[1] != 0)
                qs = qs | {self.n}
                self.n += 1
                r = (q, qs)
            elif not qs: r = (t, NOQ)
            else: r = (t.decl()(*nch), qs)
        self.memo[k] = r
        self.keep.append(t)
        return r
NOQ = frozenset()
ELIM = Elim()

def prepare(fs):
    out = []; qs = set()
    for f in fs:
        r, q = ELIM.run(f)
        out.append(r); qs |= q
    for n in sorted(qs): out.extend(ELIM.defs[n])
    return out

_SYMS = {}; _SYMS_KEEP = []
def relevant(pc, goal):
    """cone of influence: facts sharing symbols with the goal, transitively"""
    memo, keep = _SYMS, _SYMS_KEEP
    def syms(t):
        k = t.get_id()
        if k in memo: return memo[k]
        if not z3.is_app(t): s = syms(t.body()) if z3.is_quantifier(t) else frozenset()
        elif t.num_args() == 0:
            s = frozenset() if (z3.is_rational_value(t) or z3.is_int_value(t) or z3.is_true(t) or z3.is_false(t)) \
                else frozenset([t.decl().name()])
        else:
            s = frozenset().union(*[syms(c) for c in t.children()])
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                s = s | frozenset([t.decl().name()])
        memo[k] = s; keep.append(t)
        return s
    todo = set(syms(goal)); chosen = [False] * len(pc)
    ss = [syms(f) for f in pc]
    changed = True
    while changed:
        changed = False
        for i, s in enumerate(ss):
            if not chosen[i] and (s & todo or not s):
                chosen[i] = True; changed = True
                todo |= s
    return [f for i, f in enumerate(pc) if chosen[i]]

def _has_int_or_uf(fs):
    seen = set()
    def go(t):
        if t.get_id() in seen: return False
        seen.add(t.get_id())
        if not z3.is_app(t): return True
        if t.sort().kind() == z3.Z3_INT_SORT: return True
        if t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED: return True
        return any(go(c) for c in t.children())
    return any(go(f) for f in fs)

def quick_check(fs, timeout=400):
    fs = prepare(fs)
    if _has_int_or_uf(fs):
        s = z3.SolverFor('QF_UFNIRA') if False else z3.Solver()
    else:
        s = z3.Tactic('qfnra-nlsat').solver() if False else z3.SolverFor('QF_NRA')
    s.set('timeout', timeout)
    s.add(*fs)
    return str(WATCH.check(s, timeout))

_UNCOND = {}     # goals that hold without any hypothesis
def discharge(pc, goal, timeouts):
    """-> (status, backend, model) ; status proved | refuted | unknown"""
    if z3.is_true(goal): _note('trivial'); return ('proved', 'trivial', None)
    k = goal.get_id()
    if k not in _UNCOND:
        _UNCOND[k] = ('z3-simplify' if z3.is_true(z3.simplify(goal)) else 'polynomial-identity' if poly_identity(goal) else None, goal)
    if _UNCOND[k][0]:
        _note(_UNCOND[k][0]); return ('proved', _UNCOND[k][0], None)
    ng = z3.Not(goal)
    pc = relevant(list(pc), goal) if not z3.is_false(goal) else list(pc)
    fs = prepare(pc + [ng])
    model = None
    best = 'unknown'
    intuf = _has_int_or_uf(fs)
    attempts = []
    t1, t2 = timeouts
    if intuf:
        attempts = [('z3-smt', lambda: z3.Solver(), t1), ('z3-purified-nlsat', None, t1), ('cvc5', 'cvc5', t2), ('z3-smt', lambda: z3.Solver(), t2)]
    else:
        attempts = [('z3-smt', lambda: z3.Solver(), min(t1, 1000)), ('z3-nlsat', lambda: z3.SolverFor('QF_NRA'), t1),
                    ('cvc5', 'cvc5', t2), ('z3-nlsat', lambda: z3.SolverFor('QF_NRA'), t2)]
    for name, mk, to in attempts:
        try:
            if name == 'cvc5':
                if not USE_CVC5: continue
                r = cvc5_check(fs, to)
                if r == 'unsat': _note('cvc5'); return ('proved', 'cvc5', None)
                continue
            if name == 'z3-purified-nlsat':
                r = purified(fs, to)
                if r == 'unsat': _note(name); return ('proved', name, None)
                continue
            s = mk(); s.set('timeout', int(to)); s.add(*fs)
            r = WATCH.check(s, to)
            if r == z3.unsat: _note(name); return ('proved', name, None)
            if r == z3.sat:
                _note(name)
                return ('refuted', name, s.model())
        except z3.Z3Exception:
            continue
    return (best, None, model)

def purified(fs, timeout):
    """replace UF applications and integer subterms by fresh reals (forgetting congruence: sound for unsat)"""
    memo = {}; keep = []; n = [0]
    def go(t):
        k = t.get_id()
        if k in memo: return memo[k]
        keep.append(t)
        if not z3.is_app(t): raise z3.Z3Exception("quantifier")
        dk = t.decl().kind()
        if t.sort().kind() == z3.Z3_REAL_SORT and (dk in (z3.Z3_OP_TO_REAL,) or (dk == z3.Z3_OP_UNINTERPRETED and t.num_args())):
            r = z3.Real('pur!%d' % n[0]); n[0] += 1
        elif t.sort().kind() == z3.Z3_BOOL_SORT and ((dk == z3.Z3_OP_UNINTERPRETED and t.num_args()) or
                any(c.sort().kind() == z3.Z3_INT_SORT for c in t.children())):
            r = z3.Bool('purb!%d' % n[0]); n[0] += 1
        elif t.num_args() == 0: r = t
        else:
            ch = [go(c) for c in t.children()]
            r = t.decl()(*ch)
        memo[k] = r
        return r
    try:
        gs = [go(f) for f in fs]
    except z3.Z3Exception:
        return 'unknown'
    s = z3.SolverFor('QF_NRA'); s.set('timeout', int(timeout)); s.add(*gs)
    return str(WATCH.check(s, timeout))

CVC5 = shutil.which('cvc5')
def cvc5_check(fs, timeout):
    """cvc5 as a separate process (ended when it exceeds its time)"""
    if CVC5 is None: return 'unknown'
    s = z3.Solver(); s.add(*fs)
    txt = "(set-logic ALL)\n" + s.to_smt2()
    cmd = [CVC5, '--lang=smt2.6', '--tlimit-per=%d' % int(timeout)] + ([] if _has_int_or_uf(fs) else ['--nl-cov'])
    try: out = subprocess.run(cmd + ['-'], input=txt, capture_output=True, text=True, timeout=timeout / 1000.0 + 5).stdout
    except (subprocess.TimeoutExpired, OSError): return 'unknown'
    ls = out.split()
    return 'unsat' if 'unsat' in ls and 'sat' not in ls else 'sat' if 'sat' in ls else 'unknown'

class Watchdog:
    """interrupts z3 when a call exceeds its own time limit (z3 does not always notice)"""
    def __init__(self):
        self.lock = threading.Lock(); self.deadline = None; self.thread = None; self.fired = 0
    def run(self):
        while True:
            time.sleep(0.25)
            with self.lock:
                if self.deadline is not None and time.time() > self.deadline:
                    z3.main_ctx().interrupt(); self.fired += 1
    def check(self, s, ms, *a):
        if self.thread is None:
            self.thread = threading.Thread(target=self.run, daemon=True); self.thread.start()
        with self.lock: self.deadline = time.time() + ms / 1000.0 * 1.5 + 1.0
        try: return s.check(*a)
        except z3.Z3Exception: return z3.unknown
        finally:
            with self.lock: self.deadline = None
WATCH = Watchdog()
