"""Concrete reading of a contract: the same harness executed on the unmodified library, with scripted inputs
(counterexample replay) or seeded random ones (bounded run-time cross-check of the contracts).
Runs under the library's own Python; imports no solver."""
import math, random
from .api import *

INF = float('inf')
NICE = [0.0, 1.0, -1.0, 2.0, -2.0, 0.5, -0.5, 3.0, 4.0, 5.0, 10.0, -10.0, 20.0, 0.25, 8.0, -4.0]
POS = [1.0, 2.0, 0.5, 4.0, 5.0, 10.0, 20.0, 3.0, 0.25, 8.0, 1.5]
IDX = [1.0, 1.0, 1.0, 1.5, 1.25, 2.0, 1.33, 1.7]
TOL = 1e-6

def num(x):
    return isinstance(x, (int, float)) or type(x).__module__ == 'numpy' and hasattr(x, 'item')

class ConG(GBase):
    symbolic = False
    def __init__(self, ns, rng, script=None):
        self.ns, self.rng, self.script = ns, rng, script or {}
        self.drawn = not self.script        # inputs are drawn at random, not those of a counterexample
        self.ints = self.drawn and rng.random() < 0.3       # whole numbers given as integers, as a user writes them
        self.inputs = {}
        self.checks = 0
        self.tol = TOL
        self.no_fold_lemma = False
    # ---- inputs
    def draw(self, name, gen):
        if name in self.script: v = self.script[name]
        else: v = gen()
        self.inputs[name] = v
        return v
    def real(self, name, lo=None, hi=None, pos=False, nonzero=False, nonneg=False, **kw):
        r = self.rng
        def gen():
            if lo is not None and hi is not None:
                u = r.random()
                if u < 0.08: return float(lo)
                if u < 0.16: return float(hi)
                if u < 0.5:
                    return min(float(hi), max(float(lo), lo + (hi - lo) * r.randrange(0, 17) / 16.0))
                return r.uniform(lo, hi)
            for _ in range(50):
                u = r.random()
                if u < 0.55: v = r.choice(POS if pos else NICE)
                elif u < 0.8: v = r.randrange(-80, 81) / 4.0
                else: v = r.uniform(-30, 30)
                if pos or nonneg: v = abs(v)
                if (pos or nonzero) and v == 0: continue
                if lo is not None and v < lo: v = lo + abs(v)
                if hi is not None and v > hi: v = hi - abs(v)
                return float(v)
            return 1.0
        v = float(self.draw(name, gen))
        bad = (lo is not None and v < lo) or (hi is not None and v > hi) or (pos and v <= 0) or (nonneg and v < 0) or (nonzero and v == 0)
        if bad: raise Discard(name)
        return int(v) if self.ints and v == v // 1 and abs(v) < 1e15 else v
    def int(self, name, lo=None, hi=None, **kw):
        l = -6 if lo is None else lo
        h = (l + 12 if lo is not None else 6) if hi is None else hi
        if h < l: raise Discard(name)
        v = int(self.draw(name, lambda: self.rng.randint(l, h)))
        if lo is not None and v < lo or hi is not None and v > hi: raise Discard(name)
        return v
    def bool(self, name): return bool(self.draw(name, lambda: self.rng.random() < 0.5))
    def choice(self, name, options):
        return options[int(self.draw(name, lambda: self.rng.randrange(len(options))))]
    def maybe(self, name, value):
        return value if self.draw('has_' + name, lambda: self.rng.random() < 0.6) else None
    def aperture(self, name):
        v = self.real(name, pos=True)
        return INF if self.draw('inf_' + name, lambda: self.rng.random() < 0.5) else v
    def inf_or(self, name, value, sign=1):
        return INF * sign if self.draw('inf_' + name, lambda: self.rng.random() < 0.25) else value
    def index(self, name):
        v = float(self.draw(name, lambda: self.rng.choice(IDX)))
        if v <= 0: raise Discard(name)
        return v
    def abcd(self, name, fi, bi, special=True):
        """A, B, C, D with determinant fi/bi"""
        r = self.rng
        if any(name + '.' + f in self.script for f in 'ABCD'):
            return tuple(self.real(name + '.' + f) for f in 'ABCD')
        det = fi / bi
        u = r.random()
        if special and u < 0.2 and fi == bi: v = (1.0, 0.0, 0.0, 1.0)
        elif special and u < 0.35: v = (1.0, r.choice(NICE), 0.0, det)
        elif special and u < 0.5: v = (1.0, 0.0, r.choice(NICE) / 16, det)
        else:
            A, B, C = r.choice([0.0, 0.5, -0.5, 1.0, 1.0, -1.0, 2.0, -2.0, 1.5]), r.randrange(-16, 17) / 4.0, r.randrange(-16, 17) / 16.0
            if A != 0: v = (A, B, C, (det + B * C) / A)
            else:
                B = B or 1.0
                v = (0.0, B, -det / B, r.choice(NICE))
        for f, x in zip('ABCD', v): self.inputs[name + '.' + f] = x
        return v
    def matrix(self, name='m', cls=None, frontIndex=None, backIndex=None, L=None, nonneg=False, vertices=True, **fixed):
        m = object.__new__(cls or self.ns.Matrix)
        d = m.__dict__
        d['frontIndex'] = self.index(name + '.fi') if frontIndex is None else frontIndex
        d['backIndex'] = self.index(name + '.bi') if backIndex is None else backIndex
        d['A'], d['B'], d['C'], d['D'] = self.abcd(name, d['frontIndex'], d['backIndex'])
        d['L'] = self.real(name + '.L', nonneg=nonneg) if L is None else L
        d['frontVertex'] = self.maybe(name + '.fv', self.real(name + '.fv')) if vertices else None
        d['backVertex'] = self.maybe(name + '.bv', self.real(name + '.bv')) if vertices else None
        d['apertureDiameter'] = self.aperture(name + '.ap')
        d['apertureNA'] = self.aperture(name + '.na')
        d['isFlipped'] = self.bool(name + '.flipped')
        d['label'] = ''
        for k, v in fixed.items(): d[k] = v
        det = d['A'] * d['D'] - d['B'] * d['C']
        if abs(det - d['frontIndex'] / d['backIndex']) > 1e-7 * (1 + abs(det)): raise Discard('determinant')
        return m
    def ray(self, name='r', blocked=None, **kw):
        r = self.ns.Ray()
        d = r.__dict__
        d['y'], d['theta'], d['z'] = (self.real(name + '.' + f) for f in ('y', 'theta', 'z'))
        d['isBlocked'] = self.bool(name + '.blocked') if blocked is None else blocked
        d['apertureDiameter'] = self.aperture(name + '.ap')
        d['wavelength'] = self.maybe(name + '.wl', self.real(name + '.wl', pos=True))
        for k, v in kw.items(): d[k] = v
        return r
    def complex(self, name): return complex(self.real(name + '.re'), self.real(name + '.im'))
    def function(self, name, *args):
        h = sum(ord(c) for c in name) % 17
        return 1.2 + 0.03 * h + sum(0.05 / (1 + abs(float(a))) for a in args)
    def asin(self, x): return math.asin(x)
    def cos(self, x): return math.cos(x)
    def sin(self, x): return math.sin(x)
    def sqrt(self, x): return math.sqrt(x)
    def warnings(self):
        import warnings
        log = []
        warnings.simplefilter('always')
        def show(message, category, *a, **k): log.append((message, category))
        warnings.showwarning = show          # restored by catch_warnings in concrete.one
        class Log:
            def count(self): return len(log)
            def categories(self): return [c for _, c in log]
        return Log()
    def cplx(self, re, im): return complex(re, im)
    def new(self, cls): return object.__new__(cls)
    def register(self, o): return o
    def length(self, name, lo=0):
        n = int(self.draw(name + '.n', lambda: self.rng.choice([lo, lo + 1, lo + 2, lo + 3, lo + 4, lo + 6])))
        if n < lo or n > 40: raise Discard('length')
        return n
    def elements(self, name='E', lo=0, **opts):
        n = self.length(name, lo)
        out = []
        idx = None
        scripted = self.script.get(name)
        if scripted is not None: scripted = self.repaired(scripted[:n], opts)
        for i in range(n):
            if scripted is not None and i < len(scripted): out.append(self.scripted_element(scripted[i], opts)); idx = scripted[i]['backIndex']; continue
            if 'medium' in opts:
                idx = opts['medium']
                while True:
                    e = self.element('%s%d' % (name, i), idx, opts)
                    if e.backIndex == idx: break
            else: e = self.element('%s%d' % (name, i), idx, opts)
            for k, v in opts.get('fixed', {}).items():
                if isinstance(v, (int, float, bool)): e.__dict__[k] = v
            if opts.get('matched', True): idx = e.backIndex
            out.append(e)
        self.inputs[name] = [self.describe(e) for e in out]
        return out
    def describe(self, e):
        try: return '%s(%s)' % (type(e).__name__, ', '.join('%s=%r' % (k, v) for k, v in sorted(e.__dict__.items()) if isinstance(v, (int, float, type(None), bool)) ))
        except Exception: return type(e).__name__
    def repaired(self, es, opts):
        """a counterexample says nothing of elements its proof did not look at: they are completed to valid ones"""
        es = [dict(e) for e in es]
        for i, e in enumerate(es):
            if 'medium' in opts: e['frontIndex'] = e['backIndex'] = opts['medium']
            for f in ('frontIndex', 'backIndex'):
                if not e[f] > 0: e[f] = 1.0
            if opts.get('matched', True) and i and 'medium' not in opts: e['frontIndex'] = es[i - 1]['backIndex']
            if opts.get('air') and (e['frontIndex'] != 1 or e['backIndex'] != 1): raise Discard('medium')
            if opts.get('nonneg') and e['L'] < 0: e['L'] = -e['L']
            if not e['apertureDiameter'] > 0: e['apertureDiameter'] = INF
            for k, v in opts.get('fixed', {}).items():
                if isinstance(v, (int, float, bool)): e[k] = v
            if opts.get('thin') and e['apertureDiameter'] != INF and e['L'] != 0: e['apertureDiameter'] = INF
            det = e['frontIndex'] / e['backIndex']
            if abs(e['A'] * e['D'] - e['B'] * e['C'] - det) > 1e-7 * (1 + abs(det)):
                if abs(e['A']) >= 1 / 64: e['D'] = (det + e['B'] * e['C']) / e['A']
                elif abs(e['D']) >= 1 / 64: e['A'] = (det + e['B'] * e['C']) / e['D']
                else: e['A'], e['B'], e['C'], e['D'] = 1.0, 0.0, 0.0, det
        return es
    def scripted_element(self, d, opts):
        m = object.__new__(opts.get('cls') and getattr(self.ns, opts['cls'].__name__, None) or self.ns.Matrix)
        m.__dict__.update(label='', isFlipped=False, apertureNA=INF)
        m.__dict__.update(d)
        return m
    def element(self, name, front, opts):
        """an element of one of the library's classes, front medium given"""
        r, ns = self.rng, self.ns
        n1 = front if front is not None else (r.choice(IDX) if not opts.get('air') else 1.0)
        kinds = opts.get('con_kinds') or ['Matrix', 'Matrix', 'Space', 'Space', 'Lens', 'Aperture', 'Interface', 'ThickLens', 'Slab', 'Mirror', 'Group'][:(11 if opts.get('groups') else 10)]
        kind = r.choice(kinds)
        d = r.choice([INF, INF, 2.0, 5.0, 10.0, 25.4, 1.0])
        thin = opts.get('thin')
        pos = lambda: r.choice(POS)
        if kind == 'Space' or (thin or opts.get('divisible')) and n1 != 1.0 and kind != 'Interface': e = ns.Space(d=r.choice([0.0, 1.0, 5.0, 10.0, 12.5, 50.0]), n=n1, diameter=INF if thin else d)
        elif kind == 'Lens' and n1 == 1.0: e = ns.Lens(f=r.choice([5.0, 10.0, -10.0, 50.0, 4.0, -2.0]), diameter=d)
        elif kind == 'Aperture' and n1 == 1.0: e = ns.Aperture(diameter=r.choice([1.0, 2.0, 5.0, 10.0, 20.0]))
        elif kind == 'Interface':
            e = ns.DielectricInterface(n1=n1, n2=r.choice(IDX), R=r.choice([10.0, -10.0, INF, 20.0, -5.0]), diameter=d)
        elif kind == 'ThickLens' and n1 == 1.0:
            e = ns.ThickLens(n=r.choice([1.5, 1.25, 2.0]), R1=r.choice([10.0, -10.0, INF, 25.0]), R2=r.choice([-10.0, 20.0, INF]), thickness=r.choice([0.0, 1.0, 2.5, 5.0]), diameter=d)
        elif kind == 'Slab' and n1 == 1.0: e = ns.DielectricSlab(n=r.choice([1.5, 1.25]), thickness=r.choice([1.0, 4.0, 10.0]), diameter=d)
        elif kind == 'Mirror' and n1 == 1.0: e = ns.CurvedMirror(R=r.choice([10.0, -10.0, 40.0]), diameter=d)
        elif kind == 'Group' and n1 == 1.0:
            e = ns.MatrixGroup([ns.Space(d=r.choice([1.0, 5.0])), ns.Lens(f=r.choice([5.0, -10.0]), diameter=d), ns.Space(d=2.0)])
        else:
            n2 = r.choice(IDX) if r.random() < 0.4 and 'medium' not in opts else n1
            A, B, C, D = self.abcd(name, n1, n2)
            L = r.choice([0.0, 1.0, 5.0, 2.5])
            fv = r.choice([None, 0.0, 0.5]); bv = r.choice([None, L, L - 0.5])
            e = ns.Matrix(A=A, B=B, C=C, D=D, physicalLength=L, frontVertex=fv, backVertex=bv, frontIndex=n1, backIndex=n2, apertureDiameter=d)
        return e
    def group(self, elements, cls=None, **fields):
        if isinstance(cls, str): cls = getattr(self.ns, cls)
        g = (cls or self.ns.MatrixGroup)
        if cls is None:
            try: m = g(elements=list(elements))
            except ValueError as e:
                if 'determinant' in str(e): raise Discard('rounding in a long product')
                raise
        else:
            m = g()
            m.__dict__.update(self.ns.MatrixGroup(elements=list(elements)).__dict__)
        m.__dict__.update(fields)
        return m
    def split_elements(self, kind):
        r, ns = self.rng, self.ns
        E1 = self.elements('E1')
        fi = E1[-1].backIndex if E1 else r.choice(IDX)
        if kind == 'Space': m = ns.Space(d=r.choice([1.0, 5.0, 12.5]), n=fi, diameter=r.choice([INF, 5.0]))
        elif kind == 'ToFocus':
            if fi != 1.0: raise Discard('medium')
            m = ns.ToFocus(ns.Lens(f=r.choice([5.0, 12.5])))
        elif kind == 'ThickLens':
            if fi != 1.0: raise Discard('medium')
            m = ns.ThickLens(n=1.5, R1=10.0, R2=-20.0, thickness=2.5)
        elif kind == 'Lens':
            if fi != 1.0: raise Discard('medium')
            m = ns.Lens(f=5.0); m.L = 2.0
        else:
            A, B, C, D = self.abcd('m', fi, fi)
            m = ns.Matrix(A=A, B=B, C=C, D=D, physicalLength=r.choice([1.0, 5.0]), frontIndex=fi, backIndex=fi)
        rest = self.elements('E2')
        E2 = rest if not rest or rest[0].frontIndex == m.backIndex else []
        self.inputs['m'] = self.describe(m)
        return E1, m, E2
    def reversed(self, l): return list(reversed(l))
    def turned(self, l): return list(reversed(l))
    def joins(self, m, l): return self.chain([m] + list(l))
    def rays(self, name='R', lo=0, **opts):
        n = self.length(name, lo)
        out = []
        z = self.rng.choice([0.0, 0.0, 5.0, -3.0])
        scripted = self.script.get(name)
        for i in range(n):
            r = self.ns.Ray()
            if scripted is not None and i < len(scripted):
                r.__dict__.update(scripted[i])
                if opts.get('blocked') is not None: r.isBlocked = opts['blocked']
                if not r.apertureDiameter > 0: r.apertureDiameter = INF
                if opts.get('sorted') and out and r.z < out[-1].z: r.z = out[-1].z
            else:
                r.y, r.theta = self.rng.choice(NICE), self.rng.choice(NICE) / 8
                if opts.get('sorted'): r.z = z; z += self.rng.choice([0.0, 0.0, 1.0, 2.5, 5.0])
                else: r.z = self.rng.choice(NICE)
                r.isBlocked = self.rng.random() < 0.3 if opts.get('blocked') is None else opts['blocked']
                r.wavelength = self.rng.choice([None, 0.5])
            out.append(r)
        self.inputs[name] = [dict(r.__dict__) for r in out]
        return out
    def len_of(self, o): return len(o)
    def field_list(self, l, f): return [getattr(r, f) for r in l]
    def min_of(self, l): return min(l)
    def max_of(self, l): return max(l)
    def grid(self, a, b, n, i):
        return a if n == 1 else a + (b - a) * i / (n - 1)
    def loop_invariant(self, name, f): pass
    def truncated(self, x): return int(x)
    def map_list(self, l, f): return [f(x) for x in l]
    def emissions(self, name, l, fn): return [x for i in range(len(l)) for x in fn(i)]
    def filter_list(self, name, l, f, keep): return [f(x) for x in l if keep(f(x))]
    def same_up_to_order(self, name, out, want):
        self.checks += 1
        out, want = list(out), list(want)
        if len(out) != len(want): raise CheckFailed('%s: %d items instead of %d' % (name, len(out), len(want)))
        rest = list(out)
        for w in want:
            for i, x in enumerate(rest):
                if x is w or self.equal(x, w): del rest[i]; break
            else: raise CheckFailed('%s: %r is lost' % (name, w))
    def pool(self):
        """a pool of processes, in this process: it works, does not start, or fails part of the way; once in a while a real one"""
        import contextlib, multiprocessing, pickle
        how = self.rng.choice(['works'] * 6 + ['does not start', 'fails', 'real' if self.rng.random() < 0.1 else 'works'])
        rng = self.rng
        class Pool:
            def __init__(self, processes=None, *a, **k):
                if processes is not None and processes < 1: raise ValueError("Number of processes must be at least 1")
                if how == 'does not start': raise OSError(12, 'Cannot allocate memory')
            def __enter__(self): return self
            def __exit__(self, *a): pass
            def close(self): pass
            def join(self): pass
            terminate = close
            def starmap(self, f, it, chunksize=None): return self.map(lambda a: f(*a), it)
            def map(self, f, it, chunksize=None):
                out = []
                bad = rng.randrange(0, 4)
                for i, x in enumerate(it):
                    if how == 'fails' and i == bad: raise RuntimeError('a worker failed')
                    out.append(pickle.loads(pickle.dumps(f(pickle.loads(pickle.dumps(x))))))
                if how == 'fails': raise RuntimeError('a worker failed')
                return out
            imap = map
        @contextlib.contextmanager
        def replaced():
            old, cpus = multiprocessing.Pool, multiprocessing.cpu_count
            if how != 'real': multiprocessing.Pool = Pool
            multiprocessing.cpu_count = lambda n=rng.choice([1, 2, 3, 5, 8]): n
            try: yield
            finally: multiprocessing.Pool, multiprocessing.cpu_count = old, cpus
        return replaced()
    def stream(self, name, **opts):
        made = {}
        def at(i):
            if i not in made:
                r = self.ns.Ray(self.rng.choice(NICE), self.rng.choice(NICE) / 8); made[i] = r
            return made[i]
        return at
    def stream_list(self, st, n): return [st(i) for i in range(n)]
    def below(self, name, n): return self.int(name, 0, n - 1)
    def histogram(self, values, bins, lo, hi):
        import numpy as np
        counts, edges = np.histogram(list(values), bins=bins, range=(lo, hi))
        return [(edges[i] + edges[i + 1]) / 2 for i in range(len(edges) - 1)], list(counts)
    def new_path(self, name):
        import os, shutil
        d = self.ns.home + '/work'
        os.makedirs(d, exist_ok=True)
        p = d + '/' + name
        if os.path.exists(p): os.remove(p)
        return p
    def file(self, name, content):
        import pickle
        p = self.new_path(name)
        with open(p, 'wb') as f: pickle.dump(content, f)
        return p
    def stored(self, path):
        import pickle
        with open(path, 'rb') as f: return pickle.load(f)
    # ---- dictionaries and files of preferences
    TEXTS = ['mode', 'a', 'b', 'lastVersionCheck', '', 'é', '0']
    def text_key(self, name): return self.TEXTS[int(self.draw(name, lambda: self.rng.randrange(len(self.TEXTS)))) % len(self.TEXTS)]
    def random_json(self, depth=0):
        r = self.rng
        k = r.randrange(9 if depth < 2 else 7)
        if k == 7: return [self.random_json(depth + 1) for _ in range(r.randrange(3))]
        if k == 8: return {t: self.random_json(depth + 1) for t in r.sample(self.TEXTS, r.randrange(3))}
        return [None, True, False, r.randrange(-5, 1000), r.choice([0.5, -1e-9, 1e300]), r.choice(['', 'expert', 'é\n"', 'beginner']), 0][k]
    def json_value(self, name, acceptable=True):
        if not acceptable: return self.rng.choice([object(), 1j, {1, 2}, [object()], b'x', lambda: 0])
        return self.random_json()
    def mapping(self, name, acceptable=True):
        m = {t: self.random_json() for t in self.rng.sample(self.TEXTS, self.rng.randrange(4))}
        if not acceptable and self.rng.random() < 0.4: m['bad'] = object()
        return m
    def empty_map(self): return {}
    def with_item(self, m, k, v):
        m = dict(m); m[k] = v
        return m
    def map_has(self, m, k): return k in m
    def map_get(self, m, k): return m.get(k)
    def map_eq(self, name, a, b): self.check(name, a is not None and b is not None and a == b)
    def contents(self, P): return dict(dict.items(P))
    def set_contents(self, P, m):
        dict.clear(P); dict.update(P, m)
    def put_text(self, path, kind, m=None):
        import os, json
        if kind == 'absent':
            if os.path.exists(path): os.remove(path)
            return
        if kind == 'not json':
            with open(path, 'wb') as f: f.write(self.rng.choice([b'{"a": 1', b'nonsense', b'\xff\xfe\x00', b'{"a": 1}}', b'[1, 2', b'\x00' * 10]))
            return
        with open(path, 'w') as f: f.write('' if kind == 'empty' else json.dumps(m if kind == 'map' else kind))
    def text_map(self, path):
        import json
        try: m = json.load(open(path))
        except (OSError, ValueError): return None
        return m if isinstance(m, dict) else None
    def text(self, name):
        def gen():
            r = self.rng
            ns = [c.__name__ for c in type.__subclasses__(self.ns.Material)]
            s = r.choice(ns)
            how = r.randrange(8)
            if how < 5: s = s.replace('_', '-' if r.random() < .7 else '')
            elif how == 6: s = s + r.choice(['x', ' ', '1', '', '_'])
            elif how == 7: s = r.choice(['', '-', 'glass', s[:-1], s[1:], s * 2])
            s = ''.join(x.lower() if r.random() < .3 else x.upper() if r.random() < .3 else x for x in s)
            return ''.join(x + ('-' if r.random() < .1 else '') for x in s)
        return str(self.draw(name, gen))
    def name_matches(self, t, s): return t.replace('-', '').lower() == s.replace('_', '').lower()
    def index_entry(self, k, w):
        m = getattr(self.ns, k)()
        return (k, m.n(w), m.abbeNumber())
    def is_real(self, x): return isinstance(x, (int, float)) and not isinstance(x, bool)
    def between(self, name, a, b):
        return float(self.draw(name, lambda: self.rng.choice([a, b, self.rng.uniform(a, b), self.rng.uniform(a, b), self.rng.uniform(a, b)])))
    def on_system(self, name): pass
    def folder(self, path):
        import os
        return sorted(os.listdir(os.path.dirname(path)))
    def nested(self, name, dims, fn):
        out = []
        def go(ks):
            if len(ks) == len(dims): out.append(fn(*ks)); return
            d = dims[len(ks)]
            for i in range(int(d(*ks) if callable(d) else d)): go(ks + (i,))
        go(())
        return out
    def part_of(self, e, d):
        try: return self.spec(e.transferMatrix(upTo=d))
        except TypeError: return None
    def all_matrices(self, l): return [m for e in l for m in e.transferMatrices()]
    def lengths_grow(self, l, *ghosts): pass
    def traces(self, l, r):
        out = []; x = r
        for e in l:
            t = e.trace(x); out += t; x = t[-1]
        class Traces: pass
        o = Traces(); o.list = out; o.last = x
        return o
    def last_state(self, tr): return tr.last.y, tr.last.theta, tr.last.z, tr.last.isBlocked
    def walked(self, name, l, i, pred): pass
    def is_one_of(self, x, l): return any(x is y for y in l)
    # ---- assume / check
    def assume(self, cond):
        if not cond: raise Discard('assume')
    def fact(self, cond):
        if not cond: raise Discard('fact')
    def check(self, name, cond):
        self.checks += 1
        if not cond: raise CheckFailed(name)
    lemma = check
    def equal(self, a, b):
        if a is b: return True
        if a is None or b is None: return False
        if isinstance(a, (bool, str)) or isinstance(b, (bool, str)): return a == b
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            return len(a) == len(b) and all(self.equal(x, y) for x, y in zip(a, b))
        if isinstance(a, self.ns.Ray) and isinstance(b, self.ns.Ray):
            return all(self.equal(getattr(a, f), getattr(b, f)) for f in ('y', 'theta', 'z', 'isBlocked', 'apertureDiameter', 'wavelength'))
        if isinstance(a, self.ns.Matrix) and isinstance(b, self.ns.Matrix):
            if type(a) is not type(b): return False
            da, db = a.__dict__, b.__dict__
            skip = ('figure', 'design', 'iteration', '_lastRayTrace', '_lastRayToBeTraced')
            return set(da) - set(skip) == set(db) - set(skip) and all(self.equal(da[k], db[k]) for k in da if k not in skip)
        try:
            if isinstance(a, complex) or isinstance(b, complex):
                a, b = complex(a), complex(b)
                return abs(a - b) <= self.tol * (1 + abs(a) + abs(b))
            a, b = float(a), float(b)
        except (TypeError, ValueError):
            return bool(a == b)
        if a != a or b != b: return a != a and b != b
        if math.isinf(a) or math.isinf(b): return a == b
        return abs(a - b) <= self.tol * (1 + abs(a) + abs(b))
    def eq(self, name, a, b):
        self.checks += 1
        if not self.equal(a, b): raise CheckFailed('%s: %r is not %r' % (name, a, b))
    def implied(self, name, cond, a, b):
        if cond: self.eq(name, a, b)
    def same_object(self, name, a, b):
        self.checks += 1
        if a is not b: raise CheckFailed(name)
    def fail(self, name): raise CheckFailed(name)
    def attempt(self, f):
        try: return Outcome(value=f())
        except (CheckFailed, Discard): raise
        except Exception as e: return Outcome(exc=e)
    # ---- logic
    def and_(self, *a): return all(a)
    def or_(self, *a): return any(a)
    def not_(self, a): return not a
    def implies(self, a, b): return (not a) or b
    def iff(self, a, b): return bool(a) == bool(b)
    def ite(self, c, a, b): return a if c else b
    def abs(self, x): return abs(x)
    def le(self, a, b): return a <= b + self.tol * (1 + abs(a) + abs(b))
    def lt(self, a, b): return a <= b + self.tol * (1 + abs(a) + abs(b))
    def raw(self, o, f): return getattr(o, f)
    def opt(self, v):
        if isinstance(v, Opt): return v
        return Opt(v is not None, v if v is not None else 0.0)
    def from_opt(self, o): return o.val if o.present else None
    def close(self, a, b, tol): return abs(a - b) <= tol
    def separated(self, a, b):
        """rounding must not decide"""
        if math.isinf(a) or math.isinf(b): return
        if a != b and abs(a - b) <= 1e-7 * (1 + abs(a) + abs(b)): raise Discard('too close to call')
    def distinct(self, a, b):
        """like separated, and exact equality is out as well (values computed in different ways)"""
        if math.isinf(a) or math.isinf(b): return
        if abs(a - b) <= 1e-7 * (1 + abs(a) + abs(b)): raise Discard('too close to call')
    def distinct_or_equal(self, a, b): self.separated(a, b)
    def isinf(self, x): return num(x) and math.isinf(x)
    def force(self, x): return x
    # ---- sequences
    def len(self, l): return len(l)
    def list(self, l): return list(l)
    def at(self, l, i): return l[i]
    def isinstance(self, o, cls): return isinstance(o, cls)
    def as_list(self, l): return list(l)
    def ghost_index(self, name, l): return self.int(name, 0, max(0, len(l)))
    def neighbours_match(self, l, i): pass
    def copy(self, l): return list(l)
    def element_of_any_kind(self, name='m', **opts):
        e = self.element(name, None, dict(opts, groups=True))
        self.inputs[name] = self.describe(e)
        return e
    def position(self, name, l):
        if not len(l): raise Discard('empty')
        return self.int(name, 0, len(l) - 1)
    def forall(self, name, l, f):
        for i in range(len(l)): f(i, l[i])
    def fold(self, l, medium=None):
        l = list(l)
        if medium is None: medium = self.spec(l[0]).fi if l else 1.0
        acc = MSpec(fi=medium, bi=medium)
        for x in l: acc = self.mul(self.spec(x), acc)
        return acc
    def chain(self, l):
        l = list(l)
        return all(a.backIndex == b.frontIndex for a, b in zip(l, l[1:]))
    def seq_eq(self, name, a, b):
        self.checks += 1
        a, b = list(a), list(b)
        if len(a) != len(b): raise CheckFailed('%s: %d items instead of %d' % (name, len(a), len(b)))
        for i, (x, y) in enumerate(zip(a, b)):
            if x is not y and not self.equal(x, y): raise CheckFailed('%s: item %d: %r is not %r' % (name, i, x, y))
