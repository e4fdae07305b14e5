"""Contracts of ray sources (C17)."""
from rtv.api import *
from contracts.c_rays import describes
INF = float('inf')
from math import pi as PI

def count(g, name, hi=None):
    """any number of rows or columns"""
    return g.int(name, 0, 6 if not g.symbolic else None)

def bounds(g, name):
    """any interval (lo <= hi)"""
    lo = g.real(name + '.lo'); d = g.real(name + '.d', nonneg=True)
    return lo, lo + d

def within(g, name, r, ylo, yhi, tlo, thi):
    g.check(name + ': height', g.and_(g.le(ylo, r.y), g.le(r.y, yhi)))
    g.check(name + ': angle', g.and_(g.le(tlo, r.theta), g.le(r.theta, thi)))

def fresh(g, name, r):
    """a ray that has not travelled yet"""
    g.check(name + ': not blocked', g.not_(r.isBlocked))
    g.eq(name + ': position', r.z, 0)

def uniform_grid(g, ylo, yhi, tlo, thi, M, N, single='centre'):
    def ray(i, j):
        if single == 'centre' and M == 1: y = (ylo + yhi) / 2
        else: y = g.grid(ylo, yhi, M, i)
        return g.ns.Ray(y, g.grid(tlo, thi, N, j))
    if M > 0 and N > 0:
        i, j = g.below('i', M), g.below('j', N)
        within(g, 'any ray', ray(i, j), ylo, yhi, tlo, thi)
        fresh(g, 'any ray', ray(i, j))
    return g.nested('grid', [M, N], ray)

@harness('C17', under=['UniformRays.__init__', 'Ray.__init__'])
def uniform_rays(g):
    """M heights by N angles, equally spaced from bound to bound, each height with all angles"""
    M, N = count(g, 'M'), count(g, 'N')
    ylo, yhi = bounds(g, 'y'); tlo, thi = bounds(g, 't')
    W = uniform_grid(g, ylo, yhi, tlo, thi, M, N)
    C = g.ns.UniformRays(yMax=yhi, yMin=ylo, thetaMax=thi, thetaMin=tlo, M=M, N=N)
    describes(g, C, W, 'grid')
    g.eq('count', C.count, M * N)

@harness('C17', under=['UniformRays.__init__'])
def uniform_rays_symmetric_bounds(g):
    """a lower bound not given is the opposite of the upper one"""
    M, N = count(g, 'M'), count(g, 'N')
    y, t = g.real('y', nonneg=True), g.real('t', nonneg=True)
    W = uniform_grid(g, -y, y, -t, t, M, N)
    C = g.ns.UniformRays(yMax=y, thetaMax=t, M=M, N=N)
    g.seq_eq('rays', C.rays, W)
    g.eq('count', C.count, M * N)

@harness('C17', under=['ObjectRays.__init__'])
def object_rays(g):
    """H heights over the diameter, T angles within the half angle, at the position and with the look asked"""
    H, T = count(g, 'H'), count(g, 'T')
    d, a, z = g.real('d', nonneg=True), g.real('a', nonneg=True), g.real('z')
    W = uniform_grid(g, -d / 2, d / 2, -a, a, H, T)
    label = g.choice('label', [None, 'object'])
    C = g.ns.ObjectRays(diameter=d, halfAngle=a, H=H, T=T, z=z, rayColors=['b'], color='r', label=label)
    describes(g, C, W, 'object')
    g.eq('count', C.count, H * T)
    g.eq('position', C.z, z); g.check('label', C.label == label); g.check('colours', g.equal(C.rayColors, ['b']) and C.color == 'r')

@harness('C17', under=['LampRays.__init__'])
def lamp_rays(g):
    """a lamp on a grid: N heights by T angles (H is another name for N)"""
    N, T = count(g, 'N'), count(g, 'T')
    d, a, z = g.real('d', nonneg=True), g.real('a', nonneg=True), g.real('z')
    W = uniform_grid(g, -d / 2, d / 2, -a, a, N, T, single='first')
    if N != 0 and g.choice('H', [0, 1]): C = g.ns.LampRays(diameter=d, NA=a, H=N, T=T, z=z, label='lamp')
    else: C = g.ns.LampRays(diameter=d, NA=a, N=N, T=T, z=z, label='lamp')
    n = N * T
    g.eq('promised', C.maxCount, n)
    g.eq('count', C.count, n)
    g.eq('length', g.len_of(C), n)
    g.seq_eq('rays', C.rays, W)
    g.eq('position', C.z, z); g.check('label', C.label == 'lamp')
    if n > 0:
        i, j = g.below('row', N), g.below('column', T)
        r = C[i * T + j] if not g.symbolic else None
        if r is not None: g.check('ray of row and column', g.equal(r, g.at(W, i * T + j)))

@harness('C17', under=['LambertianRays.__init__'], weight=9, timeouts=(300, 1500))
def lambertian_rays(g):
    """N angles over the half circle by M heights, each repeated in proportion to the cosine of its angle"""
    if g.drawn and g.choice('many', [0, 0, 1]): M, N, I = 1, g.int('N', 2, 50), g.int('I', 0, 70)
    else:
        M, N = count(g, 'M'), count(g, 'N')
        I = g.int('I', 0, 9 if not g.symbolic else None)
    ylo, yhi = bounds(g, 'y')
    half = PI / 2
    def angle(i): return g.grid(-half, half, N, i)
    def ray(i, j, k): return g.ns.Ray(g.grid(ylo, yhi, M, j), angle(i))
    if not g.symbolic:      # machine arithmetic: counts that rounding may change are left out
        for k in range(N): g.assume(abs(g.cos(angle(k)) - 1) < 1e-12 or abs(I * g.cos(angle(k)) - round(I * g.cos(angle(k)))) > 1e-9 or k in (0, N - 1))
    W = g.nested('lambert', [N, M, lambda i, *js: g.truncated(I * g.cos(angle(i)))], ray)
    if M > 0 and N > 0:
        i, j = g.below('i', N), g.below('j', M)
        within(g, 'any ray', ray(i, j, 0), ylo, yhi, -half, half)
    C = g.ns.LambertianRays(yMax=yhi, yMin=ylo, M=M, N=N, I=I)
    g.seq_eq('rays', C.rays, W)
    g.eq('count', C.count, g.len_of(C.rays))

# --- rays drawn one by one
def sources(g):
    """a source that draws its rays, within any bounds, and its bounds"""
    kind = g.choice('kind', ['uniform', 'lambertian', 'gaussian', 'lamp'])
    n = g.int('n', 0, 5 if not g.symbolic else None)
    half = PI / 2
    if kind == 'uniform':
        ylo, yhi = bounds(g, 'y'); tlo, thi = bounds(g, 't')
        return g.ns.RandomUniformRays(yMax=yhi, yMin=ylo, thetaMax=thi, thetaMin=tlo, maxCount=n), n, (ylo, yhi, tlo, thi)
    if kind == 'lambertian':
        ylo, yhi = bounds(g, 'y')
        return g.ns.RandomLambertianRays(yMax=yhi, yMin=ylo, maxCount=n), n, (ylo, yhi, -half, half)
    if kind == 'gaussian':
        w = g.real('w', pos=True)
        return g.ns.GaussianProfileUniformRays(w, maxCount=n), n, (-4 * w, 4 * w, -half, half)
    d, a = g.real('d', nonneg=True), g.real('a', nonneg=True)
    return g.ns.LampRays(diameter=d, NA=a, N=n, random=True), n, (-d / 2, d / 2, -a, a)

@harness('C17', under=['RandomUniformRays.__init__', 'RandomUniformRays.randomRay', 'RandomLambertianRays.__init__', 'RandomLambertianRays.randomRay',
                       'GaussianProfileUniformRays.__init__', 'GaussianProfileUniformRays.randomRay', 'LampRays.__init__', 'RandomRays.__init__', 'Rays.append'], weight=2)
def draw_one_ray(g):
    """one more ray, within the bounds, after those already drawn; none beyond the count promised"""
    C, n, b = sources(g)
    g.eq('promised', g.len_of(C), n)
    R = g.rays('drawn'); before = g.copy(R)
    g.assume(g.len(R) <= n)
    C._rays = R
    full = g.len(R) == n
    out = g.attempt(lambda: C.randomRay())
    if full:
        g.check('no more', out.raised(AttributeError))
        g.seq_eq('untouched', C._rays, before); return
    g.check('drawn', out.ok)
    within(g, 'the ray', out.value, *b)
    fresh(g, 'the ray', out.value)
    g.seq_eq('comes last', C._rays, before + g.list([out.value]))

@harness('C17', under=['RandomUniformRays.__init__', 'RandomLambertianRays.__init__', 'RandomRays.__init__'])
def random_symmetric_bounds(g):
    y, t = g.real('y', nonneg=True), g.real('t', nonneg=True)
    n = g.int('n', 1, 5 if not g.symbolic else None)
    if g.choice('lambertian', [0, 1]): C = g.ns.RandomLambertianRays(yMax=y, maxCount=n); t = PI / 2
    else: C = g.ns.RandomUniformRays(yMax=y, thetaMax=t, maxCount=n)
    within(g, 'ray', C.randomRay(), -y, y, -t, t)

def drawn_so_far(g, C, n):
    """the source after any number of draws; its next rays are arbitrary"""
    R = g.rays('drawn'); g.assume(g.len(R) <= n)
    C._rays = R
    return g.copy(R)

def any_source(g, n):
    """a source (any class) of n rays whose next rays are arbitrary: randomRay() appends one"""
    later = g.stream('later')
    class Source(g.ns.RandomRays):
        def randomRay(self):
            r = later(g.len(self._rays) - m)
            self.append(r)
            return r
    C = Source(maxCount=n)
    R = g.rays('drawn'); g.assume(g.len(R) <= n)
    m = g.len(R)
    C._rays = R
    return C, g.copy(R), later

@harness('C17', under=['RandomRays.__getitem__', 'RandomRays.__len__'], weight=2)
def ray_of_a_random_source(g):
    """ray i is drawn when asked and never changes; no more rays than needed; none out of range"""
    n = g.int('n', 0, 6 if not g.symbolic else None)
    C, before, later = any_source(g, n)
    m = g.len(before)
    i = g.int('i', -8 if not g.symbolic else None, 8 if not g.symbolic else None)
    k = i + n if i < 0 else i
    g.loop_invariant('no more than needed', lambda j: g.or_(g.t(j == 0), g.t(m + j <= k + 1)))
    out = g.attempt(lambda: C[i])
    if g.or_(g.t(k < 0), g.t(k >= n)):
        g.check('refused', out.raised(IndexError)); g.seq_eq('nothing drawn', C._rays, before); return
    g.check('given', out.ok)
    if k < m:
        g.seq_eq('nothing drawn', C._rays, before)
        g.check('the one drawn', out.value is before[k] if not g.symbolic else g.equal(out.value, before[k]))
    else:
        g.seq_eq('drawn up to it', C._rays, before + g.stream_list(later, k - m + 1))
        g.check('the one drawn', g.equal(out.value, later(k - m)))
        again = C[i]
        g.check('the same', g.equal(again, out.value))
        g.seq_eq('nothing more drawn', C._rays, before + g.stream_list(later, k - m + 1))
    g.eq('promised', g.len_of(C), n)

@harness('C17', under=['RandomRays.__next__', 'Rays.__iter__'], weight=2)
def iterate_a_random_source(g):
    """iterating gives ray 0, 1, .. and stops after the number promised"""
    n = g.int('n', 0, 6 if not g.symbolic else None)
    C, before, later = any_source(g, n)
    m = g.len(before)
    k = g.int('k', 0, 7 if not g.symbolic else None); g.assume(k <= n)
    it = C.__iter__()
    g.check('itself', it is C); g.eq('restarts', C.iteration, 0)
    C.iteration = k
    g.loop_invariant('no more than needed', lambda j: g.or_(g.t(j == 0), g.t(m + j <= k + 1)))
    out = g.attempt(lambda: C.__next__())
    if k == n:
        g.check('stops', out.raised(StopIteration)); g.seq_eq('nothing drawn', C._rays, before); return
    g.check('a ray', out.ok); g.eq('one further', C.iteration, k + 1)
    if k < m: g.check('ray k', g.equal(out.value, before[k])); g.seq_eq('nothing drawn', C._rays, before)
    else: g.check('ray k', g.equal(out.value, later(k - m))); g.seq_eq('drawn up to it', C._rays, before + g.stream_list(later, k - m + 1))

@harness('C17', under=['RandomRays.__getitem__', 'RandomRays.__next__', 'RandomUniformRays.randomRay', 'RandomLambertianRays.randomRay',
                       'GaussianProfileUniformRays.randomRay'], mode='con', cases=200)
def whole_random_source(g):
    """bounded: all rays of a source, looked up and iterated in any order"""
    C, n, b = sources(g)
    seen = {}
    for s in range(6):
        what = g.choice('do%d' % s, ['get', 'iterate', 'part'])
        if what == 'get' and n:
            i = g.int('i%d' % s, -n, n - 1); r = C[i]; i %= n
            g.check('same ray', seen.setdefault(i, r) is r)
        elif what == 'iterate':
            k = 0
            for r in C:
                g.check('same ray', seen.setdefault(k, r) is r); within(g, 'ray', r, *b); k += 1
            g.eq('as many as promised', k, n)
        elif what == 'part':
            for k, r in enumerate(C):
                g.check('same ray', seen.setdefault(k, r) is r)
                if k == s: break
    g.eq('count', g.len_of(C), n); g.check('kept', len(C._rays) <= n)
