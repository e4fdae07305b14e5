"""Contracts of rays crossing one element (C02) and of looking up rays (C15)."""
from rtv.api import *

RAY = ('y', 'theta', 'z', 'isBlocked', 'apertureDiameter', 'wavelength')

def ray_state(g, r): return dict((f, g.raw(r, f)) for f in RAY)

def eq_ray(g, name, r, s, fields=RAY):
    """ray r has the content s"""
    s = s if isinstance(s, dict) else ray_state(g, s)
    for f in fields: g.check('%s: %s' % (name, f), g.equal(g.raw(r, f), s[f]))

def stopped(g, m, r):
    """the entrance of the element stops the ray"""
    ap, na = g.force(m.apertureDiameter), g.force(m.apertureNA)
    y, th = g.abs(g.raw(r, 'y')), g.abs(g.raw(r, 'theta'))
    g.distinct_or_equal(y, ap / 2); g.distinct_or_equal(th, na)
    return g.or_(g.t(y > ap / 2), g.t(th > na))

def crossing(g, m, r):
    """contract of an element acting on a ray: content of the output ray"""
    s = g.spec(m); y, th = g.raw(r, 'y'), g.raw(r, 'theta')
    return dict(y=s.A * y + s.B * th, theta=s.C * y + s.D * th, z=g.raw(r, 'z') + s.L, isBlocked=stopped(g, m, r), apertureDiameter=g.force(m.apertureDiameter))

@harness('C02', under=['Matrix.__mul__', 'Matrix.mul_ray'])
def ray_through_an_element(g):
    m = g.matrix('m'); r = g.ray('r', blocked=False)
    sm, sr = g.spec(m), ray_state(g, r)
    want = crossing(g, m, r)
    o = m * r
    g.check('a ray', isinstance(o, g.ns.Ray))
    for f in ('y', 'theta', 'z', 'apertureDiameter'): g.eq('out ' + f, g.raw(o, f), want[f])
    g.check('blocked exactly by the aperture', g.iff(g.raw(o, 'isBlocked'), want['isBlocked']))
    g.check('a new ray', o is not r)
    eq_ray(g, 'input ray untouched', r, sr); g.eq_spec('element untouched', m, sm)

@harness('C02', under=['Matrix.mul_ray', 'Axicon.mul_ray', 'Matrix.trace', 'Matrix.traceThrough'])
def blocked_ray_is_not_propagated(g):
    m = g.matrix('m') if g.choice('kind', [0, 1]) == 0 else axicon(g)
    r = g.ray('r', blocked=True)
    sr = ray_state(g, r)
    for name, o in (('product', m * r), ('trace', m.trace(r)[-1]), ('traceThrough', m.traceThrough(r))):
        for f in ('y', 'theta', 'z'): g.eq('%s: same %s' % (name, f), g.raw(o, f), sr[f])
        g.check(name + ': still blocked', g.t(g.raw(o, 'isBlocked')))
    eq_ray(g, 'input ray untouched', r, sr)

def axicon(g):
    a = g.matrix('x', cls=g.ns.Axicon, L=0.0, frontIndex=1.0, backIndex=1.0, A=1.0, B=0.0, C=0.0, D=1.0) if g.symbolic else g.ns.Axicon(alpha=1.0, n=1.5)
    d = a.__dict__
    d['n'] = g.index('n'); d['alpha'] = g.real('alpha')
    if not g.symbolic: d['apertureDiameter'] = g.aperture('x.ap')
    return a

@harness('C02', 'C08', under=['Axicon.mul_ray', 'Axicon.deviationAngle', 'Matrix.mul_ray'])
def ray_through_an_axicon(g):
    a = axicon(g); r = g.ray('r', blocked=False)
    sr = ray_state(g, r)
    want = crossing(g, a, r)
    y = sr['y']
    dev = (a.n - 1) * a.alpha
    g.eq('deviation angle', a.deviationAngle(), dev)
    o = a * r
    g.eq('height', g.raw(o, 'y'), y); g.eq('position', g.raw(o, 'z'), sr['z'])
    g.eq('deviated toward the axis', g.raw(o, 'theta'), g.ite(g.t(y > 0), sr['theta'] - dev, g.ite(g.t(y < 0), sr['theta'] + dev, sr['theta'])))
    g.check('blocked exactly by the aperture', g.iff(g.raw(o, 'isBlocked'), want['isBlocked']))
    eq_ray(g, 'input ray untouched', r, sr)

@harness('C02', under=['Matrix.trace', 'Matrix.traceThrough', 'Matrix.mul_ray'])
def trace_of_an_element(g):
    kind = g.choice('kind', ['matrix', 'axicon'])
    m = g.matrix('m', nonneg=True) if kind == 'matrix' else axicon(g)
    r = g.ray('r'); sr = ray_state(g, r)
    L = g.raw(m, 'L')
    ap = g.force(m.apertureDiameter)
    g.distinct_or_equal(g.abs(sr['y']), ap / 2)
    out = m * r
    t = m.trace(r)
    n = g.len(t)
    g.check('entrance and exit, or exit alone', g.iff(g.t(L > 0), g.t(n == 2)))
    g.check('one or two rays', g.or_(n == 1, n == 2))
    hit = g.t(g.abs(sr['y']) > ap / 2)
    if n == 2:
        e = t[0]
        for f in ('y', 'theta', 'z'): g.eq('entrance ' + f, g.raw(e, f), sr[f])
        g.check('blocked at the entrance by the aperture', g.iff(g.raw(e, 'isBlocked'), g.or_(sr['isBlocked'], hit)))
        # a ray stopped at the entrance is not propagated
        if g.t(e.isBlocked):
            for f in ('y', 'theta', 'z'): g.eq('stopped ray stays there: ' + f, g.raw(t[1], f), sr[f])
            g.check('stopped ray stays blocked', g.t(t[1].isBlocked))
        else: eq_ray(g, 'exit', t[1], ray_state(g, out))
    else: eq_ray(g, 'exit', t[0], ray_state(g, out))
    eq_ray(g, 'input ray untouched', r, sr)
    o = m.traceThrough(r)
    eq_ray(g, 'traced through', o, ray_state(g, t[-1]))
    eq_ray(g, 'input ray untouched', r, sr)

# ---------------------------------------------------------------------------------------- looking up rays
@harness('C15', under=['Ray.at'])
def straight_line(g):
    r = g.ray('r'); z = g.real('z'); sr = ray_state(g, r)
    o = r.at(z)
    g.eq('height', g.raw(o, 'y'), sr['y'] + (z - sr['z']) * sr['theta'])
    g.eq('angle', g.raw(o, 'theta'), sr['theta']); g.eq('position', g.raw(o, 'z'), z)
    g.check('blocked state', g.iff(g.raw(o, 'isBlocked'), sr['isBlocked']))
    eq_ray(g, 'ray untouched', r, sr)
    g.eq('back again', g.raw(o.at(sr['z']), 'y'), sr['y'])

@harness('C15', under=['Ray.along', 'Ray.at'])
def ray_along_a_trace(g):
    """positions along a trace never decrease; j stands for any position in it"""
    T = g.rays('T', lo=1, sorted=True); before = g.copy(T)
    z = g.real('z')
    j = g.position('j', T)
    n = g.len(T)
    rj = T[j]
    last = T[n - 1]
    first = T[0]
    where = g.choice('where', ['there', 'between', 'beyond', 'before'])
    g.walked('before j', T, j, lambda r: r.z < z)
    g.walked('before j+1', T, j + 1, lambda r: r.z < z) if (not g.symbolic or j + 1 < n) else None
    g.walked('before the first', T, 0, lambda r: r.z < z)
    if g.drawn: z = {'there': rj.z, 'beyond': last.z + abs(z) + 1, 'before': first.z - abs(z) - 1}.get(where, z if j + 1 == n else (rj.z + T[j + 1].z) / 2)
    if where == 'there':
        g.assume(rj.z == z)
        o = g.ns.Ray.along(T, z)
        g.check('a traced ray', g.is_one_of(o, T)); g.eq('located there', o.z, z)
    elif where == 'between':
        g.assume(j + 1 < n)
        nxt = T[j + 1]
        g.assume(rj.z < z); g.assume(nxt.z > z)
        sr = ray_state(g, rj)
        o = g.ns.Ray.along(T, z)
        g.eq('height', g.raw(o, 'y'), sr['y'] + (z - sr['z']) * sr['theta'])
        g.eq('angle', g.raw(o, 'theta'), sr['theta']); g.eq('position', g.raw(o, 'z'), z)
        g.check('blocked state', g.iff(g.raw(o, 'isBlocked'), sr['isBlocked']))
        eq_ray(g, 'ray untouched', rj, sr)
    elif where == 'beyond':
        g.assume(last.z < z); g.assume(j == n - 1)
        o = g.ns.Ray.along(T, z)
        g.same_object('the last ray', o, last)
    else:
        g.assume(z < first.z)
        sr = ray_state(g, first)
        o = g.ns.Ray.along(T, z)
        g.eq('height', g.raw(o, 'y'), sr['y'] + (z - sr['z']) * sr['theta'])
        g.eq('angle', g.raw(o, 'theta'), sr['theta']); g.eq('position', g.raw(o, 'z'), z)
    g.seq_eq('the trace is untouched', T, before)

LOOK = {}
@stub('Ray.along@any')
def stub_along(g, rayTrace, z):
    """contract ray_along_a_trace: some ray, function of the trace and of the position"""
    g.check('looked up at the position asked', g.equal(z, LOOK['z']) if not g.isinf(LOOK['z']) else g.isinf(z))
    return g.image(rayTrace[0])

@harness('C15', under=['Matrix.profileFromRayTraces', 'Rays.append', 'Ray.isNotBlocked'], uses=['Ray.along@any'])
def profile_of_many_traces(g):
    """the unblocked rays found at the position, one per trace, in order"""
    m = g.matrix('m'); R = g.rays('R')
    z = g.choice('where', [None, 'z']) and g.real('z')
    LOOK['z'] = float('inf') if z is None else z
    if g.symbolic: T = g.map_list(R, lambda r: g.list([r]))
    else: T = [[g.ray('t%d.%d' % (i, j)) for j in range(g.rng.randrange(1, 4))] for i in range(len(R))]
    if not g.symbolic:
        for t in T: t.sort(key=lambda r: r.z)
        if z is not None and T and g.rng.random() < 0.5: z = LOOK['z'] = g.rng.choice(g.rng.choice(T)).z
    before = g.copy(T)
    W = g.filter_list('profile', T, lambda t: g.ns.Ray.along(t, z=LOOK['z']), lambda r: g.not_(g.t(r.isBlocked)))
    out = m.profileFromRayTraces(T) if z is None else m.profileFromRayTraces(T, z=z)
    g.check('a collection', g.isinstance(out, g.ns.Rays))
    if g.symbolic: g.seq_eq('rays', out.rays, W)
    else:
        g.check('as many', len(out.rays) == len(W))
        for a, b in zip(out.rays, W): eq_ray(g, 'ray', a, ray_state(g, b))
    g.seq_eq('traces untouched', T, before)
