"""Contracts of the aperture stop, the pupil, the marginal, axial and chief rays (C13)."""
from rtv.api import *
from contracts.c_ray import eq_ray, ray_state
INF = float('inf')
EPS = 1e-5

@stub('MatrixGroup.trace@thin')
def stub_trace(g, P, ray):
    """contract linear_trace: heights along a path are linear in the ray, until it is blocked"""
    r = g.force(ray)
    g.check('a ray that is not blocked', g.and_(g.isinstance(r, g.ns.Ray), g.not_(g.t(g.raw(r, 'isBlocked')))))
    return g.trace_in(g.system, g.raw(r, 'y'), g.raw(r, 'theta'))

@stub('MatrixGroup.hasFiniteApertureDiameter@known')
def stub_has_finite(g, P):
    """contract finite_apertures_of_a_group"""
    return g.any_finite

@harness('C13', under=['ImagingPath.apertureStop'], uses=['MatrixGroup.trace@thin', 'MatrixGroup.hasFiniteApertureDiameter@known'], mode='sym')
def aperture_stop(g):
    """the ray from the axis that fills the stop is stopped nowhere else: no aperture reported along a trace (linear_trace: at least at the
    exit of every element) is smaller compared to its height"""
    P = g.group(g.elements('E'), cls='ImagingPath')
    S = g.system = g.thin_system('T')
    g.any_finite = g.bool('any')
    i = g.int('i', lo=0)
    g.assume(i < g.val(S.n))
    g.largest_seen(S, i)
    stop = P.apertureStop()
    z, D = stop
    if not g.t(g.any_finite):
        g.check('absent', z is None and D == INF); return
    g.check('reported', z is not None)
    # some aperture limits the cone
    if g.t(g.limits(S, i)):
        g.check_any('its position and diameter are those of an aperture, and no other is smaller compared to the height of a ray from the axis',
            g.witnesses(), lambda w: g.and_(g.equal(z, g.val(S.z(w.t))), g.equal(D, g.val(S.reported(w.t))), g.not_(g.val(S.free(w.t))),
                g.abs(g.val(S.b(i.t))) * g.val(S.reported(w.t)) <= g.abs(g.val(S.b(w.t))) * g.val(S.reported(i.t))))

@stub('ImagingPath.apertureStop@any')
def stub_stop(g, P):
    """contract aperture_stop: a position and a diameter, or none"""
    return g.ns.Stop(*g.the_stop)

@stub('ImagingPath.halfFieldOfView@any')
def stub_half(g, P):
    """contract half_field_of_view (C14)"""
    return g.half

@stub('MatrixGroup.transferMatrix@to_the_stop')
def stub_to_stop(g, P, upTo=INF):
    """contract part_of_a_group (C05)"""
    z, T = g.partial
    g.check('asked for the matrix to the stop', g.equal(upTo, z))
    return g.element_from(T)

THIN = ['Space', 'Space', 'Lens', 'Lens', 'Aperture', 'Interface', 'Mirror']
THICK = THIN + ['ThickLens', 'Slab']

def path_with_stop(g, allow_none=True):
    """an imaging path, its aperture stop and the matrix up to it"""
    if g.symbolic:
        P = g.group(g.elements('E'), cls='ImagingPath')
        if allow_none and g.choice('stop', [True, False]) is False:
            g.the_stop = (None, INF); T = None
        else:
            g.the_stop = (g.real('z', nonneg=True), g.force(g.aperture('D')))
            T = g.spec(g.matrix('T'))
        g.partial = (g.the_stop[0], T)
    else:
        P = some_path(g)
        g.the_stop = tuple(P.apertureStop())
        T = None if g.the_stop[0] is None else g.spec(P.transferMatrix(upTo=g.the_stop[0]))
        if T is not None and (1e-7 < abs(T.B) < 1e-3 or abs(T.B) > 1e9): raise Discard('almost imaging')
    return P, g.the_stop[0], g.the_stop[1], T

def some_path(g, dense=False):
    """(run time) a path of elements of the library"""
    if not g.drawn or g.choice('thin', [True, True, False]): E = g.elements('E', con_kinds=THIN, air=True, thin=True)
    else: E = g.elements('E', con_kinds=THICK, air=True, divisible=True)
    if dense:
        for e in E:
            if e.L == 0 and e.apertureDiameter == INF and g.choice('finite', [True, True, False]): e.apertureDiameter = g.real('D', pos=True)
    return g.group(E, cls='ImagingPath')

def imaging(g, T):
    g.distinct(g.abs(T.B), EPS)
    return g.t(g.abs(T.B) < EPS)

def state_of(g, P): return g.spec(P)

@harness('C13', under=['ImagingPath.marginalRays', 'Matrix.isImaging'], uses=['ImagingPath.apertureStop@any', 'MatrixGroup.transferMatrix@to_the_stop'], cases=400)
def marginal_rays(g):
    """they cross the plane of the stop exactly at its upper and lower edges"""
    P, z, D, T = path_with_stop(g)
    y = g.real('y')
    default = g.choice('default', [False, True])
    if default: y = 0
    m = P.marginalRays() if default else P.marginalRays(y)
    up, down = m
    if z is None: g.check('none without a stop', up is None and down is None); return
    if imaging(g, T): g.check('none when the stop is at an image of the object', up is None and down is None); return
    if g.isinf(D): return
    for name, r in (('up', up), ('down', down)):
        g.check(name + ' is a ray', g.isinstance(r, g.ns.Ray))
        g.eq(name + ' starts at the height asked for', r.y, y); g.eq(name + ' starts at the front', r.z, 0)
        g.check(name + ' is not blocked', g.not_(g.t(r.isBlocked)))
    a, b = T.A * y + T.B * up.theta, T.A * y + T.B * down.theta
    g.eq('the edges are a diameter apart', g.abs(a - b), D)
    g.eq('on both sides of the centre', a + b, 0)
    g.check('up is the steeper', g.t(up.theta > down.theta))
    g.check('by name', m.up is up and m.down is down)

@harness('C13', under=['ImagingPath.axialRay'], uses=['ImagingPath.apertureStop@any', 'MatrixGroup.transferMatrix@to_the_stop'])
def axial_ray(g):
    P, z, D, T = path_with_stop(g)
    r = P.axialRay()
    if z is None or imaging(g, T): g.check('none', r is None); return
    if g.isinf(D): return
    g.eq('from the axis', r.y, 0)
    g.eq('to the edge of the stop', g.abs(T.B * r.theta), D / 2)
    g.check('upwards', g.t(r.theta > 0))

@harness('C13', 'C14', under=['ImagingPath.chiefRay', 'Matrix.isImaging'], uses=['ImagingPath.apertureStop@any', 'ImagingPath.halfFieldOfView@any', 'MatrixGroup.transferMatrix@to_the_stop'])
def chief_ray(g):
    """it crosses the centre of the stop"""
    P, z, D, T = path_with_stop(g)
    default = g.choice('default', [False, True])
    if default and z is not None and not imaging(g, T):
        if g.symbolic: g.half = g.force(g.inf_or('half', g.real('half', nonneg=True)))
        else: g.half = P.halfFieldOfView()
        if g.isinf(g.half):
            g.check('a height is needed', g.attempt(lambda: P.chiefRay()).raised(ValueError)); return
        y = g.half
        r = P.chiefRay()
    else:
        y = g.real('y')
        r = P.chiefRay(y)
    if z is None: g.check('none without a stop', r is None); return
    if imaging(g, T): g.check('none when the stop is at an image of the object', r is None); return
    g.check('a ray', g.isinstance(r, g.ns.Ray))
    g.eq('starts at the height asked for', r.y, y); g.eq('starts at the front', r.z, 0)
    g.check('not blocked', g.not_(g.t(r.isBlocked)))
    g.eq('crosses the centre of the stop', T.A * y + T.B * r.theta, 0)

@harness('C14', 'C13', under=['ImagingPath.principalRay', 'ImagingPath.chiefRay'], uses=['ImagingPath.apertureStop@any', 'ImagingPath.halfFieldOfView@any', 'MatrixGroup.transferMatrix@to_the_stop'])
def principal_ray(g):
    """the chief ray from the edge of the field of view"""
    P, z, D, T = path_with_stop(g)
    if g.symbolic: g.half = g.force(g.inf_or('half', g.real('half', nonneg=True)))
    else: g.half = P.halfFieldOfView() if T is None or not imaging(g, T) else INF
    if not g.symbolic and T is not None and imaging(g, T): raise Discard('no chief ray')
    r = P.principalRay()
    if g.isinf(g.half) or z is None or imaging(g, T): g.check('none', r is None); return
    g.eq('from the edge of the field of view', r.y, g.half)
    g.eq('crosses the centre of the stop', T.A * r.y + T.B * r.theta, 0)

@harness('C13', under=['ImagingPath.hasApertureStop'], uses=['ImagingPath.apertureStop@any'])
def has_aperture_stop(g):
    P, z, D, T = path_with_stop(g)
    g.check('iff there is one', g.iff(P.hasApertureStop(), z is not None))

@harness('C13', under=['ImagingPath.entrancePupil', 'Matrix.backwardConjugate', 'Matrix.magnification', 'ImagingPath.fNumber'],
         uses=['ImagingPath.apertureStop@any', 'MatrixGroup.transferMatrix@to_the_stop', 'MatrixGroup.hasFiniteApertureDiameter@known', 'Matrix.__mul__', 'Matrix.isIdentity', 'Matrix.effectiveFocalLengths'])
def entrance_pupil(g):
    """the image of the stop in object space"""
    P, z, D, T = path_with_stop(g)
    g.any_finite = z is not None
    if g.symbolic and T is not None: g.assume(T.A != 0)        # telecentric in object space: run time only
    pupil = P.entrancePupil()
    N = P.fNumber()
    f = P.effectiveFocalLengths().f1
    if z is None:
        g.check('none', pupil.z is None and pupil.diameter is None); g.check('no f-number', N is None); return
    if g.t(T.A == 0):
        g.check('at infinity', pupil.diameter == INF); return
    zp, d = pupil
    g.eq('conjugate to the stop', T.A * -zp + T.B, 0)
    if g.isinf(D): g.check('not limiting', d == INF); return
    g.eq('its size is imaged on the stop', d * g.abs(T.A), D)
    if not g.isinf(f): g.eq('f-number: focal length over the diameter of the pupil', N * d, f)

@harness('C13', under=['ImagingPath.NA'], uses=['ImagingPath.apertureStop@any', 'MatrixGroup.transferMatrix@to_the_stop'])
def numerical_aperture(g):
    """front index times the sine of the angle of the axial ray"""
    P, z, D, T = path_with_stop(g)
    if z is None or imaging(g, T) or g.isinf(D): return
    th = P.axialRay().theta
    g.eq('numerical aperture', P.NA(), P.frontIndex * g.sin(th))

@harness('C13', mode='con', cases=1)
def stop_at_an_entrance(g):
    """this very path: a cone that converges fills the entrance of a tube before anything else"""
    ns = g.ns
    P = ns.ImagingPath()
    for e in (ns.Space(d=20), ns.Lens(f=10, diameter=20), ns.Space(d=18, diameter=5)): P.append(e)
    s = P.apertureStop()
    g.check('the stop is the entrance of the tube', s.z == 20 and s.diameter == 5)

@harness('C13', mode='con', cases=600)
def stop_of_a_random_path(g):
    """bounded: every quantity recomputed from rays propagated element after element"""
    P = some_path(g, dense=True)
    E = list(P.elements)
    y, th, pos, best = 0.0, 1.0, 0.0, None
    A, B = 1.0, 0.0
    limits, entrances = [], []
    a1, a2 = 1.0, 0.0           # heights of the rays (1, 0) and (0, 1)
    t1, t2 = 0.0, 1.0
    for e in E:
        def limit(where=None):
            if e.apertureDiameter != INF: (limits if where is None else where).append((e.apertureDiameter / abs(a2) if a2 != 0 else INF, pos, e.apertureDiameter, a1, a2))
        if e.L > 0: limit(entrances)
        a1, t1 = e.A * a1 + e.B * t1, e.C * a1 + e.D * t1
        a2, t2 = e.A * a2 + e.B * t2, e.C * a2 + e.D * t2
        pos += e.L
        limit()
    # an aperture that stops more at its entrance than any does farther: known finding, stop_at_an_entrance
    if entrances and min(l[0] for l in entrances) < min([l[0] for l in limits]) * (1 + 1e-9): raise Discard('the stop is at the entrance of an element')
    s = P.apertureStop()
    g.check('absent only without finite apertures', (s.z is None) == (not limits))
    g.check('has a stop', P.hasApertureStop() == bool(limits))
    if not limits:
        g.check('diameter', s.diameter == INF); return
    tol = max(limits, key=lambda x: -x[0])[0]
    if tol == INF or any(1e-9 < abs(l[4]) < 1e-3 or 0 < abs(l[4]) <= 1e-9 for l in limits): raise Discard('nothing limits the cone, or almost nothing')
    near = [l for l in limits if l[0] <= tol * (1 + 1e-9)]
    g.check('the aperture that limits the cone', any(abs(s.z - l[1]) < 1e-9 and s.diameter == l[2] for l in near))
    l = [l for l in near if abs(s.z - l[1]) < 1e-9 and s.diameter == l[2]][0]
    y0 = g.real('y')
    m = P.marginalRays(y0)
    for name, r, e in (('up', m.up, l), ('down', m.down, l)):
        g.eq(name + ' height at the edge of the stop', abs(l[3] * y0 + l[4] * r.theta), l[2] / 2)
    g.check('opposite edges', (l[3] * y0 + l[4] * m.up.theta) * (l[3] * y0 + l[4] * m.down.theta) < 0)
    g.check('up is the steeper', m.up.theta > m.down.theta)
    c = P.chiefRay(y0)
    g.eq('chief ray at the centre', 1 + l[3] * y0 + l[4] * c.theta, 1)
    ax = P.axialRay()
    g.check('axial ray', ax.y == 0 and ax.theta > 0); g.eq('its angle', abs(l[4]) * ax.theta, l[2] / 2)
    pupil = P.entrancePupil()
    if abs(l[3]) > 1e-6:
        g.eq('size of the pupil', pupil.diameter * abs(l[3]), l[2])
        g.eq('position of the pupil', l[3] * pupil.z, l[4])
        # the axial ray reaches the edge of the pupil
        g.eq('the axial ray goes for the edge of the pupil', abs(pupil.z * ax.theta), pupil.diameter / 2)
    elif l[3] == 0: g.check('pupil at infinity', pupil.diameter == INF)

@harness('C13', under=['Matrix.hasFiniteApertureDiameter', 'MatrixGroup.hasFiniteApertureDiameter'])
def finite_apertures_of_a_group(g):
    """true iff some element has a finite aperture"""
    what = g.choice('what', ['one has', 'none has', 'element'])
    if what == 'element':
        m = g.matrix('m')
        g.check('of an element', g.iff(m.hasFiniteApertureDiameter(), g.not_(g.isinf(g.force(m.apertureDiameter))))); return
    if what == 'one has':
        E = g.elements('E')
        i = g.position('i', E)
        ap = g.force(E[i].apertureDiameter)
        if g.isinf(ap):
            if g.symbolic: return
            raise Discard('infinite')
        want = True
    else:
        E = g.elements('E', fixed=dict(apertureDiameter=INF)); want = False
    P = g.group(E, cls='ImagingPath'); before = g.copy(E)
    if g.symbolic and want: g.walked('passed', E, i, lambda e: False)
    g.check('some finite aperture', g.iff(P.hasFiniteApertureDiameter(), want))
    g.seq_eq('elements untouched', P.elements, before)

@harness('C13', under=['Matrix.trace', 'Matrix.__mul__', 'Matrix.mul_ray'], cases=400)
def linear_trace(g):
    """induction step: a ray whose height and angle are linear in those it started with (coefficients of the elements met so far: p)
    crosses an element: so are those of every ray of the trace of the element, with the coefficients of the product; it is blocked
    exactly when its height at a thin element, or at the entrance of one of some length, is beyond the aperture, that the ray blocked, and
    the one that leaves, report"""
    kind = g.choice('element', ['thin', 'no aperture', 'of some length'])
    p = g.matrix('p')
    s = g.spec(p)
    if kind == 'thin': e = g.matrix('e', frontIndex=p.backIndex, L=0.0, A=1.0, B=0.0, apertureNA=INF)
    elif kind == 'no aperture': e = g.matrix('e', frontIndex=p.backIndex, nonneg=True, apertureDiameter=INF, apertureNA=INF)
    else: e = g.matrix('e', frontIndex=p.backIndex, nonneg=True, apertureNA=INF)
    L = g.raw(e, 'L')
    if kind == 'of some length' and g.t(L == 0): return
    y0, t0 = g.real('y0'), g.real('theta0')
    r = g.ray('r', blocked=False, y=s.A * y0 + s.B * t0, theta=s.C * y0 + s.D * t0)
    z = g.raw(r, 'z')
    before = g.force(g.raw(r, 'apertureDiameter'))
    q = g.mul(g.spec(e), s)
    ap = g.force(e.apertureDiameter)
    h = s.A * y0 + s.B * t0
    g.distinct_or_equal(g.abs(h), ap / 2)
    beyond = g.t(g.abs(h) > ap / 2)
    T = e.trace(r)
    o = T[-1]
    for x in T[:-1]:
        g.eq('at the entrance: height', x.y, h); g.eq('at the entrance: angle', x.theta, s.C * y0 + s.D * t0); g.eq('at the entrance: position', x.z, z)
        g.check('at the entrance: blocked iff beyond the aperture', g.iff(x.isBlocked, beyond))
        a = g.force(x.apertureDiameter)
        if g.t(beyond): g.check('at the entrance: blocked by this aperture', g.equal(a, ap))
        else: g.check('at the entrance: reports this aperture or the one before', g.or_(g.equal(a, ap), g.equal(a, before)))
    if g.t(L > 0) and g.t(beyond): g.check('stopped there', g.and_(g.t(o.isBlocked), g.equal(o.z, z))); return
    g.eq('height', o.y, q.A * y0 + q.B * t0); g.eq('angle', o.theta, q.C * y0 + q.D * t0)
    g.eq('position', o.z, z + L)
    g.check('reports this aperture', g.equal(g.force(o.apertureDiameter), ap))
    if kind == 'thin':
        g.eq('coefficients of the height unchanged', q.A, s.A); g.eq('and of the angle', q.B, s.B)
        g.check('one ray', g.len(T) == 1)
    g.check('blocked iff beyond the aperture', g.iff(o.isBlocked, beyond))
    # a blocked ray stays blocked: contract blocked_ray_is_not_propagated (C02)

# ---------------------------------------------------------------------------------------------- field of view (C14)
@stub('ImagingPath.chiefRay@of')
def stub_chief(g, P, y=None):
    """contract chief_ray"""
    if not g.has_chief: return None
    return chief_of(g, y)

@stub('ImagingPath.fieldStop@any')
def stub_field_stop(g, P):
    return g.ns.Stop(*g.the_field_stop)

def chief_of(g, y):
    """the chief ray of height y: its angle is known from the height"""
    return g.ns.Ray(y=y, theta=g.chief_angle(g.system, y))

def search_setup(g):
    """a path with thin apertures; heights of the chief ray of an object at y"""
    P = g.group(g.elements('E'), cls='ImagingPath', precision=g.real('precision', pos=True), maxHeight=g.real('maxHeight', pos=True))
    g.system = g.thin_system('T')
    g.has_chief = True
    g.partial = None
    return P

@stub('MatrixGroup.transferMatrix@some')
def stub_some(g, P, upTo=INF): return g.matrix('some')

@harness('C14', under=['ImagingPath.halfFieldOfView'], uses=['MatrixGroup.trace@thin', 'ImagingPath.chiefRay@of', 'ImagingPath.fieldStop@any', 'MatrixGroup.transferMatrix@some'], mode='sym', weight=2)
def half_field_of_view(g):
    """the chief ray of an object of that height is transmitted, that of an object less than twice the precision higher is not"""
    P = search_setup(g)
    g.the_field_stop = g.choice('field stop', [(None, INF), (g.real('zf'), g.real('Df', pos=True))])
    g.edge_search(g.system, P.precision, False)
    h = P.halfFieldOfView()
    if g.the_field_stop[0] is None: g.check('infinite without a field stop', h == INF); return
    if g.isinf(h): return
    g.check('never negative', g.t(h >= 0))
    g.check('transmitted', g.not_(g.chief_blocked(g.system, h)))
    g.check_any('blocked just beyond', g.edges(), lambda e: g.and_(g.chief_blocked(g.system, e), e > h, e - h <= 2 * P.precision))

@harness('C14', under=['ImagingPath.fieldStop'], uses=['MatrixGroup.trace@thin', 'ImagingPath.chiefRay@of', 'ImagingPath.apertureStop@any', 'MatrixGroup.hasFiniteApertureDiameter@known'], mode='sym', weight=2)
def field_stop(g):
    """the aperture that blocks the chief ray of an object; that of an object less than twice the precision lower is transmitted"""
    P = search_setup(g)
    g.any_finite = g.choice('finite', [False, True])
    g.the_stop = (g.real('z', nonneg=True), g.real('D', pos=True)) if g.any_finite else (None, INF)
    g.has_chief = g.choice('chief', [True, False])
    g.edge_search(g.system, P.precision, True)
    g.first_blocked()
    z, D = P.fieldStop()
    if not g.any_finite or not g.has_chief or g.t(g.the_stop[0] == 0): g.check('none', z is None and D == INF); return
    if z is None: g.check('infinite diameter', D == INF); return
    S = g.system
    def edge(w, e):
        """ray w of the chief ray from e is beyond this aperture; an object just below is seen"""
        c = g.chief_height(S, e, w)
        return g.and_(g.equal(z, g.val(S.z(w.t))), g.equal(D, g.val(S.ap(w.t))), g.not_(g.val(S.noap(w.t))), 2 * g.abs(c) > D)
    pairs = [(w, e) for w in g.witnesses() for e in g.edges()]
    g.check_any('the chief ray of an object is blocked there', pairs, lambda p: edge(*p))
    g.check_any('and that of an object just below is not', [(e, f) for e in g.edges() for f in g.edges() + [0.0]],
                lambda p: g.and_(g.chief_blocked(S, p[0]), g.not_(g.chief_blocked(S, p[1])), p[0] > p[1], p[0] - p[1] <= 2 * P.precision))

@harness('C14', mode='con', cases=2500)
def field_of_a_random_path(g):
    """bounded: the highest object whose chief ray gets through, recomputed from the heights of rays propagated element after element"""
    P = some_path(g, dense=True)
    pos, limits = 0.0, []
    a1, a2, t1, t2 = 1.0, 0.0, 0.0, 1.0
    for e in P.elements:
        if e.apertureDiameter != INF: limits.append((e.apertureDiameter / abs(a2) if a2 != 0 else INF, pos, e.apertureDiameter, a1, a2, True))
        a1, t1 = e.A * a1 + e.B * t1, e.C * a1 + e.D * t1
        a2, t2 = e.A * a2 + e.B * t2, e.C * a2 + e.D * t2
        pos += e.L
        if e.L > 0 and e.apertureDiameter != INF: limits.append((e.apertureDiameter / abs(a2) if a2 != 0 else INF, pos, e.apertureDiameter, a1, a2, False))
    f, half = P.fieldStop(), P.halfFieldOfView()
    def absent(why):
        g.check('no field stop: ' + why, f.z is None and f.diameter == INF and not P.hasFieldStop())
        g.check('infinite field of view: ' + why, half == INF and P.fieldOfView() == INF)
    if not limits: return absent('no finite aperture')
    s = P.apertureStop()
    stop = [l for l in limits if l[1] == s.z and l[2] == s.diameter] or [l for l in limits if abs(l[1] - s.z) < 1e-9]
    if not stop or len(set(l[3:5] for l in stop)) > 1: raise Discard('ambiguous')
    a, b = stop[0][3:5]
    if 0 < abs(b) < 1e-3 or abs(b) > 1e9: raise Discard('almost an image')
    if s.z == 0 or b == 0: return absent('chief rays cross the axis at the object, or stop at an image of the object')
    k = -a / b
    edge = []
    for _, z, D, x1, x2, blocks in limits:
        if not blocks: continue             # rays are blocked at the entrance
        c = abs(x1 + k * x2)
        if c < 1e-9 * (abs(x1) + abs(k * x2) + 1): continue          # chief rays cross the axis there
        edge.append((D / 2 / c, z, D))
    best = min((e[0] for e in edge), default=INF)
    if best > P.maxHeight * 1.5 or best == INF: return absent('the chief rays of all objects get through')
    if best > P.maxHeight / 2: raise Discard('at the limit of the search')
    g.check('the field of view is finite', half != INF)
    g.check('the highest object seen', abs(half - best) <= 2 * P.precision + 1e-9 * best)
    g.check('whole field of view', P.fieldOfView() == 2 * half)
    g.check('the field stop is the aperture that blocks it', any(e[0] <= best + 2 * P.precision + 1e-9 * best and abs(e[1] - f.z) < 1e-9 and e[2] == f.diameter for e in edge))
    g.check('there is a field stop', P.hasFieldStop())
    r = P.principalRay()
    g.eq('the principal ray starts there', r.y, half); g.eq('towards the centre of the stop', 1 + a * r.y + b * r.theta, 1)

@harness('C14', mode='con', cases=800)
def field_stop_of_thick_elements(g):
    """bounded: apertures of finite length (blocking at their entrance) too; the field stop is the first aperture beyond which the
    chief ray of an object just outside the field of view is, found by walking the elements"""
    P = g.group(g.elements('E', con_kinds=THIN + ['ThickLens', 'Slab'], air=True), cls='ImagingPath')
    if any(type(e) is g.ns.Matrix and e.L > 0 for e in P.elements): raise Discard('cannot be divided')
    f, half = P.fieldStop(), P.halfFieldOfView()
    if f.z is None: g.check('infinite field of view', half == INF); return
    if half == INF: raise Discard('at the limit of the search')
    def stopped(h):
        y, t, pos = h, P.chiefRay(h).theta, 0.0
        for e in P.elements:
            if abs(abs(y) - e.apertureDiameter / 2) < 1e-9 * (1 + abs(y)): raise Discard('at the edge')
            if abs(y) > e.apertureDiameter / 2: return pos, e.apertureDiameter
            y, t, pos = e.A * y + e.B * t, e.C * y + e.D * t, pos + e.L
        return None
    tol = 2 * P.precision + 1e-9 * half
    if half > 3 * tol: g.check('seen', stopped(half - tol) is None)
    a, b = stopped(half + tol), stopped(half + 2 * tol)
    g.check('not seen', a is not None)
    if b != a: raise Discard('two apertures at once')
    g.check('the first aperture that blocks', abs(f.z - a[0]) < 1e-9 and f.diameter == a[1])

@harness('C14', mode='sym')
def lemma_higher_objects_are_blocked(g):
    """blocking of the chief ray depends on the height alone, monotonically: with an object, all those farther from the axis are blocked.
    j: where the chief ray of the lower one is first blocked"""
    S = g.system = g.thin_system('T')
    y1, y2 = g.real('y1'), g.real('y2')
    k = g.real('k')             # the angle of the chief ray is k times the height (contract chief_ray)
    g.assume(g.abs(y1) <= g.abs(y2))
    t1, t2 = g.trace_in(S, y1, k * y1), g.trace_in(S, y2, k * y2)
    j = g.int('j', lo=1)
    g.assume(j < g.val(S.n))
    g.assume(t1[j].isBlocked); g.assume(g.not_(g.t(t1[j - 1].isBlocked)))
    g.check('blocked there or before', g.or_(g.t(t2[j].isBlocked), g.t(t2[j - 1].isBlocked)))
    g.check('blocked in the end', g.t(t2[-1].isBlocked))

@harness('C14', under=['ImagingPath.hasFieldStop', 'ImagingPath.fieldOfView'], uses=['ImagingPath.fieldStop@any', 'ImagingPath.halfFieldOfView@any'])
def field_of_view(g):
    if g.symbolic:
        P = g.group(g.elements('E'), cls='ImagingPath')
        g.the_field_stop = g.choice('field stop', [(None, INF), (g.real('zf'), g.real('Df', pos=True))])
        g.half = g.force(g.inf_or('half', g.real('half', nonneg=True)))
    else:
        P = some_path(g)
        g.the_field_stop = tuple(P.fieldStop()); g.half = P.halfFieldOfView()
    g.check('iff there is one', g.iff(P.hasFieldStop(), g.the_field_stop[0] is not None))
    v = P.fieldOfView()
    if g.isinf(g.half): g.check('infinite', g.isinf(v))
    else: g.eq('twice half of it', v, 2 * g.half)

@harness('C14', under=['ImagingPath.imageSize', 'Matrix.forwardConjugate'], uses=['ImagingPath.halfFieldOfView@any', 'Matrix.__mul__', 'Matrix.isIdentity'])
def image_size(g):
    """field of view, or object, times the transverse magnification to the image plane"""
    h = g.real('object', nonneg=True)
    if g.symbolic:
        P = g.group(g.elements('E'), cls='ImagingPath', _objectHeight=h)
        g.half = g.force(g.inf_or('half', g.real('half', nonneg=True)))
    else:
        P = some_path(g); P.objectHeight = h
        g.half = P.halfFieldOfView()
    s = g.spec(P)
    use = g.choice('useObject', [False, True])
    v = P.imageSize(useObject=use) if use else P.imageSize()
    if g.t(s.D == 0): g.check('no image', g.isinf(v)); return
    d = -s.B / s.D * s.bi
    if not g.symbolic and abs(s.D) < 1e-6: raise Discard('almost no image')
    m = s.A + (-s.B / s.D) * s.C
    if use: g.eq('size of the image of the object', v, g.abs(h * m))
    elif g.isinf(g.half): g.check('infinite', g.isinf(v) or v != v or g.t(m == 0))
    else: g.eq('size of the image of the field of view', v, g.abs(2 * g.half * m))

@stub('ImagingPath.axialRay@any')
def stub_axial(g, P): return g.axial

@stub('ImagingPath.principalRay@any')
def stub_principal(g, P): return g.principal

@harness('C14', 'C10', under=['ImagingPath.lagrangeInvariant', 'Matrix.opticalInvariant'], uses=['ImagingPath.axialRay@any', 'ImagingPath.principalRay@any', 'MatrixGroup.transferMatrix@partial'])
def lagrange_invariant(g):
    """the optical invariant of the axial and principal rays, infinite without them"""
    if g.symbolic:
        P = g.group(g.elements('E'), cls='ImagingPath')
        g.axial = g.choice('axial', [None, 1]) and g.ray('axial', blocked=False)
        g.principal = g.choice('principal', [None, 1]) and g.ray('principal', blocked=False)
        g.partial = (0, g.spec(g.matrix('T', frontIndex=P.frontIndex)))
    else:
        P = some_path(g)
        if len(P.elements): P.frontIndex = P.elements[0].frontIndex
        g.axial, g.principal = P.axialRay(), P.principalRay()
    v = P.lagrangeInvariant()
    if g.axial is None or g.principal is None: g.check('infinite', g.isinf(v)); return
    a, p = g.axial, g.principal
    g.eq('that of the axial and principal rays', v, P.frontIndex * (a.theta * p.y - a.y * p.theta))
