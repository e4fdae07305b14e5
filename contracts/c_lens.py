"""Contracts of compound lenses and objectives (C20)."""
from rtv.api import *
from contracts.c_optics import interface_spec, space_spec, curv, radius, MSTUBS
INF = float('inf')
LSTUBS = MSTUBS + ['Matrix.effectiveFocalLengths', 'Matrix.principalPlanePositions', 'Matrix.hasPower']

def glass(g, name):
    """a glass: its index is some function of the wavelength"""
    class Glass:
        def n(self, wavelength): return g.function('n_' + name, wavelength)
    return Glass()

HOW = ['indices', 'glasses at a wavelength', 'glasses at the reference', 'both', 'nothing', 'glasses alone']
def index_choice(g, k, how):
    """how the indices are prescribed -> (kwargs, expected indices or None)"""
    names = ['1', '2'][:k]
    kw = {}; want = None
    nkw = (lambda i: 'n' + i) if k == 2 else (lambda i: 'n')
    mkw = (lambda i: 'mat' + i) if k == 2 else (lambda i: 'mat')
    ns = dict((i, g.index('n' + i)) for i in names)
    ms = dict((i, glass(g, 'glass' + i)) for i in names)
    wl, wr = g.real('wavelength', pos=True), g.real('reference', pos=True)
    if how == 'indices':
        for i in names: kw[nkw(i)] = ns[i]
        want = [ns[i] for i in names]
    elif how == 'glasses at a wavelength':
        for i in names: kw[mkw(i)] = ms[i]
        kw['wavelength'] = wl
        if g.bool('with reference'): kw['wavelengthRef'] = wr
        want = [ms[i].n(wl) for i in names]
    elif how == 'glasses at the reference':
        for i in names: kw[mkw(i)] = ms[i]
        kw['wavelengthRef'] = wr
        want = [ms[i].n(wr) for i in names]
    elif how == 'both':
        for i in names: kw[mkw(i)] = ms[i]; kw[nkw(i)] = ns[i]
        want = [ns[i] for i in names]
    elif how == 'glasses alone':
        for i in names: kw[mkw(i)] = ms[i]
    if k == 1 and 'n' not in kw: kw['n'] = None
    return kw, want

def sag(g, R, h):
    """height of a spherical surface of radius R at the distance h of the axis"""
    if g.isinf(R): return 0.0
    return R * (1.0 - g.cos(g.asin(h / g.abs(R))))

@stub('Matrix.focalDistances@named')
def stub_fd(g, m):
    """callee contract of C06 (focal_lengths): the value is named, not computed"""
    s = g.spec(m)
    f2 = g.named('f2', m)
    return g.ns.FocalLengths(f1=f2 if g.known(s.fi == s.bi) else g.named('f1', m), f2=f2)

@stub('Matrix.backFocalLength@named')
def stub_bfl(g, m):
    """callee contract of C06 (focus positions and distances): the value is named, not computed"""
    return g.named('bfl', m)

NAMED = ['Matrix.isIdentity', 'Matrix.__mul__', 'Matrix.focalDistances@named', 'Matrix.backFocalLength@named']

def lens_contract(g, k, how, make, R, tc, f, fb, te, ap):
    kw, want = index_choice(g, k, how)
    h = ap / 2
    for r in R:
        if not g.isinf(r):
            g.assume(h <= g.abs(r))
            if not g.symbolic: g.assume(h < 0.99 * abs(r))
    log = g.warnings()
    out = g.attempt(lambda: make(kw))
    if want is None:
        g.check('no index: refused', out.raised(ValueError)); return
    n = want
    # the cascade
    media = [1.0] + n + [1.0]
    s = None; parts = []
    for i, r in enumerate(R):
        parts.append(interface_spec(media[i], media[i + 1], curv(g, r)))
        if i < len(tc): parts.append(space_spec(tc[i], media[i + 1]))
    for p in parts: s = p if s is None else g.mul(p, s)
    if not g.symbolic: g.assume(abs(s.C) > 1.1e-5)          # lenses without power are out of the contract
    g.check('built', out.ok)
    m = out.value
    g.eq_spec('cascade', m, s)
    g.eq('aperture', m.apertureDiameter, ap)
    g.check('number of elements', g.len(m.elements) == len(parts))
    for i, p in enumerate(parts):
        e = m.elements[i]
        g.check('element %d' % i, isinstance(e, g.ns.DielectricInterface if i % 2 == 0 else g.ns.Space))
        g.eq_spec('element %d' % i, e, p)
        if i % 2 == 0: g.eq('element %d: aperture' % i, e.apertureDiameter, ap)
    # the warnings
    f2, bfl = m.focalDistances().f2, m.backFocalLength()
    if not g.symbolic:
        g.eq('focal length of the cascade', f2, -1 / s.C)
        g.eq('back focal length of the cascade', bfl, (1 - s.A) / s.C + s.L + f2 - s.bv.val)
    edge = s.bv.val + sag(g, R[-1], h) - sag(g, R[0], h)
    off = [g.abs((f2 - f) / f), g.abs((bfl - fb) / fb), g.abs(edge / te - 1.0)]
    tol = [0.01, 0.01, 0.05]
    cnt = 0
    for o, t in zip(off, tol):
        g.distinct(o, t)
        if o > t: cnt += 1
    g.check('a warning exactly for each departure from the specification', log.count() == cnt)

def prescription(g, nR):
    R = [radius(g, 'R%d' % (i + 1)) for i in range(nR)]
    tc = [g.real('tc%d' % (i + 1), pos=True) for i in range(nR - 1)]
    return R, tc, g.real('f', nonzero=True), g.real('fb', nonzero=True), g.real('te', nonzero=True), g.real('diameter', pos=True)

LENS_UNDER = ['CompoundLens.__init__', 'MatrixGroup.__init__', 'MatrixGroup.append', 'MatrixGroup.largestDiameter', 'DielectricInterface.__init__', 'Space.__init__']

def doublet(g, how):
    R, tc, f, fb, te, ap = prescription(g, 3)
    lens_contract(g, 2, how, lambda kw: g.ns.AchromatDoubletLens(fa=f, fb=fb, R1=R[0], R2=R[1], R3=R[2], tc1=tc[0], tc2=tc[1], te=te, diameter=ap, **kw), R, tc, f, fb, te, ap)

def singlet(g, how):
    R, tc, f, fb, te, ap = prescription(g, 2)
    lens_contract(g, 1, how, lambda kw: g.ns.SingletLens(f=f, fb=fb, R1=R[0], R2=R[1], tc=tc[0], te=te, diameter=ap, **kw), R, tc, f, fb, te, ap)

for kind, cls, w in ((doublet, 'AchromatDoubletLens', 4), (singlet, 'SingletLens', 3)):
    for how in HOW:
        def h(g, kind=kind, how=how): kind(g, how)
        h.__name__ = kind.__name__ + '_from_' + how.replace(' ', '_')
        harness('C20', under=[cls + '.__init__'] + LENS_UNDER, uses=NAMED, weight=w, cases=100,
                note='a %s prescribed by %s is the cascade of its surfaces and thicknesses, and warns exactly when it departs from its specification' % (kind.__name__, how))(h)

def an_objective(g):
    f, wd, na = g.real('f', pos=True), g.real('wd', pos=True), g.real('NA', pos=True)
    ff, ba = g.real('ff', pos=True), g.real('ba', pos=True)
    m = g.ns.Objective(f=f, NA=na, focusToFocusLength=ff, backAperture=ba, workingDistance=wd)
    return m, f, wd, na, ff, ba

@harness('C20', under=['Objective.__init__', 'Objective.flipOrientation', 'MatrixGroup.flipOrientation', 'MatrixGroup.append', 'Matrix.flipOrientation'], uses=LSTUBS)
def objective(g):
    m, f, wd, na, ff, ba = an_objective(g)
    if not g.symbolic: g.assume(f < 1e4)
    g.assume(f < 100000)
    times = g.choice('turned', [0, 1, 2])
    for _ in range(times): m.flipOrientation()
    s = g.spec(m)
    g.eq('focal length', s.C * f, -1.0)
    g.eq('front focal plane on the front edge', s.D, 0.0); g.eq('back focal plane on the back edge', s.A, 0.0)
    g.eq('focus to focus length', s.L, ff)
    g.eq('effective focal length', m.effectiveFocalLengths().f2, f)
    if times == 1:
        g.eq('vertices', m.frontVertex, wd); g.eq('vertices', m.backVertex, ff)
        g.eq('working distance', m.frontFocalLength(), wd); g.eq('at the back aperture', m.backFocalLength(), 0.0)
    else:
        g.eq('vertices', m.frontVertex, 0.0); g.eq('vertices', m.backVertex, ff - wd)
        g.eq('working distance', m.backFocalLength(), wd); g.eq('at the back aperture', m.frontFocalLength(), 0.0)
    g.check('orientation', g.iff(m.isFlipped, times == 1))

@harness('C20', under=['Objective.__init__', 'MatrixGroup.trace', 'Matrix.trace', 'Matrix.mul_ray'], uses=MSTUBS)
def rays_through_an_objective(g):
    m, f, wd, na, ff, ba = an_objective(g)
    g.assume(ff >= 2 * f)
    if not g.symbolic: g.assume(ff > 2 * f * 1.001)
    g.assume(f >= wd)
    turned = g.choice('turned', [0, 1])
    if turned: m.flipOrientation()
    y, th = g.real('y'), g.real('theta')
    o = m.traceThrough(g.ns.Ray(y=y, theta=th))
    fa = 2 * na * wd
    if not turned: hit = [(y, ba), (f * th + wd * y / f, fa)]          # heights at the back and front apertures
    else: hit = [(y + wd * th, fa), (f * th, ba)]
    for h, a in hit: g.separated(g.abs(h), a / 2)
    g.check('blocked exactly by the apertures', g.iff(o.isBlocked, g.or_(*[g.t(g.abs(h) > a / 2) for h, a in hit])))
