"""Contracts of Gaussian beams (C11) and of laser cavity modes (C12)."""
import math
from rtv.api import *
PI = math.pi
INF = float('inf')

def beam(g, name='b', finite=True):
    """an arbitrary (finite) beam"""
    re, im = g.real(name + '.re'), (g.real(name + '.im', pos=True) if finite else g.real(name + '.im'))
    b = g.new(g.ns.GaussianBeam)
    d = b.__dict__
    d['q'] = g.cplx(re, im); d['wavelength'] = g.real(name + '.wl', pos=True); d['z'] = g.real(name + '.z'); d['n'] = g.index(name + '.n')
    d['isClipped'] = g.bool(name + '.clipped')
    return g.register(b)

def size2(g, q, wl, n):
    """square of the beam radius"""
    return wl * (q.real * q.real + q.imag * q.imag) / (q.imag * n * PI)

def eq_q(g, name, q, num, den):
    """q = num / den, complex"""
    g.eq(name + ' (real part)', q.real * den.real - q.imag * den.imag, num.real)
    g.eq(name + ' (imaginary part)', q.real * den.imag + q.imag * den.real, num.imag)

@harness('C11', under=['Matrix.__mul__', 'Matrix.mul_beam', 'GaussianBeam.__init__', 'GaussianBeam.w', 'GaussianBeam.isFinite'], weight=2, timeouts=(4000, 12000))
def beam_through_an_element(g):
    b = beam(g); m = g.matrix('m', frontIndex=b.n)
    s = g.spec(m); q = b.q
    o = m * b
    g.check('a beam', isinstance(o, g.ns.GaussianBeam))
    nu, de = g.cplx(s.A * q.real + s.B, s.A * q.imag), g.cplx(s.C * q.real + s.D, s.C * q.imag)
    eq_q(g, 'ABCD law', o.q, nu, de)
    N = de.real * de.real + de.imag * de.imag
    g.eq('imaginary part', o.q.imag * N, q.imag * s.fi / s.bi)
    g.check('stays finite', g.t(o.q.imag > 0))
    g.eq('position', o.z, b.z + s.L); g.eq('index', o.n, s.bi); g.eq('wavelength', o.wavelength, b.wavelength)
    ap = g.force(m.apertureDiameter)
    w = o.w
    if not g.isinf(ap): g.distinct(w, ap / 2)
    g.check('clipped exactly when too large, or before', g.iff(o.isClipped, g.or_(b.isClipped, g.t(w > ap / 2))))
    g.check('input beam untouched', g.and_(g.equal(b.q.real, q.real), g.equal(b.q.imag, q.imag)))
    g.eq_spec('element untouched', m, s)

@harness('C11', under=['Matrix.mul_beam'])
def beam_in_the_wrong_medium(g):
    b = beam(g); m = g.matrix('m')
    r = g.attempt(lambda: m * b)
    g.check('refused exactly when the media differ', g.iff(r.raised(RuntimeError), g.t(b.n != m.frontIndex)))
    g.check('no other error', r.ok or r.raised(RuntimeError))

@harness('C11', under=['Matrix.mul_beam'], uses=['Matrix.__mul__', 'GaussianBeam.w', 'Matrix.isIdentity'], timeouts=(5000, 15000))
def beam_through_a_product(g):
    b = beam(g); m1 = g.matrix('m1', frontIndex=b.n); m2 = g.matrix('m2', frontIndex=m1.backIndex)
    s1, s2 = g.spec(m1), g.spec(m2)
    p = m2 * m1
    o = p * b
    i = m1 * b
    r = m2 * i
    q = b.q
    nu, de = lambda s, q: g.cplx(s.A * q.real + s.B, s.A * q.imag), lambda s, q: g.cplx(s.C * q.real + s.D, s.C * q.imag)
    sp = g.spec(p)
    # cross-multiplied: r = N2/D2 with N2 = A2 q1 + B2..., q1 = N1/D1
    n1, d1 = nu(s1, q), de(s1, q)
    n2 = g.cplx(s2.A * n1.real + s2.B * d1.real, s2.A * n1.imag + s2.B * d1.imag)
    d2 = g.cplx(s2.C * n1.real + s2.D * d1.real, s2.C * n1.imag + s2.D * d1.imag)
    g.eq('same numerator', n2.real, nu(sp, q).real); g.eq('same numerator', n2.imag, nu(sp, q).imag)
    g.eq('same denominator', d2.real, de(sp, q).real); g.eq('same denominator', d2.imag, de(sp, q).imag)
    eq_q(g, 'through the product', o.q, n2, d2)
    eq_q(g, 'one after the other', r.q, n2, d2)
    g.eq('position', o.z, r.z); g.eq('index', o.n, r.n); g.eq('wavelength', o.wavelength, r.wavelength)
    g.check('clipped after the product only if clipped one by one or before', g.implies(b.isClipped, g.and_(g.t(o.isClipped), g.t(r.isClipped))))

@stub('GaussianBeam.w')
def stub_w(g, b):
    """contract beam_size: some positive number (or infinite)"""
    b.q
    return g.real('w!%d' % len(g.engine_inputs()), pos=True)

@harness('C11', under=['GaussianBeam.R', 'GaussianBeam.w', 'GaussianBeam.isFinite', 'GaussianBeam.zo', 'GaussianBeam.wo', 'GaussianBeam.waist',
                       'GaussianBeam.waistPosition', 'GaussianBeam.rayleighRange', 'GaussianBeam.confocalParameter'], timeouts=(4000, 12000))
def beam_parameters(g):
    b = beam(g); q = b.q; n, wl = b.n, b.wavelength
    g.separated(q.real, 0.0)
    q2 = q.real * q.real + q.imag * q.imag
    g.check('finite', g.t(b.isFinite))
    R, w = b.R, b.w
    # 1/q = 1/R - i wl / (pi n w^2)
    g.eq('curvature', 0.0 if g.isinf(R) else 1 / R, q.real / q2)
    g.check('flat exactly at the waist', g.iff(g.isinf(R), g.t(q.real == 0)))
    g.eq('size', w * w * q.imag * n * PI, wl * q2)
    g.check('size is positive', g.t(w > 0))
    g.eq('Rayleigh range', b.zo, q.imag); g.eq('Rayleigh range', b.rayleighRange, q.imag); g.eq('confocal parameter', b.confocalParameter, q.imag)
    wo = b.wo
    g.eq('waist size', wo * wo * n * PI, q.imag * wl); g.eq('waist', b.waist, wo); g.check('positive', g.t(wo > 0))
    g.eq('waist position', b.waistPosition, -q.real)

@harness('C11', under=['GaussianBeam.waistPosition', 'GaussianBeam.wo', 'GaussianBeam.w', 'Matrix.mul_beam'], uses=['Matrix.determinant'], timeouts=(4000, 12000))
def size_at_the_waist(g):
    b = beam(g)
    if not g.symbolic: g.assume(b.q.imag > 0.1)
    m = g.ns.Space(d=b.waistPosition, n=b.n)
    o = m * b
    g.eq('at the waist', o.q.real, 0.0); g.eq('Rayleigh range', o.q.imag, b.q.imag)
    g.eq('size there is the waist size', o.w, b.wo)
    g.eq('no distance left', o.waistPosition, 0.0)

@harness('C11', under=['GaussianBeam.w', 'GaussianBeam.isFinite', 'GaussianBeam.wo', 'GaussianBeam.R'])
def not_a_beam(g):
    """a complex radius without positive imaginary part is not a finite beam"""
    b = beam(g, finite=False)
    g.separated(b.q.imag, 0.0); g.separated(b.q.real, 0.0)
    if not g.symbolic: g.assume(b.q.imag == 0 or abs(b.q.imag) > 1e-3)
    f = g.t(b.q.imag > 0)
    g.check('finite', g.iff(b.isFinite, f))
    if g.not_(f):
        g.check('no size', b.w == INF); g.check('no waist', b.wo is None)

@harness('C11', under=['GaussianBeam.__init__'], timeouts=(4000, 12000))
def beam_from_its_size(g):
    w, n, wl, z = g.real('w', pos=True), g.index('n'), g.real('wl', pos=True), g.real('z')
    R = g.force(g.inf_or('R', g.real('R', nonzero=True)))
    b = g.ns.GaussianBeam(w=w, R=R, n=n, wavelength=wl, z=z)
    cR = 0.0 if g.isinf(R) else 1 / R
    k = wl / (n * PI * w * w)
    # q (cR - i k) = 1
    g.eq('1/q (real part)', b.q.real * cR + b.q.imag * k, 1.0)
    g.eq('1/q (imaginary part)', b.q.imag * cR - b.q.real * k, 0.0)
    g.check('finite', g.t(b.q.imag > 0))
    g.eq('n', b.n, n); g.eq('wavelength', b.wavelength, wl); g.eq('z', b.z, z); g.check('not clipped', g.not_(g.t(b.isClipped)))

@harness('C11', under=['GaussianBeam.__init__'])
def beam_from_its_complex_radius(g):
    q = g.cplx(g.real('re'), g.real('im'))
    n, wl, z = g.index('n'), g.real('wl', pos=True), g.real('z')
    b = g.ns.GaussianBeam(q=q, n=n, wavelength=wl, z=z)
    g.eq('q', b.q.real, q.real); g.eq('q', b.q.imag, q.imag)
    g.eq('n', b.n, n); g.eq('wavelength', b.wavelength, wl); g.eq('z', b.z, z); g.check('not clipped', g.not_(g.t(b.isClipped)))
    r = g.attempt(lambda: g.ns.GaussianBeam(n=n))
    g.check('neither size nor complex radius: refused', r.raised(ValueError))

# ---------------------------------------------------------------------------------------- cavity modes
EPSP = 1e-5
def cavity(g):
    """a cavity with any round trip matrix"""
    n = g.index('n')
    if g.symbolic: m = g.matrix('m', cls=g.ns.LaserCavity, frontIndex=n, backIndex=n)
    else:
        m = g.ns.LaserCavity()
        m.__dict__.update(g.matrix('m', frontIndex=n, backIndex=n).__dict__)
    g.distinct(g.abs(m.C), EPSP)
    return m

@harness('C12', under=['LaserCavity.eigenModes', 'LaserCavity.laserModes', 'LaserCavity.isStable', 'GaussianBeam.isFinite'], uses=['Matrix.hasPower'], weight=2, timeouts=(5000, 15000))
def modes_of_a_cavity(g):
    m = cavity(g); s = g.spec(m)
    tr = s.A + s.D
    g.distinct(g.abs(tr), 2.0)
    modes = m.laserModes()
    n = g.len(modes)
    if g.not_(g.t(g.abs(s.C) > EPSP)):
        g.check('no power: no mode', n == 0)
        e = m.eigenModes()
        g.check('no power: no eigenmode', e[0] is None and e[1] is None)
        return
    stable = g.t(g.abs(tr) / 2 < 1)
    g.check('one finite mode exactly when stable', g.iff(g.t(n == 1), stable))
    g.check('none otherwise', g.iff(g.t(n == 0), g.not_(stable)))
    g.check('stability reported', g.iff(m.isStable, stable))
    for i in range(2):
        if n > i:
            q = modes[i].q
            # C q^2 + (D - A) q - B = 0
            g.eq('reproduces itself (real part)', s.C * (q.real * q.real - q.imag * q.imag) + (s.D - s.A) * q.real, s.B)
            g.eq('reproduces itself (imaginary part)', 2 * s.C * q.real * q.imag + (s.D - s.A) * q.imag, 0.0)
            g.check('finite', g.t(q.imag > 0))
            g.eq('in the medium of the cavity', modes[i].n, s.fi)
    g.eq_spec('untouched', m, s)

@stub('Matrix.hasPower')
def stub_hasPower(g, m):
    """contract focal_lengths"""
    return g.t(g.abs(g.spec(m).C) > EPSP)

@harness('C12', under=['LaserCavity.laserModes', 'Matrix.mul_beam'], uses=['LaserCavity.laserModes', 'GaussianBeam.w'], timeouts=(5000, 15000))
def mode_after_a_round_trip(g):
    """a mode sent once through the cavity is the same beam"""
    m = cavity(g); s = g.spec(m)
    g.assume(g.t(g.abs(s.C) > EPSP))
    modes = m.laserModes()
    if g.len(modes) == 0: return
    b = modes[0]
    if not g.symbolic: g.assume(b.q.imag > 1e-3)
    o = m * b
    g.eq('same complex radius (real part)', o.q.real, b.q.real)
    g.eq('same complex radius (imaginary part)', o.q.imag, b.q.imag)
    g.eq('same medium', o.n, b.n); g.eq('same wavelength', o.wavelength, b.wavelength)

@stub('LaserCavity.laserModes')
def stub_modes(g, m):
    """contract modes_of_a_cavity"""
    s = g.spec(m)
    if g.not_(g.t(g.abs(s.C) > EPSP)): return g.list([])
    if g.t(g.abs(s.A + s.D) / 2 < 1):
        re, im = g.real('mode.re'), g.real('mode.im', pos=True)
        b = g.new(g.ns.GaussianBeam)
        b.__dict__.update(q=g.cplx(re, im), wavelength=g.real('mode.wl', pos=True), z=0, n=s.fi, isClipped=False)
        g.fact(s.C * (re * re - im * im) + (s.D - s.A) * re == s.B)
        g.fact(2 * s.C * re * im + (s.D - s.A) * im == 0)
        return g.list([b])
    return g.list([])

@harness('C12', under=['LaserCavity.appendElementsInReverse', 'MatrixGroup.append'], uses=['Matrix.isIdentity', 'Matrix.__mul__', 'MatrixGroup.append', 'MatrixGroup.transferMatrix'])
def cavity_completed_in_reverse(g):
    """the elements then come back in reverse order, and the matrix is their product (elements in one medium)"""
    from contracts.c_group import check_group
    n = g.index('n')
    E = g.elements('E', medium=n, groups=True); before = g.copy(E)
    G = g.group(E, cls='LaserCavity')
    first, last = g.choice('skip the first', [False, True]), g.choice('skip the last', [False, True])
    back = before[(1 if first else 0):(-1 if last else None)]
    want = before + g.reversed(back)
    G.appendElementsInReverse(skipFirstElement=first, skipLastElement=last) if first or last else G.appendElementsInReverse()
    check_group(g, 'completed', G, want)
