"""Contracts of focal lengths, cardinal points (C06) and conjugate planes (C07)."""
from rtv.api import *

EPS = 1e-5
INF = float('inf')

def power(g, m):
    C = g.spec(m).C
    g.distinct(g.abs(C), EPS)
    return g.t(g.abs(C) > EPS)

def at_focus(g, s, p2):
    """matrix from the front edge to the plane at distance p2 behind the back edge: A element"""
    return s.A + p2 * s.C

@stub('Matrix.effectiveFocalLengths')
def stub_efl(g, m):
    """contract focal_lengths"""
    s = g.spec(m)
    if g.t(g.abs(s.C) > EPS): return g.ns.FocalLengths(f1=-(s.fi / s.bi) / s.C, f2=-1 / s.C)
    return g.ns.FocalLengths(f1=float('+inf'), f2=float('+inf'))

@stub('Matrix.principalPlanePositions')
def stub_ppp(g, m, z):
    """contract principal_planes"""
    s = g.spec(m)
    if g.t(g.abs(s.C) > EPS): return g.ns.PrincipalPlanes(z1=z - (s.fi / s.bi - s.D) / s.C, z2=z + s.L + (1 - s.A) / s.C)
    return g.ns.PrincipalPlanes(z1=None, z2=None)

@harness('C06', under=['Matrix.effectiveFocalLengths', 'Matrix.focalDistances', 'Matrix.hasPower'])
def focal_lengths(g):
    m = g.matrix('m'); s = g.spec(m)
    P = power(g, m)
    g.check('power', g.iff(m.hasPower, P))
    for name, fl in (('effective', m.effectiveFocalLengths()), ('distances', m.focalDistances())):
        if P:
            g.eq(name + ' f2', fl.f2 * s.C, -1.0)
            g.eq(name + ' f1', fl.f1 * s.C * s.bi, -s.fi)
            f1, f2 = fl
            g.eq(name + ' unpacked f1', f1, fl.f1); g.eq(name + ' unpacked f2', f2, fl.f2)
        else: g.check(name + ' infinite', fl.f1 == float('+inf') and fl.f2 == float('+inf'))
    g.eq_spec('untouched', m, s)

@harness('C06', under=['Matrix.principalPlanePositions', 'Matrix.hasPower'])
def principal_planes(g):
    m = g.matrix('m'); s = g.spec(m); z = g.real('z')
    P = power(g, m)
    pp = m.principalPlanePositions(z)
    if P:
        g.eq('front plane', (pp.z1 - z) * s.C, s.D - s.fi / s.bi)
        g.eq('back plane', (pp.z2 - z - s.L) * s.C, 1 - s.A)
        # from the front principal plane (before the front edge by z - p1) to the back one: conjugate, unit magnification
        u, v = z - pp.z1, pp.z2 - (z + s.L)
        B1 = s.B + s.A * u; D1 = s.D + s.C * u
        g.eq('conjugate', B1 + v * D1, 0.0)
        g.eq('unit transverse magnification', s.A + v * s.C, 1.0)
    else: g.check('absent', pp.z1 is None and pp.z2 is None)
    g.eq_spec('untouched', m, s)

@harness('C06', under=['Matrix.focusPositions', 'Matrix.focalDistances'], uses=['Matrix.effectiveFocalLengths', 'Matrix.principalPlanePositions'])
def focus_positions(g):
    m = g.matrix('m'); s = g.spec(m); z = g.real('z')
    P = power(g, m)
    fp = m.focusPositions(z)
    if P:
        pp, fl = m.principalPlanePositions(z), m.effectiveFocalLengths()
        g.eq('front focus is a focal length before the front plane', fp.z1, pp.z1 - fl.f1)
        g.eq('back focus is a focal length behind the back plane', fp.z2, pp.z2 + fl.f2)
        y, th = g.real('y'), g.real('theta')
        # a ray parallel to the axis crosses it at the back focus
        g.eq('parallel ray reaches the back focus', s.A * y + (fp.z2 - (z + s.L)) * (s.C * y), 0.0)
        # a ray from the front focus leaves parallel to the axis
        g.eq('ray from the front focus leaves parallel', s.C * ((z - fp.z1) * th) + s.D * th, 0.0)
    else: g.check('absent', fp.z1 is None and fp.z2 is None)
    g.eq_spec('untouched', m, s)

@harness('C06', under=['Matrix.backFocalLength', 'Matrix.frontFocalLength'], uses=['Matrix.effectiveFocalLengths', 'Matrix.principalPlanePositions'])
def vertex_focal_lengths(g):
    m = g.matrix('m'); s = g.spec(m)
    P = power(g, m)
    b, f = m.backFocalLength(), m.frontFocalLength()
    hasb, hasf = g.and_(P, s.bv.present), g.and_(P, s.fv.present)
    g.check('back focal length reported when there is one', g.iff(b is not None, hasb))
    g.check('front focal length reported when there is one', g.iff(f is not None, hasf))
    y, th = g.real('y'), g.real('theta')
    if b is not None:
        z2 = s.bv.val + b               # position of the back focus
        g.eq('parallel ray crosses the axis a back focal length behind the back vertex', s.A * y + (z2 - s.L) * s.C * y, 0.0)
    if f is not None:
        z1 = s.fv.val - f               # position of the front focus
        g.eq('ray from a front focal length before the front vertex leaves parallel', s.C * (-z1 * th) + s.D * th, 0.0)
    g.eq_spec('untouched', m, s)

@harness('C06', under=['Matrix.magnification', 'Matrix.isImaging'])
def magnification(g):
    m = g.matrix('m'); s = g.spec(m)
    g.distinct(g.abs(s.B), EPS)
    im = g.t(g.abs(s.B) < EPS)
    g.check('imaging', g.iff(m.isImaging, im))
    mg = m.magnification()
    if im:
        g.eq('transverse', mg.transverse, s.A); g.eq('angular', mg.angular, s.D)
    else: g.check('absent', mg.transverse is None and mg.angular is None)
    g.eq_spec('untouched', m, s)

def poi(g):
    kind = g.choice('class', ['Lens', 'CurvedMirror', 'ThickLens'])
    m = g.matrix('m', cls=getattr(g.ns, kind))
    return m

@harness('C06', under=['Lens.pointsOfInterest', 'CurvedMirror.pointsOfInterest', 'ThickLens.pointsOfInterest', 'Matrix.focusPositions'],
         uses=['Matrix.effectiveFocalLengths', 'Matrix.principalPlanePositions'])
def points_of_interest(g):
    m = poi(g); s = g.spec(m); z = g.real('z')
    P = power(g, m)
    pts = m.pointsOfInterest(z)
    if P:
        fp = m.focusPositions(z)
        g.check('both foci', g.len(pts) == 2)
        g.eq('front', pts[0]['z'], fp.z1); g.eq('back', pts[1]['z'], fp.z2)
        g.check('labels', pts[0]['label'] == '$F_f$' and pts[1]['label'] == '$F_b$')
    else: g.check('none', g.len(pts) == 0)

@harness('C06', under=['Matrix.fromFocusToFocus'], uses=['Matrix.effectiveFocalLengths', 'Matrix.principalPlanePositions', 'Matrix.__mul__', 'Matrix.isIdentity', 'Matrix.determinant'])
def from_focus_to_focus(g):
    """in air, with vertices at the edges: the system between its foci is a Fourier transformer"""
    L = g.real('m.L', nonneg=True)
    m = g.matrix('m', frontIndex=1.0, backIndex=1.0, L=L, vertices=False, frontVertex=0.0, backVertex=L)
    s = g.spec(m)
    g.assume(power(g, m))
    grp = m.fromFocusToFocus()
    t = g.spec(grp)
    g.eq('A', t.A, 0.0); g.eq('D', t.D, 0.0); g.eq('C', t.C, s.C); g.eq('B', t.B * s.C, -1.0)
    g.check('three elements', g.len(grp.elements) == 3)

# ---------------------------------------------------------------------------------------- conjugates
@harness('C07', under=['Matrix.forwardConjugate', 'Space.__init__'], uses=['Matrix.__mul__', 'Matrix.determinant'])
def forward_conjugate(g):
    m = g.matrix('m'); s = g.spec(m)
    g.separated(s.D, 0.0)
    c = m.forwardConjugate()
    if s.D == 0: g.check('at infinity', c.d == float('+inf') and c.transferMatrix is None)
    else:
        g.eq('the plane is conjugate to the front edge', s.B + c.d * s.D, 0.0)
        t = g.spec(c.transferMatrix)
        g.eq('height does not depend on the angle', t.B, 0.0)
        g.eq('transverse magnification', t.A, s.A + c.d * s.C)
        g.eq('C', t.C, s.C); g.eq('D', t.D, s.D); g.eq('length up to the plane', t.L, s.L + c.d)
        g.eq('magnification from the angular one', t.A * s.D * s.bi, s.fi)
        d, mm = c
        g.eq('unpacked', d, c.d)
    g.eq_spec('untouched', m, s)

@harness('C07', under=['Matrix.backwardConjugate', 'Space.__init__'], uses=['Matrix.__mul__', 'Matrix.determinant'])
def backward_conjugate(g):
    m = g.matrix('m'); s = g.spec(m)
    if not g.symbolic: g.assume(abs(s.A) > 1e-4)
    g.assume(s.A != 0)
    c = m.backwardConjugate()
    g.eq('the plane before is imaged on the back edge', s.B + c.d * s.A, 0.0)
    t = g.spec(c.transferMatrix)
    g.eq('height does not depend on the angle', t.B, 0.0)
    g.eq('transverse magnification', t.A, s.A); g.eq('C', t.C, s.C); g.eq('D', t.D, s.D + c.d * s.C)
    g.eq('length from the plane', t.L, s.L + c.d)
    g.eq_spec('untouched', m, s)

@harness('C07', under=['Matrix.backwardConjugate'])
def backward_conjugate_at_infinity(g):
    if g.symbolic: m = g.matrix('m', A=0.0)
    else:
        B = g.real('B', nonzero=True)
        m = g.ns.Matrix(A=0, B=B, C=-1 / B, D=g.real('D'))
    r = g.attempt(lambda: m.backwardConjugate())
    g.check('at infinity, or refused', g.or_(r.exc is not None, r.ok and r.value.d == float('+inf')))

@harness('C07', under=['ToConjugate.__init__', 'Space.__init__', 'Matrix.__init__', 'Matrix.forwardConjugate'], uses=['Matrix.__mul__', 'Matrix.determinant'])
def space_to_the_conjugate(g):
    m = g.matrix('m', frontIndex=1.0, backIndex=1.0); s = g.spec(m)
    g.separated(s.D, 0.0)
    r = g.attempt(lambda: g.ns.ToConjugate(m))
    if s.D == 0: g.check('refused', r.raised(ValueError))
    else:
        g.check('built', r.ok)
        t = g.spec(r.value)
        g.check('a space', isinstance(r.value, g.ns.Space))
        g.eq('lands on the image', s.B + t.B * s.D, 0.0); g.eq('length', t.L, t.B)
        g.eq('A', t.A, 1.0); g.eq('C', t.C, 0.0); g.eq('D', t.D, 1.0)

@harness('C07', under=['ToFocus.__init__', 'Space.__init__', 'Matrix.backFocalLength'], uses=['Matrix.effectiveFocalLengths', 'Matrix.principalPlanePositions', 'Matrix.determinant'])
def space_to_the_focus(g):
    """from the back vertex"""
    m = g.matrix('m', frontIndex=1.0, backIndex=1.0); s = g.spec(m)
    P = power(g, m)
    r = g.attempt(lambda: g.ns.ToFocus(m))
    if g.and_(P, s.bv.present):
        g.check('built', r.ok)
        t = g.spec(r.value)
        y = g.real('y')
        g.eq('parallel rays cross the axis at its end', s.A * y + (s.bv.val + t.B - s.L) * s.C * y, 0.0)
        g.eq('length', t.L, t.B); g.eq('A', t.A, 1.0); g.eq('C', t.C, 0.0); g.eq('D', t.D, 1.0)
    else: g.check('refused', r.raised(ValueError))

@harness('C07', mode='con', under=['MatrixGroup.intermediateConjugates', 'MatrixGroup.transferMatrices'])
def intermediate_conjugates(g):
    """run on groups drawn at random: the images of the front edge formed after each element, in order, without repetition and without
    the front edge itself"""
    E = g.elements('E', groups=True)
    G = g.group(E)
    walk = []
    def flat(l):
        for e in l:
            if isinstance(e, g.ns.MatrixGroup): flat(e.elements)
            else: walk.append(g.spec(e))
    flat(G.elements)
    want = []; P = None
    for s in walk:
        P = s if P is None else g.mul(s, P)
        g.assume(abs(P.D) > 1e-4 or P.D == 0)
        if P.D == 0: continue
        d = -P.B / P.D
        z, m = P.L + d, P.A + d * P.C
        for a, b in want:
            for x in (abs(a - z), abs(b - m)): g.assume(x < 0.0005 or x > 0.002)
        g.assume(z == 0 or abs(z) > 1e-6)
        if z != 0 and not any(abs(a - z) < 0.001 and abs(b - m) < 0.001 for a, b in want): want.append((z, m))
    before = g.spec(G)
    got = G.intermediateConjugates()
    g.check('as many', len(got) == len(want))
    for a, b in zip(got, want): g.eq('position', a[0], b[0]); g.eq('magnification', a[1], b[1])
    g.eq_spec('untouched', G, before)

@stub('Matrix.forwardConjugate')
def stub_forward_conjugate(g, m):
    """contract forward_conjugate"""
    s = g.spec(m)
    if s.D == 0: return g.ns.Conjugate(d=float('+inf'), transferMatrix=None)
    d, A = g.real('d'), g.real('conjugate.A')
    g.fact(g.equal(d * s.D, -s.B)); g.fact(g.equal(A * s.D, s.A * s.D - s.B * s.C))
    g.image_is(s, d, A)
    t = g.matrix('conjugate', A=A, B=0.0, C=s.C, D=s.D, L=s.L + d, vertices=False, frontVertex=None, backVertex=None, apertureDiameter=INF, apertureNA=INF, frontIndex=s.fi, backIndex=s.bi)
    return g.ns.Conjugate(d=d, transferMatrix=t)

@stub('MatrixGroup.transferMatrices')
def stub_parts(g, G):
    """contract individual_matrices_of_a_group: here any sequence of elements"""
    return G.__dict__['parts']

@harness('C07', mode='sym')
def lemma_position_of_an_image(g):
    m = g.matrix('m'); s = g.spec(m)
    pos, mag, d, A = g.real('pos'), g.real('mag'), g.real('d'), g.real('A')
    g.assume(s.D != 0)
    g.assume(g.equal(d * s.D, -s.B)); g.assume(g.equal(A * s.D, s.A * s.D - s.B * s.C))
    g.assume(g.equal(pos * s.D, s.L * s.D - s.B)); g.assume(g.equal(mag * s.D, s.A * s.D - s.B * s.C))
    g.eq('position', pos, s.L + d); g.eq('magnification', mag, A)

@harness('C07', mode='sym', under=['MatrixGroup.intermediateConjugates', 'areAbsolutelyAlmostEqual'], uses=['Matrix.isIdentity', 'Matrix.__mul__', 'Matrix.forwardConjugate', 'MatrixGroup.transferMatrices'])
def intermediate_images_of_a_walk(g):
    W = g.elements('W'); before = g.copy(W)
    G = g.group(g.list([]))
    G.__dict__['parts'] = W
    want = g.distinct_images(before, 0.001)
    got = G.intermediateConjugates()
    g.seq_eq('images', got, want)
    g.seq_eq('untouched', W, before)
