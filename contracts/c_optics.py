"""Contracts of the elementary components (C08) and of turning elements around (C09)."""
from rtv.api import *

INF = float('inf')
MSTUBS = ['Matrix.__mul__', 'Matrix.isIdentity', 'Matrix.determinant']

def ap_ok(g, d): return g.t(g.force(d) > 0)

def diameter(g, name='diameter'):
    """any positive diameter, or none"""
    return g.force(g.aperture(name))

def radius(g, name):
    """any non zero radius, or flat"""
    return g.force(g.inf_or(name, g.real(name, nonzero=True)))

def curv(g, R): return 0.0 if g.isinf(R) else 1 / R

def eq_element(g, name, m, A, B, C, D, L=0.0, fv=None, bv=None, fi=1.0, bi=1.0, ap=INF, na=INF):
    g.eq_spec(name, m, MSpec(A, B, C, D, L, fv, bv, fi, bi))
    g.eq(name + ': aperture', m.apertureDiameter, ap)
    g.eq(name + ': NA', m.apertureNA, na)
    g.check(name + ': not flipped', g.not_(g.t(m.isFlipped)))

@harness('C08', under=['Space.__init__', 'Matrix.__init__'], uses=['Matrix.determinant'])
def space(g):
    d, n, ap = g.real('d'), g.index('n'), diameter(g)
    m = g.ns.Space(d, n, ap, 'x')
    eq_element(g, 'space', m, 1.0, d, 0.0, 1.0, L=d, fi=n, bi=n, ap=ap)
    eq_element(g, 'space in air', g.ns.Space(d=d), 1.0, d, 0.0, 1.0, L=d)
    g.check('label', m.label == 'x')

@harness('C08', under=['Lens.__init__', 'Matrix.__init__'], uses=['Matrix.determinant'])
def thin_lens(g):
    f, ap = g.real('f', nonzero=True), diameter(g)
    m = g.ns.Lens(f, ap, 'x')
    eq_element(g, 'lens', m, 1.0, 0.0, -1 / f, 1.0, fv=0.0, bv=0.0, ap=ap)
    g.eq('focal length kept', m.f, f)
    y = g.real('y')
    o = g.ns.Lens(f) * g.ns.Ray(y=y, theta=0.0)
    g.eq('parallel ray', g.raw(o, 'y') + f * g.raw(o, 'theta'), 0.0)

@harness('C08', under=['CurvedMirror.__init__', 'Matrix.__init__'], uses=['Matrix.determinant'])
def curved_mirror(g):
    R, ap = g.real('R', nonzero=True), diameter(g)
    m = g.ns.CurvedMirror(R, ap, 'x')
    eq_element(g, 'mirror', m, 1.0, 0.0, 2 / R, 1.0, fv=0.0, bv=0.0, ap=ap)
    if not g.isinf(R): eq_element(g, 'flat mirror', g.ns.CurvedMirror(R=INF), 1.0, 0.0, 0.0, 1.0, fv=0.0, bv=0.0)

@harness('C08', under=['DielectricInterface.__init__', 'Matrix.__init__'], uses=['Matrix.determinant'])
def dielectric_interface(g):
    """paraxial Snell refraction at a spherical surface"""
    n1, n2, R, ap = g.index('n1'), g.index('n2'), radius(g, 'R'), diameter(g)
    m = g.ns.DielectricInterface(n1, n2, R, ap, 'x')
    eq_element(g, 'interface', m, 1.0, 0.0, -(n2 - n1) * curv(g, R) / n2, n1 / n2, fv=0.0, bv=0.0, fi=n1, bi=n2, ap=ap)
    y, th = g.real('y'), g.real('theta')
    # n2 (theta' + y/R) = n1 (theta + y/R)
    s = g.spec(m)
    g.eq('Snell', n2 * (s.C * y + s.D * th + y * curv(g, R)), n1 * (th + y * curv(g, R)))
    g.check('prescription kept', g.and_(g.equal(m.n1, n1), g.equal(m.n2, n2), g.equal(m.R, R)))
    flat = g.ns.DielectricInterface(n1=n1, n2=n2)
    eq_element(g, 'flat interface', flat, 1.0, 0.0, 0.0, n1 / n2, fv=0.0, bv=0.0, fi=n1, bi=n2)

def interface_spec(n1, n2, c): return MSpec(1.0, 0.0, -(n2 - n1) * c / n2, n1 / n2, 0.0, 0.0, 0.0, n1, n2)
def space_spec(d, n): return MSpec(1.0, d, 0.0, 1.0, d, None, None, n, n)

def thick_spec(g, n, c1, c2, t):
    return g.mul(interface_spec(n, 1.0, c2), g.mul(space_spec(t, n), interface_spec(1.0, n, c1)))

def eq_thick(g, name, m, n, R1, R2, t, ap):
    s = thick_spec(g, n, curv(g, R1), curv(g, R2), t)
    for f in 'ABCDL': g.eq('%s: %s' % (name, f), getattr(g.spec(m), f), getattr(s, f))
    g.eq(name + ': front vertex', m.frontVertex, 0.0); g.eq(name + ': back vertex', m.backVertex, t)
    g.eq(name + ': front index', m.frontIndex, 1.0); g.eq(name + ': back index', m.backIndex, 1.0)
    g.eq(name + ': aperture', m.apertureDiameter, ap)

@harness('C08', under=['ThickLens.__init__', 'Matrix.__init__'], uses=['Matrix.determinant'])
def thick_lens(g):
    n, R1, R2, t, ap = g.index('n'), radius(g, 'R1'), radius(g, 'R2'), g.real('t', nonneg=True), diameter(g)
    m = g.ns.ThickLens(n, R1, R2, t, ap, 'x')
    eq_thick(g, 'thick lens', m, n, R1, R2, t, ap)
    g.check('prescription kept', g.and_(g.equal(m.n, n), g.equal(m.R1, R1), g.equal(m.R2, R2)))
    g.eq('no NA', m.apertureNA, INF)

@harness('C08', under=['DielectricSlab.__init__', 'ThickLens.__init__', 'Matrix.__init__'], uses=['Matrix.determinant'])
def slab(g):
    n, t, ap = g.index('n'), g.real('t', nonneg=True), diameter(g)
    m = g.ns.DielectricSlab(n, t, ap, 'x')
    eq_thick(g, 'slab', m, n, INF, INF, t, ap)
    eq_element(g, 'slab', m, 1.0, t / n, 0.0, 1.0, L=t, fv=0.0, bv=t, ap=ap)

@harness('C08', under=['Aperture.__init__', 'Matrix.__init__'], uses=['Matrix.determinant'])
def aperture(g):
    ap, na = diameter(g), diameter(g, 'NA')
    m = g.ns.Aperture(ap, na, 'x')
    eq_element(g, 'aperture', m, 1.0, 0.0, 0.0, 1.0, ap=ap, na=na)
    eq_element(g, 'no NA', g.ns.Aperture(diameter=ap), 1.0, 0.0, 0.0, 1.0, ap=ap)

@harness('C08', under=['Axicon.__init__', 'Axicon.deviationAngle', 'Axicon.focalLineLength'], uses=['Matrix.determinant'])
def axicon_parameters(g):
    alpha, n, ap = g.real('alpha', nonzero=True), g.index('n'), diameter(g)
    m = g.ns.Axicon(alpha, n, ap, 'x')
    eq_element(g, 'axicon', m, 1.0, 0.0, 0.0, 1.0, ap=ap)
    g.eq('deviation', m.deviationAngle(), (n - 1) * alpha)
    y = g.real('y', nonzero=True)
    g.assume(n != 1)
    if not g.symbolic: g.assume(abs(n - 1) > 1e-6)
    l = m.focalLineLength(y)
    g.eq('a ray from height y crosses the axis at the end of the focal line', l * (n - 1) * alpha, g.abs(y))
    if not g.isinf(ap): g.eq('focal line of the whole aperture', m.focalLineLength() * (n - 1) * alpha, ap / 2)

@harness('C08', under=['System4f.__init__', 'System2f.__init__', 'MatrixGroup.__init__', 'MatrixGroup.append', 'MatrixGroup.updateTransferMatrix', 'MatrixGroup.transferMatrix'], uses=MSTUBS)
def relays(g):
    f1, f2, d1, d2 = g.real('f1', nonzero=True), g.real('f2', nonzero=True), diameter(g, 'd1'), diameter(g, 'd2')
    m = g.ns.System4f(f1, f2, d1, d2)
    s = g.spec(m)
    g.eq('4f: A', s.A, -f2 / f1); g.eq('4f: B', s.B, 0.0); g.eq('4f: C', s.C, 0.0); g.eq('4f: D', s.D, -f1 / f2)
    g.eq('4f: length', s.L, 2 * (f1 + f2)); g.eq('4f: media', s.fi, 1.0); g.eq('4f: media', s.bi, 1.0)
    e = m.elements
    ns = g.ns
    g.check('4f: elements', g.len(e) == 6 and [type(x) for x in e] == [ns.Space, ns.Lens, ns.Space, ns.Space, ns.Lens, ns.Space])
    for i, v in ((0, f1), (2, f1), (3, f2), (5, f2)): g.eq('4f: spacing %d' % i, e[i].L, v)
    g.eq('4f: first lens', e[1].C * f1, -1.0); g.eq('4f: second lens', e[4].C * f2, -1.0)
    g.eq('4f: first diameter', e[1].apertureDiameter, d1); g.eq('4f: second diameter', e[4].apertureDiameter, d2)
    m = g.ns.System2f(f1, d1)
    s = g.spec(m)
    g.eq('2f: A', s.A, 0.0); g.eq('2f: B', s.B, f1); g.eq('2f: C', s.C, -1 / f1); g.eq('2f: D', s.D, 0.0); g.eq('2f: length', s.L, 2 * f1)
    e = m.elements
    g.check('2f: elements', g.len(e) == 3 and [type(x) for x in e] == [ns.Space, ns.Lens, ns.Space])
    g.eq('2f: diameter', e[1].apertureDiameter, d1)
    g.eq('2f: spacing', e[0].L, f1); g.eq('2f: spacing', e[2].L, f1); g.eq('2f: lens', e[1].C * f1, -1.0)

# ---------------------------------------------------------------------------------------- turning around
def reversed_spec(g, s):
    """what light travelling backwards sees"""
    det = g.det(s)
    return MSpec(s.D / det, s.B / det, s.C / det, s.A / det, s.L, Opt(s.bv.present, s.L - s.bv.val), Opt(s.fv.present, s.L - s.fv.val), s.bi, s.fi)

def eq_flip(g, name, m, before, s0):
    r = m.flipOrientation()
    g.check(name + ': returns the element', r is m)
    g.eq_spec(name, m, reversed_spec(g, s0))
    for f in ('apertureDiameter', 'apertureNA', 'label'): g.check('%s: %s unchanged' % (name, f), g.equal(g.force(g.raw(m, f)), g.force(before[f])))
    g.check(name + ': marked', g.iff(m.isFlipped, g.not_(before['isFlipped'])))

def flippable(g, kind):
    ap = diameter(g)
    if kind == 'Space': m = g.ns.Space(d=g.real('d'), n=g.index('n'), diameter=ap)
    elif kind == 'Lens': m = g.ns.Lens(f=g.real('f', nonzero=True), diameter=ap)
    elif kind == 'Interface': m = g.ns.DielectricInterface(n1=g.index('n1'), n2=g.index('n2'), R=radius(g, 'R'), diameter=ap)
    elif kind == 'ThickLens': m = g.ns.ThickLens(n=g.index('n'), R1=radius(g, 'R1'), R2=radius(g, 'R2'), thickness=g.real('t', nonneg=True), diameter=ap)
    elif kind == 'Slab': m = g.ns.DielectricSlab(n=g.index('n'), thickness=g.real('t', nonneg=True), diameter=ap)
    elif kind == 'Aperture': m = g.ns.Aperture(diameter=ap, NA=diameter(g, 'NA'))
    return m

@harness('C09', under=['Matrix.flipOrientation', 'DielectricInterface.flipOrientation', 'ThickLens.flipOrientation'], uses=['Matrix.determinant'], weight=2)
def flipped_element(g):
    kind = g.choice('kind', ['Space', 'Lens', 'Interface', 'ThickLens', 'Slab', 'Aperture'])
    m = flippable(g, kind)
    if g.choice('times', [0, 1]): m.flipOrientation()       # as built, or already turned around
    before = dict(m.__dict__); s0 = g.spec(m)
    if kind == 'Interface': n1, n2, R = m.n1, m.n2, m.R
    if kind in ('ThickLens', 'Slab'): R1, R2 = m.R1, m.R2
    eq_flip(g, kind, m, before, s0)
    if kind == 'Interface':
        g.eq('media exchanged', m.n1, n2); g.eq('media exchanged', m.n2, n1); g.eq('curvature reversed', curv(g, m.R), -curv(g, R))
        g.eq_spec('an interface with the reversed prescription', m, interface_spec(n2, n1, -curv(g, R)))
    if kind in ('ThickLens', 'Slab'):
        g.eq('radii exchanged and reversed', curv(g, m.R1), -curv(g, R2)); g.eq('radii exchanged and reversed', curv(g, m.R2), -curv(g, R1))
        s = thick_spec(g, m.n, curv(g, m.R1), curv(g, m.R2), m.L)
        for f in 'ABCDL': g.eq('a thick lens with the reversed prescription: ' + f, getattr(g.spec(m), f), getattr(s, f))
    # twice: the original
    m.flipOrientation()
    g.eq_spec('twice', m, s0)
    for f, v in before.items():
        if f in ('A', 'B', 'C', 'D', 'L', 'frontVertex', 'backVertex', 'frontIndex', 'backIndex', '_physicalHalfHeight'): continue
        if f in ('R', 'R1', 'R2'): g.eq('twice: curvature', curv(g, g.raw(m, f)), curv(g, v))
        else: g.check('twice: ' + f, g.equal(g.force(g.raw(m, f)), g.force(v)))

@harness('C09', under=['Matrix.flipOrientation', 'DielectricInterface.flipOrientation', 'ThickLens.flipOrientation', 'Matrix.backFocalLength', 'Matrix.frontFocalLength'], uses=['Matrix.determinant'])
def flipping_exchanges_the_focal_lengths(g):
    kind = g.choice('kind', ['Lens', 'Interface', 'ThickLens'])
    m = flippable(g, kind)
    if kind == 'Interface' and not g.isinf(m.R): g.assume(g.abs(m.C * m.n2 / m.n1) > 1e-5)
    g.distinct(g.abs(m.C), 1e-5)
    b, f = m.backFocalLength(), m.frontFocalLength()
    m.flipOrientation()
    b2, f2 = m.backFocalLength(), m.frontFocalLength()
    if kind == 'Interface' and b is None: return
    g.check('same ones exist', (b is None) == (f2 is None) and (f is None) == (b2 is None))
    if b is not None:
        g.eq('back becomes front', f2, b); g.eq('front becomes back', b2, f)

@harness('C09', under=['CurvedMirror.flipOrientation', 'Matrix.flipOrientation'], uses=['Matrix.determinant'])
def flipped_mirror(g):
    """a curved mirror turned around has the opposite curvature"""
    R, ap = g.real('R', nonzero=True), diameter(g)
    m = g.ns.CurvedMirror(R, ap)
    r = m.flipOrientation()
    g.check('returns the mirror', r is m)
    g.eq_spec('mirror of the opposite radius', m, MSpec(1.0, 0.0, -2 / R, 1.0, 0.0, 0.0, 0.0, 1.0, 1.0))
    g.eq('aperture', m.apertureDiameter, ap); g.check('marked', g.t(m.isFlipped))
    m.flipOrientation()
    g.eq_spec('twice', m, MSpec(1.0, 0.0, 2 / R, 1.0, 0.0, 0.0, 0.0, 1.0, 1.0))
    g.check('marked', g.not_(g.t(m.isFlipped)))

@harness('C09', mode='sym', weight=2)
def lemma_product_of_turned_elements(g):
    """induction: turning around the product of an element and of what follows it is the product, in the other order, of both turned around;
    for the products themselves, a product is consistent (lemma_product_of_matched_elements) and associative (product_is_associative)"""
    P = g.matrix('P'); e = g.matrix('e', backIndex=P.frontIndex)
    p, s = g.spec(P), g.spec(e)
    got, want = g.mul(reversed_spec(g, s), reversed_spec(g, p)), reversed_spec(g, g.mul(p, s))
    g.eq_spec('turned product', got, want)
    # no element: the identity
    i = MSpec(fi=p.fi, bi=p.fi)
    g.eq_spec('no element', reversed_spec(g, i), i)
    # twice: the original
    t = reversed_spec(g, reversed_spec(g, s))
    g.eq_spec('twice', t, s)

@harness('C09', under=['MatrixGroup.flipOrientation'], uses=['Matrix.isIdentity', 'Matrix.__mul__', 'MatrixGroup.append', 'MatrixGroup.transferMatrix'], weight=2)
def flipped_group(g):
    """the elements in reverse order, each turned around; the matrix seen by light travelling backwards; twice: the original"""
    E = g.elements('E', flips=True, con_kinds=['Space', 'Space', 'Lens', 'Aperture', 'Interface', 'ThickLens', 'Slab', 'Group'])
    if not g.symbolic: g.assume(not any(type(e) is g.ns.Matrix for e in E))
    before = g.copy(E)
    G = g.group(g.copy(E)); s0 = g.spec(G); flipped = g.raw(G, 'isFlipped')
    if not g.symbolic: was = [(dict(e.__dict__), g.spec(e), e) for e in before]
    want = g.turned(before)
    r = G.flipOrientation()
    g.check('returns the group', r is G); g.check('marked', g.iff(G.isFlipped, g.not_(flipped)))
    if g.symbolic: g.turned_product(before, want, reversed_spec(g, g.fold(before)))
    g.seq_eq('the elements in reverse order', G.elements, want)
    g.eq_spec('seen by light travelling backwards', G, reversed_spec(g, s0))
    if not g.symbolic:
        g.eq_spec('product', G, g.fold(G.elements))
        def each(now, was, name):
            for d, s, e in was:
                g.eq_spec(name, e, reversed_spec(g, s))
                g.check(name + ': marked', e.isFlipped != d['isFlipped'])
                for f in ('apertureDiameter', 'apertureNA', 'label'): g.check('%s: %s unchanged' % (name, f), getattr(e, f) == d[f])
        each(G.elements, was, 'element')
        G.flipOrientation()
        g.seq_eq('twice: elements', G.elements, before)
        g.eq_spec('twice', G, s0); g.check('twice: marked', g.iff(G.isFlipped, flipped))
        for d, s, e in was: g.eq_spec('twice: element', e, s); g.check('twice: marked', e.isFlipped == d['isFlipped'])
