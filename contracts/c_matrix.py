"""Contracts of single elements: construction and product (C01)."""
from rtv.api import *

EPS = 1e-5      # documented tolerance of the determinant

@stub('Matrix.isIdentity')
def stub_isIdentity(g, m):
    """contract is_identity"""
    return g.is_identity(g.spec(m))

@stub('Matrix.determinant')
def stub_determinant(g, m):
    """contract determinant"""
    return g.det(g.spec(m))

@stub('Matrix.__mul__')
def stub_mul(g, a, b):
    """contract product_of_two_elements: requires matching media (or an identity factor)"""
    b = g.force(b)
    if not isinstance(b, g.ns.Matrix): return g.original('Matrix.__mul__')(a, b)
    sa, sb = g.spec(a), g.spec(b)
    g.check('precondition of the product: matching media', g.or_(g.t(sa.fi == sb.bi), g.is_identity(sa), g.is_identity(sb)))
    return g.element_from(g.mul(sa, sb))

@harness('C01', under=['Matrix.isIdentity'])
def is_identity(g):
    m = g.matrix('m')
    s = g.spec(m)
    g.check('identity matrix, and only it', g.iff(m.isIdentity, g.is_identity(s)))
    g.eq_spec('untouched', m, s)

@harness('C01', under=['Matrix.determinant'])
def determinant(g):
    m = g.matrix('m')
    s = g.spec(m)
    g.eq('determinant', m.determinant, s.A * s.D - s.B * s.C)
    g.eq('equal to the ratio of the indices', m.determinant * s.bi, s.fi)

@harness('C01', under=['Matrix.__mul__', 'Matrix.mul_matrix', 'Matrix.__init__', 'Matrix.determinant'], uses=['Matrix.isIdentity'], weight=3)
def product_of_two_elements(g):
    b = g.matrix('b')
    a = g.matrix('a', frontIndex=b.backIndex)
    sa, sb = g.spec(a), g.spec(b)
    p = a * b
    g.check('result is an element', isinstance(p, g.ns.Matrix))
    g.eq_spec('product', p, g.mul(sa, sb))
    g.check('determinant is front over back index', g.equal(g.det(g.spec(p)) * p.backIndex, p.frontIndex))
    g.check('no aperture', g.and_(p.apertureDiameter == float('+inf'), p.apertureNA == float('+inf')))
    g.eq_spec('left factor untouched', a, sa)
    g.eq_spec('right factor untouched', b, sb)

@harness('C01', under=['Matrix.__mul__', 'Matrix.mul_matrix', 'Matrix.__init__'], uses=['Matrix.isIdentity', 'Matrix.determinant'])
def product_with_an_identity_in_another_medium(g):
    """an identity factor (of any length and vertices) contributes no index, whatever its own"""
    b = g.matrix('b')
    n = g.index('n')
    i = g.matrix('i', A=1.0, B=0.0, C=0.0, D=1.0, frontIndex=n, backIndex=n)
    sb, si = g.spec(b), g.spec(i)
    g.assume(g.not_(g.is_identity(sb)))
    for name, p, q in (('after', i * b, g.mul(si, sb)), ('before', b * i, g.mul(sb, si))):
        sp = g.spec(p)
        g.eq_spec('identity %s' % name, p, q)
        for f in ('A', 'B', 'C', 'D', 'fi', 'bi'): g.eq('identity %s: %s' % (name, f), getattr(sp, f), getattr(sb, f))

@harness('C01', under=['Matrix.__mul__', 'Matrix.mul_matrix'], uses=['Matrix.__mul__'])
def product_is_associative(g):
    c = g.matrix('c')
    b = g.matrix('b', frontIndex=c.backIndex)
    a = g.matrix('a', frontIndex=b.backIndex)
    ab, bc = a * b, b * c
    for n, m in (('a', a), ('b', b), ('c', c), ('ab', ab), ('bc', bc)):
        sm = g.spec(m)
        g.lemma('determinant of ' + n, g.equal(g.det(sm) * sm.bi, sm.fi))
        g.lemma('an identity %s does not change medium' % n, g.implies(g.is_identity(sm), g.equal(sm.fi, sm.bi)))
    g.eq('front medium of a matched product', ab.frontIndex, b.frontIndex); g.eq('back medium of a matched product', ab.backIndex, a.backIndex)
    g.eq('front medium of a matched product', bc.frontIndex, c.frontIndex); g.eq('back medium of a matched product', bc.backIndex, b.backIndex)
    l, r = g.spec(ab * c), g.spec(a * bc)
    g.eq('front medium', l.fi, g.spec(c).fi); g.eq('back medium', l.bi, g.spec(a).bi)
    g.eq('front medium', r.fi, g.spec(c).fi); g.eq('back medium', r.bi, g.spec(a).bi)
    g.eq_spec('(ab)c = a(bc)', l, r)

@harness('C01', under=['Matrix.__mul__'])
def product_refuses_other_objects(g):
    a = g.matrix('a')
    what = g.choice('what', [None, 3, 'text', 2.5])
    r = g.attempt(lambda: a * what)
    g.check('TypeError', r.raised(TypeError))

@harness('C01', under=['Matrix.__init__', 'Matrix.determinant'], cases=200)
def construction(g):
    A, B, C, D, L = (g.real(x) for x in 'ABCDL')
    fi, bi = g.index('fi'), g.index('bi')
    if g.drawn and A != 0:
        how = g.choice('consistent', ['no', 'yes', 'yes', 'hardly', 'not quite'])
        if how != 'no': D = (fi / bi + B * C + {'yes': 0, 'hardly': 0.9e-5, 'not quite': 1.1e-5}[how]) / A
    inf = float('+inf')
    ap = g.inf_or('ap', g.real('ap')); na = g.inf_or('na', g.real('na'))
    fv, bv = g.maybe('fv', g.real('fv')), g.maybe('bv', g.real('bv'))
    fv, bv = g.force(fv), g.force(bv)
    ap, na = g.force(ap), g.force(na)
    err = g.abs(A * D - B * C - fi / bi)
    g.distinct(err, EPS)
    r = g.attempt(lambda: g.ns.Matrix(A, B, C, D, physicalLength=L, frontVertex=fv, backVertex=bv, frontIndex=fi, backIndex=bi,
                                      apertureDiameter=ap, apertureNA=na, label='x'))
    bad = g.or_(g.t(ap <= 0), g.t(na <= 0), g.t(err > EPS))
    g.check('refused exactly when inconsistent', g.iff(r.raised(ValueError), bad))
    g.check('no other error', r.ok or r.raised(ValueError))
    if r.ok:
        m = r.value
        for f, v in (('A', A), ('B', B), ('C', C), ('D', D), ('L', L), ('frontIndex', fi), ('backIndex', bi)): g.eq(f, g.raw(m, f), v)
        g.eq('aperture', m.apertureDiameter, ap); g.eq('NA', m.apertureNA, na)
        g.check('vertices', g.equal(m.frontVertex, fv)); g.check('back vertex', g.equal(m.backVertex, bv))
        g.check('label', m.label == 'x'); g.check('not flipped', m.isFlipped == False)
