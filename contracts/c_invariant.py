"""Contracts of the optical invariant (C10)."""
from rtv.api import *
from contracts.c_ray import eq_ray, ray_state
INF = float('inf')
MS = ['Matrix.isIdentity', 'Matrix.__mul__']

def cross(r1, r2): return r1['theta'] * r2['y'] - r1['y'] * r2['theta']

def propagated(s, r): return dict(y=s.A * r['y'] + s.B * r['theta'], theta=s.C * r['y'] + s.D * r['theta'])

def two_rays(g):
    r1, r2 = g.ray('r1', blocked=False), g.ray('r2', blocked=False)
    return r1, r2, ray_state(g, r1), ray_state(g, r2)

def conserved(g, M, z, T, r1, r2, s1, s2, pass_z=True):
    """T: the element up to z.  The value there is that at the entrance"""
    v = M.opticalInvariant(r1, r2, z) if pass_z else M.opticalInvariant(r1, r2)
    g.eq('index times cross product of the rays propagated to z', v, T.bi * cross(propagated(T, s1), propagated(T, s2)))
    g.eq('the same as at the entrance', v, T.fi * cross(s1, s2))
    w = M.opticalInvariant(r2, r1, z) if pass_z else M.opticalInvariant(r2, r1)
    g.eq('sign change when the rays are exchanged', w, -v)
    eq_ray(g, 'first ray untouched', r1, s1); eq_ray(g, 'second ray untouched', r2, s2)

def passes(g, m, *rays):
    """the element does not block these rays"""
    ap, na = g.force(m.apertureDiameter), g.force(m.apertureNA)
    for r in rays:
        y, th = g.abs(g.raw(r, 'y')), g.abs(g.raw(r, 'theta'))
        g.distinct_or_equal(y, ap / 2); g.distinct_or_equal(th, na)
        g.assume(y <= ap / 2); g.assume(th <= na)

@harness('C10', under=['Matrix.opticalInvariant', 'Matrix.transferMatrix', 'Matrix.traceThrough', 'Matrix.mul_ray'])
def invariant_through_an_element(g):
    """any element, to its end; not further than its entrance when it cannot be divided"""
    cls = g.choice('class', ['Matrix', 'Lens', 'CurvedMirror', 'DielectricInterface', 'Aperture'])
    m = g.matrix('m', cls=getattr(g.ns, cls), nonneg=True)
    s = g.spec(m)
    r1, r2, s1, s2 = two_rays(g)
    passes(g, m, r1, r2)
    z = g.force(g.inf_or('z', g.real('z', nonneg=True)))
    if not g.isinf(z) and g.t(z < s.L):
        g.check('refused inside an indivisible element', g.attempt(lambda: m.opticalInvariant(r1, r2, z)).raised(TypeError))
    else: conserved(g, m, z, s, r1, r2, s1, s2)

@harness('C10', under=['Matrix.opticalInvariant', 'Space.transferMatrix', 'ThickLens.transferMatrix', 'DielectricSlab.transferMatrix'], uses=['Matrix.__mul__'])
def invariant_inside_an_element(g):
    kind = g.choice('kind', ['Space', 'ThickLens', 'DielectricSlab'])
    n, t = g.index('n'), g.real('t', nonneg=True)
    dia = g.force(g.aperture('dia'))
    if kind == 'Space': m = g.ns.Space(d=t, n=n, diameter=dia)
    elif kind == 'ThickLens': m = g.ns.ThickLens(n=n, R1=g.force(g.inf_or('R1', g.real('R1', nonzero=True))), R2=g.force(g.inf_or('R2', g.real('R2', nonzero=True))), thickness=t, diameter=dia)
    else: m = g.ns.DielectricSlab(n=n, thickness=t, diameter=dia)
    if kind == 'ThickLens' and g.choice('flipped', [0, 1]): m.flipOrientation()
    r1, r2, s1, s2 = two_rays(g)
    passes(g, m, r1, r2)
    z = g.force(g.inf_or('z', g.real('z', nonneg=True)))
    T = g.spec(m.transferMatrix(upTo=z))
    g.eq('entrance index', T.fi, m.frontIndex)
    conserved(g, m, z, T, r1, r2, s1, s2)

@stub('MatrixGroup.transferMatrix@partial')
def stub_partial(g, G, upTo=INF):
    """contract part_of_a_group (C05): refused, or the element made of everything up to there, which starts in the medium of the first element"""
    z, T = g.partial
    g.check('asked for the position given', g.equal(upTo, z))
    if T is None: raise TypeError("Subclass of non-null physical length must override transferMatrix()")
    return g.element_from(T)

@harness('C10', under=['Matrix.opticalInvariant', 'Matrix.traceThrough', 'Matrix.mul_ray'], uses=['MatrixGroup.transferMatrix@partial'])
def invariant_through_a_group(g):
    """at any position of any group, whatever its partial transfer matrix is (C05: consistent, in the index of the first element)"""
    cls = g.choice('class', ['MatrixGroup', 'ImagingPath', 'LaserCavity'])
    E = g.elements('E', groups=True, con_kinds=['Space', 'Space', 'Lens', 'ThickLens', 'Slab', 'Interface', 'Group', 'Aperture']); before = g.copy(E)
    G = g.group(E, cls=cls)
    r1, r2, s1, s2 = two_rays(g)
    default = g.choice('default', [False, True])
    z = 0 if default else g.force(g.inf_or('z', g.real('z', nonneg=True)))
    n0 = before[0].frontIndex if g.len(before) else 1.0
    if g.symbolic:
        T = g.spec(g.matrix('T', frontIndex=n0)) if g.choice('divisible', [True, False]) else None
        g.partial = (z, T)
    else:
        out = g.attempt(lambda: G.transferMatrix(upTo=z))
        T = g.spec(out.value) if out.ok else None
    if T is None: g.check('refused inside an indivisible element', g.attempt(lambda: G.opticalInvariant(r1, r2, z)).raised(TypeError))
    else:
        g.eq('the index there at the entrance', T.fi, n0)
        conserved(g, G, z, T, r1, r2, s1, s2, pass_z=not default)
    g.seq_eq('elements untouched', G.elements, before)

@harness('C10', mode='con', cases=400)
def invariant_step_by_step(g):
    """bounded: the rays propagated element after element give the same value at every interface and inside the spaces"""
    E = g.elements('E', con_kinds=['Space', 'Space', 'Lens', 'ThickLens', 'Slab', 'Interface', 'Aperture'])
    if not len(E) or any(e.L > 0 and not isinstance(e, (g.ns.Space, g.ns.ThickLens)) for e in E): raise Discard('empty or indivisible')
    G = g.group(E, cls='ImagingPath')
    r1, r2, s1, s2 = two_rays(g)
    y1, t1, y2, t2 = s1['y'], s1['theta'], s2['y'], s2['theta']
    want = E[0].frontIndex * (t1 * y2 - y1 * t2)
    pos = 0.0
    for e in E:
        if isinstance(e, g.ns.Space) and e.L > 0:
            d = e.L / 2
            g.eq('inside a space', G.opticalInvariant(r1, r2, pos + d), e.frontIndex * (t1 * (y2 + d * t2) - (y1 + d * t1) * t2))
        y1, t1 = e.A * y1 + e.B * t1, e.C * y1 + e.D * t1
        y2, t2 = e.A * y2 + e.B * t2, e.C * y2 + e.D * t2
        pos += e.L
        g.eq('the same behind an element', G.opticalInvariant(r1, r2, pos) if pos < G.L else G.opticalInvariant(r1, r2, INF), want)
        g.eq('index times cross product', want, e.backIndex * (t1 * y2 - y1 * t2))
