"""Contracts of partial transfer matrices (C05)."""
from rtv.api import *
INF = float('inf')
MS = ['Matrix.isIdentity', 'Matrix.__mul__']

def upto(g, name='z'):
    return g.force(g.inf_or(name, g.real(name, nonneg=True)))

def whole_or(g, e, z, f):
    """at or beyond the end: the whole element; otherwise f states the part"""
    s = g.spec(e)
    before = z < s.L if not g.isinf(z) else False
    out = g.attempt(lambda: e.transferMatrix(upTo=z))
    if before: f(out)
    else:
        g.check('accepted', out.ok)
        g.eq_spec('whole element', out.value, s)
    g.eq_spec('element untouched', e, s)
    w = e.transferMatrix()
    g.eq_spec('by default the whole element', w, s)

@harness('C05', under=['Space.transferMatrix', 'Matrix.transferMatrix'])
def part_of_a_space(g):
    d, n = g.real('d', nonneg=True), g.index('n')
    e = g.ns.Space(d=d, n=n, diameter=g.force(g.aperture('dia')))
    z = upto(g)
    def part(out):
        g.check('accepted', out.ok)
        g.eq_spec('free space of that length', out.value, MSpec(1, z, 0, 1, z, None, None, n, n))
    whole_or(g, e, z, part)

@harness('C05', under=['ThickLens.transferMatrix', 'ThickLens.flipOrientation'], uses=['Matrix.__mul__'])
def part_of_a_thick_lens(g):
    n, t = g.index('n'), g.real('t', nonneg=True)
    R1, R2 = g.force(g.inf_or('R1', g.real('R1', nonzero=True))), g.force(g.inf_or('R2', g.real('R2', nonzero=True)))
    e = g.ns.ThickLens(n=n, R1=R1, R2=R2, thickness=t, diameter=g.force(g.aperture('dia')))
    flipped = g.choice('flipped', [0, 1])
    if flipped: e.flipOrientation()
    z = upto(g)
    first = R1 if not flipped else R2
    def part(out):
        g.check('accepted', out.ok)
        R = first
        C = 0.0 if g.isinf(R) else -(n - 1) / (n * R) if not flipped else (n - 1) / (n * R)
        # entrance interface, then the glass
        glass = MSpec(1, z, 0, 1, z, None, None, n, n); entrance = MSpec(1, 0, C, 1 / n, 0, 0.0, 0.0, 1.0, n)
        g.eq_spec('entrance interface, then glass', out.value, g.mul(glass, entrance), fields=('A', 'B', 'C', 'D', 'L', 'fi', 'bi'))
    whole_or(g, e, z, part)

@harness('C05', under=['DielectricSlab.transferMatrix'], uses=['Matrix.__mul__'])
def part_of_a_slab(g):
    n, t = g.index('n'), g.real('t', nonneg=True)
    e = g.ns.DielectricSlab(n=n, thickness=t, diameter=g.force(g.aperture('dia')))
    z = upto(g)
    def part(out):
        g.check('accepted', out.ok)
        glass = MSpec(1, z, 0, 1, z, None, None, n, n); entrance = MSpec(1, 0, 0, 1 / n, 0, 0.0, 0.0, 1.0, n)
        g.eq_spec('entrance interface, then glass', out.value, g.mul(glass, entrance), fields=('A', 'B', 'C', 'D', 'L', 'fi', 'bi'))
    whole_or(g, e, z, part)

@harness('C05', under=['Matrix.transferMatrix', 'Matrix.transferMatrices'])
def part_of_an_indivisible_element(g):
    cls = g.choice('class', ['Matrix', 'Lens', 'CurvedMirror', 'DielectricInterface', 'Aperture'])
    m = g.matrix('m', cls=getattr(g.ns, cls), nonneg=True)
    z = upto(g)
    def part(out): g.check('refused', out.raised(TypeError))
    whole_or(g, m, z, part)
    g.seq_eq('individual matrices', m.transferMatrices(), g.list([m]))

@harness('C05', under=['MatrixGroup.transferMatrix'], uses=MS, weight=2)
def part_of_a_group(g):
    """i stands for the element in which z falls"""
    E = g.elements('E', nonneg=True, parts=True, groups=True); before = g.copy(E)
    G = g.group(E)
    n = g.len(E)
    total = g.fold(E).L
    where = g.choice('where', ['beyond', 'default', 'inside'])
    if where == 'default':
        g.eq_spec('whole', G.transferMatrix(), g.fold(before)); return
    z = g.real('z', nonneg=True)
    if where == 'beyond':
        if g.drawn: z = total + z
        g.assume(z >= total)
        g.lengths_grow(E, n)
        g.eq_spec('at or beyond the end: whole', G.transferMatrix(upTo=z), g.fold(before))
    else:
        i = g.position('i', E)
        start = g.fold(E[:i]).L; end = g.fold(E[:i + 1]).L
        if not g.symbolic:
            if end <= start: raise Discard('no length')
            z = start + (end - start) * g.rng.choice([0.0, 0.25, 0.5, 0.75])
        g.assume(start <= z); g.assume(z < end)
        g.lengths_grow(E, i, i + 1, n)
        d = z - start
        part = g.part_of(E[i], d)
        out = g.attempt(lambda: G.transferMatrix(upTo=z))
        if part is None: g.check('refused', out.raised(TypeError))
        else:
            g.check('accepted', out.ok)
            g.eq_spec('elements ending before z, and the part', out.value, g.mul(part, g.fold(before[:i], medium=before[0].frontIndex)))
            g.eq('its length', g.raw(out.value, 'L'), z)
    g.seq_eq('elements untouched', G.elements, before)

@harness('C05', under=['MatrixGroup.transferMatrices'])
def individual_matrices_of_a_group(g):
    """the list is that of the first element, then that of the second..; each multiplies to its element, and products are associative (C01)"""
    E = g.elements('E', parts=True, groups=True); before = g.copy(E)
    G = g.group(E)
    want = g.all_matrices(E)
    T = G.transferMatrices()
    g.seq_eq('individual matrices', T, want)
    g.seq_eq('elements untouched', G.elements, before)
    if not g.symbolic: g.eq_spec('product', G, g.fold(T))

@harness('C05', mode='con', cases=500)
def parts_of_nested_groups(g):
    """bounded: two partial matrices of the same system differ by the elements in between"""
    E = g.elements('E', groups=True, con_kinds=['Space', 'Space', 'Lens', 'ThickLens', 'Slab', 'Interface', 'Group', 'Aperture'])
    G = g.group(E)
    z = g.rng.choice([0.0, 1.0, 2.5, 5.0, 6.0, 11.0, 100.0])
    out = g.attempt(lambda: G.transferMatrix(upTo=z))
    # a ray propagated step by step
    r = g.ns.Ray(y=g.real('y'), theta=g.real('theta'))
    y, th, pos = r.y, r.theta, 0.0
    def walk(l):
        """'': all of it, 'in': stopped at z, 'no': z falls inside an indivisible element"""
        nonlocal y, th, pos
        for e in l:
            if isinstance(e, g.ns.MatrixGroup):
                w = walk(e.elements)
                if w: return w
            elif pos + e.L <= z:
                y, th = e.A * y + e.B * th, e.C * y + e.D * th; pos += e.L
            elif isinstance(e, g.ns.ThickLens):
                th = (0.0 if e.R1 == INF else -(e.n - 1) / (e.n * e.R1)) * y + th / e.n
                y += (z - pos) * th; pos = z
                return 'in'
            elif isinstance(e, g.ns.Space):
                y += (z - pos) * th; pos = z
                return 'in'
            else: return 'no'
        return ''
    if walk(E) == 'no':
        g.check('refused', out.raised(TypeError)); return
    g.check('accepted', out.ok)
    T = out.value
    g.eq('length', T.L, min(z, G.L))
    g.eq('height', T.A * r.y + T.B * r.theta, y); g.eq('angle', T.C * r.y + T.D * r.theta, th)
