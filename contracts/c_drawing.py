"""Contracts of the drawings (C25): line data of the rays, surfaces, outlines and positions of the elements."""
from rtv.api import *
from contracts.c_optics import radius, MSTUBS
from contracts.c_lens import glass
import types, sys
INF = float('inf')

# ------------------------------------------------------------------ the surfaces of an element
def eq_surfaces(g, name, S, want):
    g.eq(name + ': number', g.len(S), len(want))
    for k, (R, n, L) in enumerate(want):
        s = S[k]
        r = g.force(s.R)
        if g.isinf(R): g.check('%s %d: flat' % (name, k), g.isinf(r))
        else: g.check('%s %d: curved' % (name, k), g.not_(g.t(g.isinf(r)))); g.eq('%s %d: radius' % (name, k), r, R)
        g.eq('%s %d: index behind' % (name, k), s.n, n)
        g.eq('%s %d: spacing' % (name, k), s.L, L)

def turned(surf, media=None):
    """(R, index behind, spacing to the next) seen from the other side, in front of the element: air"""
    n = [1.0] + [s[1] for s in surf]
    out = []
    for k in range(len(surf) - 1, -1, -1):
        out.append((-surf[k][0], n[k], surf[k - 1][2] if k > 0 else 0.0))
    return out

def lens_with_surfaces(g, kind):
    t, t2, ap = g.real('t', pos=True), g.real('t2', pos=True), g.real('diameter', pos=True)
    n, m = g.index('n'), g.index('m')
    R1, R2, R3 = (radius(g, 'R%d' % i) for i in (1, 2, 3))
    for R in (R1, R2, R3):
        if not g.isinf(R): g.assume(g.abs(R) > ap * 0.505)
    if kind == 'thick lens': return g.ns.ThickLens(n, R1, R2, t, ap), [(R1, n, t), (R2, 1.0, 0.0)], t, ap
    if kind == 'slab': return g.ns.DielectricSlab(n, t, ap), [(INF, n, t), (INF, 1.0, 0.0)], t, ap
    if kind == 'singlet':
        e = g.new(g.ns.SingletLens); fill(g, e, R1=R1, R2=R2, tc=t, n=n)
        return e, [(R1, n, t), (R2, 1.0, 0.0)], t, ap
    if kind == 'doublet':
        e = g.new(g.ns.AchromatDoubletLens); fill(g, e, R1=R1, R2=R2, R3=R3, tc1=t, tc2=t2, n1=n, n2=m)
        return e, [(R1, n, t), (R2, m, t2), (R3, 1.0, 0.0)], t + t2, ap
    if kind == 'compound':
        D, S = g.ns.DielectricInterface, g.ns.Space
        e = g.ns.CompoundLens([D(1.0, n, R1, ap), S(t, n), D(n, m, R2, ap), S(t2, m), D(m, 1.0, R3, ap)], None, ap)
        return e, [(R1, n, t), (R2, m, t2), (R3, 1.0, 0.0)], t + t2, ap

def fill(g, e, **prescription):
    """a built lens: its prescription, and nothing else the drawing needs"""
    e.__dict__.update(prescription)
    e.__dict__['isFlipped'] = False
    e.__dict__['elements'] = g.list([])

KINDS = ['thick lens', 'slab', 'singlet', 'doublet', 'compound']
def turn(g, e, kind):
    if kind in ('singlet', 'doublet'): e.isFlipped = not e.isFlipped      # what flipping does to the prescription: nothing (C09)
    else: e.flipOrientation()

@harness('C25', under=['Matrix.surfaces', 'ThickLens.forwardSurfaces', 'DielectricSlab.forwardSurfaces', 'SingletLens.forwardSurfaces', 'AchromatDoubletLens.forwardSurfaces',
                       'CompoundLens.forwardSurfaces', 'ThickLens.flipOrientation', 'MatrixGroup.flipOrientation'], uses=MSTUBS, weight=2)
def surfaces_of_a_lens(g):
    """radii, indices and spacings, in order, in the current orientation"""
    kind = g.choice('kind', KINDS)
    e, want, L, ap = lens_with_surfaces(g, kind)
    eq_surfaces(g, kind, e.surfaces, want)
    turn(g, e, kind)
    eq_surfaces(g, 'flipped ' + kind, e.surfaces, turned(want))
    eq_surfaces(g, 'flipped %s, asked again' % kind, e.surfaces, turned(want))
    turn(g, e, kind)
    eq_surfaces(g, 'twice flipped ' + kind, e.surfaces, want)

@harness('C25', under=['Matrix.surfaces', 'DielectricInterface.surfaces', 'CurvedMirror.surfaces', 'DielectricInterface.forwardSurfaces', 'CurvedMirror.forwardSurfaces'])
def surface_of_an_interface(g):
    n1, n2, R, ap = g.index('n1'), g.index('n2'), radius(g, 'R'), g.real('diameter', pos=True)
    e = g.ns.DielectricInterface(n1, n2, R, ap)
    eq_surfaces(g, 'interface', e.surfaces, [(R, n2, 0.0)])
    e.flipOrientation()
    eq_surfaces(g, 'flipped interface', e.surfaces, [(-R, n1, 0.0)])
    r = g.real('r', nonzero=True)
    m = g.ns.CurvedMirror(r, ap)
    eq_surfaces(g, 'mirror', m.surfaces, [(r, 1.0, 0.0)])

# ------------------------------------------------------------------ outlines
def ends(g, curves):
    """(first point, last point) of each piece of an outline"""
    return [(c.controlPoints[0], c.controlPoints[-1]) for c in curves]

def eq_point(g, name, p, q):
    g.eq(name + ' x', p[0], q[0]); g.eq(name + ' y', p[1], q[1])

def sag(g, R, h):
    return 0.0 if g.isinf(R) else R * (1.0 - g.cos(g.asin(h / g.abs(R))))

def surface_and_height(g, name, h):
    R = radius(g, name)
    if not g.isinf(R):
        g.assume(h <= g.abs(R))
        if not g.symbolic: g.assume(h < 0.99 * abs(R))
    return R

def is_outline(g, name, curves, want):
    """the pieces follow one another through the points wanted"""
    E = ends(g, curves)
    g.check(name + ': number of pieces', len(E) == len(want) - 1)
    for k, (a, b) in enumerate(E):
        eq_point(g, '%s: start of piece %d' % (name, k), a, want[k]); eq_point(g, '%s: end of piece %d' % (name, k), b, want[k + 1])

def front(g, R, x, h):
    """a surface from its lower edge to its upper edge, through its vertex"""
    s = sag(g, R, h)
    return [(x, -h), (x, h)] if g.isinf(R) else [(x + s, -h), (x, 0.0), (x + s, h)]

@harness('C25', under=['Surface.bezierCurves', 'Surface.__init__'])
def outline_of_a_surface(g):
    """through the vertex and the edges of the sphere"""
    h, x = g.real('h', pos=True), g.real('x')
    R = surface_and_height(g, 'R', h)
    c = sys.modules['raytracing.graphicComponents'].Surface(g.ns.SphericalInterface(R=R, L=0.0, n=g.index('n')), h, x)
    is_outline(g, 'surface', c.bezierCurves, front(g, R, x, h))

@harness('C25', under=['SurfacePair.__init__', 'SurfacePair.getPathA', 'SurfacePair.getPathB', 'SurfacePair.bezierCurves'])
def outline_of_two_surfaces(g):
    """up along the first surface, down along the second, closed: vertices at the spacing, edges on the spheres"""
    h, x, t = g.real('h', pos=True), g.real('x'), g.real('t', pos=True)
    Ra, Rb = surface_and_height(g, 'Ra', h), surface_and_height(g, 'Rb', h)
    a, b = g.ns.SphericalInterface(R=Ra, L=t, n=g.index('n')), g.ns.SphericalInterface(R=Rb, L=g.real('next'), n=g.index('m'))
    p = g.ns.SurfacePair(a, b, h, x)
    A, B = front(g, Ra, x, h), front(g, Rb, x + t, h)
    is_outline(g, 'glass', p.bezierCurves, A + B[::-1] + A[:1])
    g.eq('edges', p.corners[0], A[0][0]); g.eq('edges', p.corners[1], B[0][0])
    g.eq('spacing untouched', a.L, t)

@harness('C25', under=['SurfacesGraphic.__init__', 'SurfacesGraphic.mainComponents', 'SurfacesGraphic.apertureComponents', 'MatrixGraphic.__init__', 'MatrixGraphic.components', 'Graphic.__init__'], uses=MSTUBS, weight=3)
def drawn_lens(g):
    """each glass between its two surfaces, one after the other, the edges marked by the aperture"""
    kind = g.choice('kind', ['thick lens', 'slab', 'compound'])
    e, want, L, ap = lens_with_surfaces(g, kind)
    e.label = None
    if g.choice('turned', [0, 1]): turn(g, e, kind); want = turned(want)
    x0 = g.real('x')
    d = g.ns.GraphicOf(e, x=x0)
    g.check('surfaces', type(d) is g.ns.SurfacesGraphic)
    g.eq('position', d.x, x0)
    C = d.components
    g.check('number of glasses', len(C) == len(want))
    x = 0.0; h = ap / 2
    for k in range(len(want) - 1):
        A, B = front(g, want[k][0], x, h), front(g, want[k + 1][0], x + want[k][2], h)
        is_outline(g, 'glass %d' % k, C[k].bezierCurves, A + B[::-1] + A[:1])
        x = x + want[k][2]
        g.check('drawn at scale', C[k].hasFixedWidth)
    first, last = sag(g, want[0][0], h), L + sag(g, want[-1][0], h)
    bars = C[-1]
    g.eq('edge', bars.y, h)
    if g.symbolic or last - first > 0.0101:
        g.eq('edge starts', bars.x, first)
        if last - first != 0: g.eq('edge width', bars.width, last - first)
    g.eq('length', x, L)

@harness('C25', under=['MatrixGraphic.mainComponents', 'MatrixGraphic.apertureComponents', 'LensGraphic.mainComponents', 'ApertureGraphic.mainComponents', 'GraphicOf.__new__'])
def drawn_element(g):
    """a lens as an arrow over its aperture, an aperture as its edges, anything else as a box over its length; a space is not drawn"""
    kind = g.choice('kind', ['box', 'lens', 'aperture', 'space', 'interface', 'mirror'])
    ap, x0 = g.real('diameter', pos=True), g.real('x')
    if kind == 'box': e = g.matrix('m', apertureDiameter=ap)
    elif kind == 'lens': e = g.ns.Lens(g.real('f', nonzero=True), ap)
    elif kind == 'aperture': e = g.ns.Aperture(ap)
    elif kind == 'space': e = g.ns.Space(g.real('d'), g.index('n'), ap)
    elif kind == 'interface':
        R = surface_and_height(g, 'R', ap / 2); e = g.ns.DielectricInterface(g.index('n1'), g.index('n2'), R, ap)
    else:
        R = g.real('R', nonzero=True); g.assume(ap / 2 <= g.abs(R)); e = g.ns.CurvedMirror(R, ap)
        if not g.symbolic: g.assume(ap / 2 < 0.99 * abs(R))
    e.label = None
    L = e.L
    d = g.ns.GraphicOf(e, x=x0)
    if kind == 'space': g.check('not drawn', d is None); return
    g.eq('position', d.x, x0)
    C = d.components; h = ap / 2
    if kind in ('interface', 'mirror'):
        g.check('one surface', len(C) == 1)
        is_outline(g, 'surface', C[0].bezierCurves, front(g, R, 0.0, h)); return
    if kind == 'box':
        g.check('a box and its edges', len(C) == 2)
        is_outline(g, 'box', C[0].bezierCurves, [(0.0, -h), (0.0, h), (L, h), (L, -h), (0.0, -h)])
    if kind == 'lens':
        g.check('an arrow and its edges', len(C) == 2)
        a, b = ends(g, C[0].bezierCurves)[0]
        eq_point(g, 'arrow from', a, (0.0, -h)); eq_point(g, 'arrow to', b, (0.0, h))
    if kind == 'aperture': g.check('edges only', len(C) == 1)
    g.eq('edges at the aperture', C[-1].y, h)

# ------------------------------------------------------------------ where the elements are drawn
def figure_of(g, path):
    F = g.new(g.ns.Figure)
    F.__dict__.update(path=path, raysList=[], graphicGroups={}, lineGroups={}, labels=[], points=[], annotations=[],
                      designParams={'removeBlockedRaysCompletely': False, 'rayColors': ['b', 'r', 'g'], 'lampRayColors': ['y']})
    return F

def placed(g, e, x): return ('drawn', e.A, e.B, e.C, e.D, e.L, x)

@stub('GraphicOf.__new__')
def stub_graphic(g, cls, element, x=0.0, minSize=0):
    """contract drawn_element: what is drawn of an element, as a value"""
    return None if g.isinstance(element, g.ns.Space) else placed(g, element, x)

@harness('C25', mode='sym', under=['Figure.graphicsOfElements', 'Figure.lines'], uses=['GraphicOf.__new__'])
def elements_where_they_are(g):
    """every element but the spaces, in order, at the sum of the lengths before it"""
    E = g.elements('E', lo=0)
    F = figure_of(g, types.SimpleNamespace(elements=E, showElementLabels=True))
    def expected(i):
        e = E[i]
        return [] if g.isinstance(e, g.ns.Space) else [placed(g, e, g.fold(E[:i]).L)]
    want = g.emissions('drawn', E, expected)
    g.seq_eq('drawings', F.graphicsOfElements, want)

# ------------------------------------------------------------------ lines of the rays
@harness('C25', under=['Figure.rearrangeRayTraceForPlotting'])
def points_of_a_trace(g):
    """the positions and heights of the rays that are not blocked, in order"""
    R = g.rays('R')
    F = figure_of(g, None)
    whole = g.choice('only complete traces', [False, True])
    F.designParams['removeBlockedRaysCompletely'] = whole
    def part(f): return lambda i: [] if R[i].isBlocked else [g.raw(R[i], f)]
    X, Y = g.emissions('positions', R, part('z')), g.emissions('heights', R, part('y'))
    x, y = F.rearrangeRayTraceForPlotting(R)
    if not whole or not g.symbolic and not any(r.isBlocked for r in R):
        g.seq_eq('positions', x, X); g.seq_eq('heights', y, Y)
    elif not g.symbolic: g.check('nothing', len(x) == 0 and len(y) == 0)
    elif g.len(x) != 0 or g.len(y) != 0:
        g.seq_eq('positions', x, X); g.seq_eq('heights', y, Y)

class Coordinates:
    """the coordinates of the points of trace i, shifted along the axis"""
    def __init__(self, g, axis, i, shift=0.0): self.g, self.axis, self.i, self.shift = g, axis, i, shift
    def __len__(self): return self.g.whole('points', self.i)
    def __getitem__(self, k): return self.g.quantity(self.axis, self.i, k) + self.shift
    def __add__(self, d): return Coordinates(self.g, self.axis, self.i, self.shift + d)
    __radd__ = __add__

class ATrace:
    def __init__(self, i): self.i = i

@stub('Figure.rearrangeRayTraceForPlotting')
def stub_points(g, F, t):
    """contract points_of_a_trace: as many positions as heights, named"""
    return Coordinates(g, 'x', t.i), Coordinates(g, 'y', t.i)

@stub('Line.__new__')
def stub_line(g, cls, xData, yData, color='k', lineWidth=1, lineStyle='-', label=None):
    """a line, as a value"""
    return ('line', xData.axis, xData.i, xData.shift, yData.axis, yData.i, yData.shift, label)

def line_described(i, dz): return ('line', 'x', i, dz, 'y', i, 0.0, 'ray')

@harness('C25', mode='sym', under=['Figure.rayTraceLines'], uses=['Figure.rearrangeRayTraceForPlotting', 'Line.__new__'])
def a_line_for_each_trace(g):
    """a line through the points of every trace that has points, in order"""
    T = g.numbered('T', ATrace)
    asked = []
    class Path:
        def traceMany(self, rays): asked.append(rays); return g.copy(T)
    F = figure_of(g, Path())
    F.designParams['rayColors'] = g.list(['b', 'r', 'g'])
    R = types.SimpleNamespace(z=0.0, rayColors=g.choice('colors', [None, 'own']))
    if R.rayColors: R.rayColors = g.list(['b', 'r', 'g'])
    want = g.emissions('lines', T, lambda i: [] if g.whole('points', i) == 0 else [line_described(i, 0.0)])
    lines = F.rayTraceLines(R)
    g.check('the rays of the display', len(asked) == 1 and asked[0] is R)
    g.seq_eq('lines', lines, want)

# ------------------------------------------------------------------ whole figures (bounded)
def flat_elements(E, x):
    out = []
    for e in E: out.append((e, x)); x += e.L
    return out

@harness('C25', mode='con', under=['Figure.graphicsOfElements', 'MatrixGroupGraphic.standAloneGraphics', 'GraphicOf.__new__'])
def drawings_of_a_path(g):
    """bounded: the elements of a path, and those of its groups, at their positions"""
    E = g.elements('E', groups=True, nonneg=True)
    path = g.ns.ImagingPath(E)
    G = g.ns.Figure(path).graphicsOfElements
    want = []
    for e, x in flat_elements(E, 0.0):
        if type(e) is g.ns.MatrixGroup: want += flat_elements(e.elements, x)
        else: want.append((e, x))
    want = [(e, x) for e, x in want if not g.isinstance(e, g.ns.Space)]
    g.check('number of drawings', len(G) == len(want))
    for k, (d, (e, x)) in enumerate(zip(G, want)):
        g.check('drawing %d: element' % k, d.matrix is e); g.eq('drawing %d: position' % k, d.x, x)

@harness('C25', mode='con', under=['Figure.setLinesFromRaysList', 'Figure.rayTraceLines', 'Figure.rearrangeRayTraceForPlotting', 'Line.patch'])
def lines_of_a_display(g):
    """bounded: the lines of any rays, from the front of the path or from inside one of its spaces"""
    r = g.rng
    E = g.elements('E', lo=1, groups=True, nonneg=True, air=True)
    path = g.ns.ImagingPath(E)
    F = g.ns.Figure(path)
    whole = g.choice('only complete traces', [False, True])
    F.designParams['removeBlockedRaysCompletely'] = whole
    def points(trace, dz=0.0, sign=1):
        if whole and any(x.isBlocked for x in trace): return []
        return [(dz + sign * x.z, x.y) for x in trace if not x.isBlocked]
    inside = [(e, x) for e, x in flat_elements(E, 0.0) if isinstance(e, g.ns.Space) and e.L > 0]
    want = []
    F.raysList = []
    for k in range(r.randrange(0, 4)):
        z = 0.0
        if inside and r.random() < .4:
            e, x = r.choice(inside); z = x + e.L * r.choice([0.25, 0.5, 0.7])
        kind = r.choice(['object', 'lamp', 'uniform', 'rays'])
        d = r.choice([0.0, 1.0, 3.0, 20.0])
        if kind == 'object': C = g.ns.ObjectRays(d, halfAngle=0.1, H=r.randrange(1, 4), T=r.randrange(1, 4), z=z)
        elif kind == 'lamp': C = g.ns.LampRays(d + 1, NA=0.2, N=7, z=z)
        elif kind == 'uniform': C = g.ns.UniformRays(yMax=d + 1, M=3, N=2); C.z = z
        else: C = g.ns.Rays([g.ns.Ray(y=r.choice([-d, d, 0.0, 2.0]), theta=r.choice([0.0, 0.1, -0.3])) for _ in range(r.randrange(1, 5))]); C.z = z
        rays = [g.ns.Ray(y=x.y, theta=x.theta) for x in C]
        if z == 0: new = [points(path.trace(x)) for x in rays]
        else:
            try: f, b = path.subPath(zStart=z), path.subPath(zStart=z, backwards=True)
            except ValueError: continue            # turned media: refused (C23)
            new = [points(f.trace(x), z) for x in rays] + [points(b.trace(x), z, -1) for x in rays]
        if kind in ('rays', 'uniform') and len(set(x.y for x in rays)) == 0: continue
        F.raysList.append(C); want += [p for p in new if p]
    F.setLinesFromRaysList()
    got = sorted([[(float(a), float(b)) for a, b in zip(l.xData, l.yData)] for l in F.lines])
    g.check('number of lines: %d instead of %d' % (len(got), len(want)), len(got) == len(want))
    for a, b in zip(got, sorted(want)):
        g.check('number of points', len(a) == len(b))
        for p, q in zip(a, b): eq_point(g, 'point', p, q)
    for l in F.lines:
        g.check('all points', len(l.xData) == len(l.yData))
        x, y = l.patch.get_data()
        g.check('drawn as they are', list(x) == list(l.xData) and list(y) == list(l.yData))

@harness('C25', mode='con', cases=25, under=['MplFigure.draw', 'MplFigure.drawGraphics', 'MplFigure.updateGraphics', 'Component.patch'])
def on_screen(g):
    """bounded: what is put on the axes is at the position of the element, and through the points of its outline"""
    import matplotlib.pyplot as plt
    E = g.elements('E', lo=1, groups=True, nonneg=True, air=True)
    path = g.ns.ImagingPath(E)
    F = g.ns.Figure(path); F.raysList = [g.ns.UniformRays(yMax=1, thetaMax=0.1, M=2, N=2)]
    F.setLinesFromRaysList()
    try: F.setGraphicsFromOpticalPath()
    except TypeError: g.assume(False)       # the stop is inside an element that cannot be divided (C13)
    M = F.mplFigure
    try:
        M.create(); M.draw()
        T = M.axes.transData
        for d in M.graphics:
            for c in d.components:
                p = c.patch
                g.check('on the axes', p in M.axes.patches)
                pts = [q for b in c.bezierCurves for q in b.controlPoints]
                g.check('points of the outline', [tuple(map(float, q)) for q in p.get_path().vertices] == [tuple(map(float, q)) for q in pts])
                t = p.get_transform() - p.get_data_transform() if False else p.get_transform()
                x, y = pts[0]
                if not c.hasFixedWidth: x = 0.0
                a = t.transform((x, y)); b = T.transform((d.x + x, d.y + y))
                g.check('at its position', abs(a[0] - b[0]) < 1e-6 * (1 + abs(b[0])) and abs(a[1] - b[1]) < 1e-6 * (1 + abs(b[1])))
        for l in M.lines: g.check('line on the axes', l.patch in M.axes.lines)
    finally: plt.close('all')
