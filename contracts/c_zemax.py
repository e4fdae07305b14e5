"""Contracts of the reader of lens files (C21)."""
from rtv.api import *
INF = float('inf')
MM = {'MM': 1, 'mm': 1, 'IN': 25.4, 'in': 25.4}

def reader(g, factor=None, wavelength=None):
    Z = g.new(g.ns.ZMXReader)
    Z.factor = factor if factor is not None else g.choice('factor', [1, 25.4, 10, 1000])
    Z.designWavelength = wavelength
    Z.name = 'lens'
    return Z

@stub('ZMXReader.rawSurfaceInfo@any')
def stub_raw(g, Z, index):
    return g.raw

@stub('Material.findByName@any')
def stub_find(g, cls, name):
    """contract material_by_name"""
    if name is None: return g.ns.Air()
    if not g.bool('known material'): raise ValueError('unknown material')
    g.asked.append(name)
    return g.material

@harness('C21', mode='sym', under=['ZMXReader.surfaceInfo'], uses=['ZMXReader.rawSurfaceInfo@any', 'Material.findByName@any'])
def surface_info(g):
    """one surface: radius, diameter, glass, spacing, in millimetres, for any numbers"""
    Z = reader(g)
    i = g.int('index', 0)
    g.asked = []
    g.raw = None
    if g.choice('listed', [True, False]):
        c, d, t = g.real('curvature'), g.real('semi-diameter', nonneg=True), g.real('spacing')
        g.raw = {'SURF': i, 'CURV': [g.number_text(c), '0', '""'], 'TYPE': ['STANDARD'], 'DISZ': [g.number_text(t)], 'COMM': ['1']}
        limited, glass, far = g.choice('semi-diameter given', [True, False]), g.choice('glass given', [True, False]), g.choice('infinitely far', [True, False])
        if limited: g.raw['DIAM'] = [g.number_text(d), '1', '0']
        if glass: g.raw['GLAS'] = [g.text('glass'), '0', '1.5']
        if far: g.raw['DISZ'] = ['INFINITY']
        g.material = g.optical_surface(g.surfaces('any', 1), 0).mat
    r = g.attempt(lambda: Z.surfaceInfo(i))
    if g.raw is None: g.check('nothing', r.ok and r.value is None); return
    if not r.ok:
        g.check('refused: the glass is unknown', r.raised(ValueError) and glass and not g.asked); return
    s = r.value
    g.eq('number', s.number, i)
    if c == 0: g.check('flat', s.R == INF)
    else: g.eq('radius', s.R * c, Z.factor)
    if limited: g.eq('diameter', s.diameter, 2 * d * Z.factor)
    else: g.check('no diameter', s.diameter == INF)
    if glass:
        g.check('glass', s.mat == g.material)
        g.check('of that name', len(g.asked) == 1 and g.asked[0] is g.raw['GLAS'][0])
    else: g.check('air', type(s.mat) is g.ns.Air)
    if far: g.check('infinitely far', s.spacing == INF)
    else: g.eq('spacing', s.spacing, t * Z.factor)

@stub('ZMXReader.surfaceInfo@any')
def stub_info(g, Z, index):
    """contract surface_info: surface number index if there is one"""
    if index >= g.len(g.all) or index < 0: return None
    return g.all[index]

@harness('C21', mode='sym', under=['ZMXReader.surfaces'], uses=['ZMXReader.surfaceInfo@any'])
def surfaces_in_order(g):
    """every surface, in order (up to 1000)"""
    Z = reader(g, 1)
    g.all = g.surfaces('S')
    g.assume(g.len(g.all) <= 1000)
    g.threshold(g.len(g.all))
    g.seq_eq('surfaces', Z.surfaces(), g.all)

@stub('ZMXReader.surfaces@any')
def stub_surfaces(g, Z): return g.copy(g.all)

@harness('C21', mode='sym', under=['ZMXReader.lensSurfaces'], uses=['ZMXReader.surfaces@any'])
def lens_surfaces(g):
    """from the first surface followed by a glass to the first followed by air after it"""
    Z = reader(g, 1)
    a, b = g.int('first', 0), g.int('last', 0)
    g.assume(a < b)
    g.all = g.surfaces('S', facts=[lambda i: g.fact(g.lens_at(g.all_base, i, a, b))])
    g.all_base = g.all
    g.assume(b < g.len(g.all))
    g.threshold(a); g.threshold(b)
    g.from_position('lens', g.all, a)
    g.seq_eq('lens', Z.lensSurfaces(), g.all[a:b + 1])

def described(g, m):
    """an element, as a value"""
    kind = 'interface' if g.isinstance(m, g.ns.DielectricInterface) else 'space' if g.isinstance(m, g.ns.Space) else 'other'
    return (kind, m.A, m.B, m.C, m.D, m.L, m.frontIndex, m.backIndex, m.apertureDiameter, m.frontVertex, m.backVertex, m.R if kind == 'interface' else None)

@stub('MatrixGroup.append@described')
def stub_append(g, G, m):
    """contract append_an_element; the elements are noted as values"""
    if g.len(G.elements) != 0:
        if G.backIndex != m.frontIndex:
            if not g.isinstance(m, g.ns.Space): raise ValueError('Mismatch of indices between last element and appended element')
            m.frontIndex = m.backIndex = G.backIndex
    G.elements.append(described(g, m))
    G.backIndex = m.backIndex

@stub('ZMXReader.lensSurfaces@any')
def stub_lens(g, Z): return g.copy(g.all)

@harness('C21', mode='sym', under=['ZMXReader.matrixGroup', 'DielectricInterface.__init__', 'Space.__init__'], uses=['ZMXReader.lensSurfaces@any', 'MatrixGroup.append@described'])
def group_of_a_lens(g):
    """at the design wavelength, each refracting surface and the glass behind it; any number of surfaces"""
    w = g.real('wavelength', 0.35, 2.5)
    Z = reader(g, 1, w)
    g.all = g.surfaces('S', 2, facts=[lambda i: g.fact(g.lens_at(g.all, i, 0, g.len(g.all) - 1)), lambda i: g.fact(g.index_facts(g.all, i, w))])
    def expected(i):
        s = g.all[i]
        n1 = 1.0 if i == 0 else g.all[i - 1].mat.n(w)
        n2 = s.mat.n(w)
        els = [g.ns.DielectricInterface(n1, n2, s.R, s.diameter)]
        if i < g.len(g.all) - 1: els.append(g.ns.Space(s.spacing, n2))
        return [described(g, m) for m in els]
    want = g.emissions('elements', g.all, expected)
    g.attribute_invariant('backIndex', lambda k: g.all[k - 1].mat.n(w))
    G = Z.matrixGroup()
    g.check('a group', type(G) is g.ns.MatrixGroup)
    g.seq_eq('elements', G.elements, want)
    g.check('label', G.label == 'lens')

# ------------------------------------------------------------------ whole files
@harness('C21', mode='con', cases=4000)
def lens_file(g):
    """bounded: random files (units, encodings, order of the parameters, other lines), read and compared with what was written"""
    r = g.rng
    names = [c.__name__ for c in type.__subclasses__(g.ns.Material)]
    glasses = [n for n in names if n != 'Air']
    unit = r.choice(['MM', 'IN', 'CM', 'METER', 'mm', 'in', None])
    f = {'mm': 1, 'in': 25.4, 'cm': 10, 'meter': 1000}[(unit or 'mm').lower()]
    waves = [r.choice([0.4861, 0.5876, 0.6563, 1.064, 0.55, 0.7, 1.2]) for _ in range(r.choice([1, 1, 2, 3, 4, 5]))]
    listed = waves + [0.55] * r.choice([0, 0, 3, 20])
    used = list(listed)
    while len(used) > 1 and used[-1] == 0.55: used.pop()
    before, inside, after = r.randrange(0, 4), r.randrange(1, 6), r.randrange(0, 3)
    if r.random() < .2: inside = r.randrange(6, 14)
    surf = []
    def number(x): return r.choice(['%.17g', '%.17E', '%r', '%+.18e']) % x
    for k in range(before + inside + 1 + after):
        glass = r.choice(glasses) if before <= k < before + inside else r.choice([None] * 4 + glasses) if k > before + inside else None
        c = r.choice([0.0, r.uniform(-.2, .2), r.uniform(-2, 2), 0.01])
        d = r.choice([None, r.uniform(0.1, 50), 12.7])
        t = r.choice([0.0, r.uniform(0, 30), r.uniform(0, 30), 5.0]) if before <= k < before + inside else r.choice([0.0, 97.1, 'INFINITY' if k < before else 12.0])
        surf.append((c, d, t, glass))
    lines = ['VERS 120928 0 30221', 'MODE SEQ', 'NAME lens', '']
    head = ['UNIT %s X W X CM MR CPMM' % unit] if unit else []
    head += ['NOTE 0 GLAS N-BK7 in SURF 1', 'PFIL 0 0 0', 'ENPD 2.286E+1', 'GCAT SCHOTT', 'SURFACES 3', 'DIAMETER 1', 'COFN QF "COATING.DAT" "PROFILE.GRD"', 'PWAV 2']
    r.shuffle(head)
    lines += head + ['WAVM %d %s 1' % (k + 1, number(w)) for k, w in enumerate(listed)]
    if r.random() < .5: lines += ['GLRS 1 0', 'WAVN 0.1']
    for k, (c, d, t, glass) in enumerate(surf):
        lines.append('SURF %d' % k)
        p = ['CURV %s 0 0 0 0 ""' % number(c), 'DISZ %s' % (t if isinstance(t, str) else number(t)), 'TYPE STANDARD', 'HIDE 0 0 0 0', 'MIRR 2 0', 'SLAB %d' % (k + 3)]
        if d is not None: p.append('DIAM %s 1 0 0 1 ""' % number(d))
        if glass: p.append('GLAS %s 0 0 1.5 64 0' % r.choice([glass.replace('_', '-'), glass.replace('_', ''), glass.replace('_', '-').lower()]))
        if r.random() < .3: p += ['COMM 3 CURV 1', 'STOP', 'PARM 1 0', 'PARM 2 0']
        r.shuffle(p)
        lines += ['  ' + x + r.choice(['', ' ']) for x in p]
    lines += ['TOL TOFF   0   0   0', 'MNUM 1 1', 'MOFF   0   1 "" 0 0 0 1 1 0 0.0 ""'][:r.randrange(4)]
    path = g.new_path('lens.zmx')
    enc = r.choice(['utf-8', 'utf-16'])
    with open(path, 'w', encoding=enc, newline='') as out: out.write(r.choice(['\n', '\r\n']).join(lines) + r.choice(['', '\n']))
    Z = g.ns.ZMXReader(path)
    g.check('design wavelength', Z.designWavelength == used[len(used) // 2])
    near = lambda a, b: a == b or abs(a - b) <= 1e-9 * max(abs(a), abs(b))
    def same(s, k):
        c, d, t, glass = surf[k]
        g.check('number', s.number == k)
        g.check('radius', s.R == INF if c == 0 else near(s.R, f / float(c)))
        g.check('diameter', near(s.diameter, INF if d is None else 2 * d * f))
        g.check('spacing', near(s.spacing, float(t) * f))
        g.check('material', type(s.mat).__name__ == (glass or 'Air'))
    S = Z.surfaces()
    g.check('every surface', len(S) == len(surf))
    for k, s in enumerate(S): same(s, k)
    g.check('none besides', Z.surfaceInfo(len(surf)) is None)
    Ls = Z.lensSurfaces()
    g.check('surfaces of the lens', [s.number for s in Ls] == list(range(before, before + inside + 1)))
    for s in Ls: same(s, s.number)
    G = Z.matrixGroup()
    w = used[len(used) // 2]
    n = [1.0] + [getattr(g.ns, surf[k][3]).n(w) for k in range(before, before + inside)] + [1.0]
    want = []
    for j in range(inside + 1):
        c, d, t, _ = surf[before + j]
        want.append(g.ns.DielectricInterface(n[j], n[j + 1], INF if c == 0 else f / c, INF if d is None else 2 * d * f))
        if j < inside: want.append(g.ns.Space(float(t) * f, n[j + 1]))
    g.check('elements', len(G.elements) == len(want))
    for a, b in zip(G.elements, want):
        g.check('kind', type(a) is type(b))
        for x in ('A', 'B', 'C', 'D', 'L', 'frontIndex', 'backIndex', 'apertureDiameter'): g.check(x, near(getattr(a, x), getattr(b, x)))
    P = g.ns.MatrixGroup(want)
    for x in 'ABCDL': g.check('matrix', abs(getattr(G, x) - getattr(P, x)) <= 1e-8 * (1 + max(abs(getattr(P, y)) for y in 'ABCDL')))
