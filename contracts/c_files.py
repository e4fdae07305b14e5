"""Contracts of saving and loading groups (C22; rays: c_rays.py)."""
from rtv.api import *
from contracts.c_group import check_group, EDIT, NOSPACE, edited
INF = float('inf')
CLASSES = ['MatrixGroup', 'ImagingPath', 'LaserPath']

@harness('C22', 'C03', under=['MatrixGroup.load'], uses=EDIT)
def load_elements(g):
    """loaded elements replace those present, or come after them, in order"""
    E = g.elements('E', **NOSPACE); before = g.copy(E)
    G = g.group(E)
    L = g.elements('L', **NOSPACE)
    want = g.copy(L)
    path = g.file('group', L)
    if g.choice('append', [0, 1]): edited(g, G, before, before + want, lambda: G.load(path, append=True))
    else: edited(g, G, before, want, lambda: G.load(path))

@harness('C22', under=['MatrixGroup.load'], uses=EDIT)
def load_something_else_than_elements(g):
    E = g.elements('E', **NOSPACE); before = g.copy(E)
    G = g.group(E)
    what = g.choice('what', ['number', 'none', 'string', 'other item', 'rays', 'one element'])
    if what == 'number': bad = 3.5
    elif what == 'none': bad = None
    elif what == 'string': bad = 'abc'
    elif what == 'rays': bad = g.list([g.ns.Ray(1.0, 0.5)])
    elif what == 'one element': bad = g.ns.Lens(f=5)
    else:
        L = g.elements('L', **NOSPACE)
        bad = g.copy(L); bad.insert(g.position('i', L) if g.len(L) != 0 else 0, g.choice('item', [3, None, 'x']))
    path = g.file('bad', bad)
    app = g.choice('append', [False, True])
    g.check('refused', not g.attempt(lambda: G.load(path, append=app)).ok)
    check_group(g, 'untouched', G, before)
    g.check('missing file', g.attempt(lambda: G.load(g.new_path('nothing'), append=app)).raised(FileNotFoundError))
    check_group(g, 'still untouched', G, before)

@harness('C22', under=['MatrixGroup.save'], uses=EDIT, cases=100)
def save_elements(g):
    """the file holds the elements in order; the group is untouched"""
    E = g.elements('E', groups=True); before = g.copy(E)
    G = g.group(E)
    path = g.new_path('group')
    if g.choice('exists', [0, 1]): g.file('group', g.list([]))
    G.save(path)
    g.seq_eq('in the file', g.stored(path), before)
    check_group(g, 'untouched', G, before)

@harness('C22', mode='con', cases=150)
def group_saved_and_loaded(g):
    E = g.elements('E', groups=True); before = g.copy(E)
    G = g.group(E)
    path = g.new_path('group')
    G.save(path)
    H = g.group(g.elements('H', groups=True))
    H.load(path)
    g.seq_eq('loaded', H.elements, before)
    if not g.symbolic: g.eq_spec('product', H, g.fold(before))
    check_group(g, 'the group saved', G, before)
    g.check('separate elements', not g.and_(g.t(g.len(before) != 0), H.elements is G.elements))

REAL = [lambda ns, r: ns.Space(d=r.choice([0.0, 5.0, 12.5]), diameter=r.choice([INF, 25.4]), label='s'),
        lambda ns, r: ns.Lens(f=r.choice([5.0, -10.0]), diameter=r.choice([INF, 10.0]), label='lens'),
        lambda ns, r: ns.Aperture(diameter=r.choice([5.0, 10.0]), label='A'),
        lambda ns, r: ns.ThickLens(n=1.5, R1=r.choice([10.0, INF]), R2=-20.0, thickness=2.5, diameter=12.0),
        lambda ns, r: ns.DielectricSlab(n=1.5, thickness=4.0, diameter=r.choice([INF, 5.0])),
        lambda ns, r: ns.CurvedMirror(R=r.choice([10.0, -20.0]), diameter=8.0),
        lambda ns, r: ns.Axicon(alpha=0.02, n=1.5, diameter=20.0),
        lambda ns, r: ns.System2f(f=10.0, diameter=5.0, label='2f'),
        lambda ns, r: ns.MatrixGroup([ns.Space(d=1.0), ns.Lens(f=5.0), ns.MatrixGroup([ns.Space(d=2.0)])], label='nested'),
        lambda ns, r: ns.Matrix(A=1, B=2, C=0.5, D=2, physicalLength=3.0, frontVertex=0.0, backVertex=2.0, apertureDiameter=r.choice([INF, 3.0])),
        lambda ns, r: ns.SingletLens(f=100.0, fb=98.48, R1=51.68, R2=INF, tc=3.6, te=2.0, n=1.517, diameter=25.4, mat=None) if False else ns.Lens(f=3.0),
        lambda ns, r: ns.thorlabs.AC254_050_A() if hasattr(ns, 'thorlabs') else ns.Lens(f=7.0),
        lambda ns, r: ns.olympus.LUMPlanFL40X() if hasattr(ns, 'olympus') else ns.Lens(f=8.0)]

@harness('C22', mode='con', cases=150)
def every_kind_of_element_survives(g):
    """bounded: groups and paths of every class of element, also turned around, come back equal in every attribute"""
    r = g.rng
    C = r.choice([g.ns.MatrixGroup, g.ns.ImagingPath, g.ns.LaserPath, g.ns.OpticalPath if hasattr(g.ns, 'OpticalPath') else g.ns.MatrixGroup])
    els = [f(g.ns, r) for f in (r.choice(REAL) for _ in range(r.randrange(0, 6)))]
    for e in els:
        if r.random() < 0.3:
            try: e.flipOrientation()
            except Exception: pass
    G = C(list(els))
    G.save(g.new_path('kinds'))
    H = C([g.ns.Space(d=1.0)]) if r.random() < 0.5 else C()
    if r.random() < 0.4:
        old = list(H.elements)
        H.load(g.ns.home + '/work/kinds', append=True)
        g.seq_eq('appended', H.elements, old + els)
    else:
        H.load(g.ns.home + '/work/kinds')
        g.seq_eq('loaded', H.elements, els)
    g.seq_eq('the group saved is untouched', G.elements, els)
    H2 = C(); H2.load(g.ns.home + '/work/kinds'); H2.append(g.ns.Space(d=3.0))
    H3 = C(); H3.load(g.ns.home + '/work/kinds')
    g.seq_eq('loaded again', H3.elements, els)
