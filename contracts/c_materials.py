"""Contracts of the materials (C19)."""
from rtv.api import *
D, F, C = 0.5875618, 0.4861327, 0.6562725       # the d, F and C lines (µm)
BAND = (0.35, 2.5)                              # where every material of the library is transparent (µm)

def glasses(g): return [c for c in type.__subclasses__(g.ns.Material)]
def glass(g):
    cs = {c.__name__: c for c in glasses(g)}
    return cs[g.choice('glass', sorted(cs))]

@harness('C19', under=['materials.*.n'], cases=400)
def index_of_glass(g):
    """in the band, a real number, finite, not below one; the same through the class or an object"""
    c = glass(g)
    w = g.real('w', *BAND) if g.symbolic else g.between('w', *BAND)
    n = c.n(w)
    g.check('real', g.is_real(n))
    g.check('finite', g.not_(g.isinf(n)))
    g.check('not below one', g.t(n >= 1))
    g.eq('the same for an object', c().n(w), n)

@harness('C19', mode='con', cases=800)
def dispersion_of_glass(g):
    """bounded: in the band, the index decreases with the wavelength, so that it is the index of one wavelength only"""
    c = glass(g)
    if c.__name__ == 'Air': raise Discard('Air')
    w1, w2 = g.between('w1', *BAND), g.between('w2', *BAND)
    g.assume(w1 < w2)
    g.separated(w1, w2)
    g.check('decreases', g.t(c.n(w1) > c.n(w2)))

@harness('C19', under=['materials.*.n'], cases=300)
def wavelength_not_accepted(g):
    c = glass(g)
    how = g.choice('wavelength', ['too long', 'too short', 'infinite', 'none', 'text', 'list', 'complex', 'minus infinity'])
    w = {'infinite': float('inf'), 'minus infinity': -float('inf'), 'none': None, 'text': '0.5', 'list': [0.5], 'complex': 0.5 + 0.1j}.get(how)
    if how == 'too long': w = g.real('w', 10); g.assume(w > 10)
    if how == 'too short': w = g.real('w', None, 0.01); g.assume(w < 0.01)
    for f in (c.n, c().n):
        r = g.attempt(lambda: f(w))
        g.check('refused', r.raised(TypeError if how in ('none', 'text', 'list', 'complex') else ValueError))

@harness('C19', under=['materials.*.n'], cases=200)
def wavelength_accepted(g):
    """the limits are accepted"""
    c = glass(g)
    w = g.choice('w', [0.01, 10, 10.0, 1])
    g.check('accepted', g.attempt(lambda: c.n(w)).ok)

@harness('C19', under=['materials.*.abbeNumber', 'Material.Vd'], cases=200)
def abbe_number(g):
    """(n_d - 1) / (n_F - n_C), to 0.1 %"""
    c = glass(g)
    if c.__name__ == 'Air': raise Discard('Air')
    V = (c.n(D) - 1) / (c.n(F) - c.n(C))
    for a in (c.abbeNumber(), c.Vd(), c().abbeNumber(), c().Vd()): g.check('Abbe number', abs(a - V) <= 1e-3 * V)

@harness('C19', under=['Material.n', 'Material.abbeNumber'])
def no_material_in_particular(g):
    g.check('no index', g.attempt(lambda: g.ns.Material.n(g.real('w', *BAND))).raised(TypeError))
    g.check('no Abbe number', g.ns.Material.abbeNumber() is None)

@harness('C19', under=['Material.all'])
def names_of_materials(g):
    """each material of the library, once, by the name of its class"""
    names = list(g.ns.Material.all())
    g.check('each once', sorted(names) == sorted(c.__name__ for c in glasses(g)) and len(set(names)) == len(names))
    g.check('some', len(names) >= 30 and 'Air' in names)
    plain = [n.replace('_', '').lower() for n in names]
    g.check('told apart without dashes and case', len(set(plain)) == len(plain))
    for n in names: g.check('accessible by that name', g.isinstance(getattr(g.ns, n)(), g.ns.Material) and getattr(g.ns, n).__name__ == n)

@harness('C19', under=['Material.findByName', 'utils.areTheSame'])
def material_by_name(g):
    """any text: the material of that name but for case and dashes, or a refusal"""
    t = g.text('name')
    r = g.attempt(lambda: g.ns.Material.findByName(t))
    ms = [c for c in glasses(g) if g.t(g.name_matches(t, c.__name__))]
    if ms:
        g.check('found', r.ok)
        g.check('that material', type(r.value) is ms[0])
        g.check('only one', len(ms) == 1)
    else: g.check('refused', r.raised(ValueError))

@harness('C19', under=['Material.findByName', 'Material.__str__'], cases=200)
def name_of_a_material(g):
    """its name written with dashes, by which it is found again"""
    c = glass(g)
    s = str(c())
    g.check('its name', s == c.__name__.replace('_', '-'))
    for n in (s, s.lower(), s.upper(), s.replace('-', ''), '-' + s): g.check('found again', type(g.ns.Material.findByName(n)) is c)
    g.check('no name: air', type(g.ns.Material.findByName(None)) is g.ns.Air)

@stub('Material.all@any')
def stub_all(g, cls):
    """contract names_of_materials, for any list of materials"""
    return g.material_names()

@harness('C19', under=['Material.findByIndex'], uses=['Material.all@any'])
def material_by_index(g):
    """exactly the materials whose index differs by less than the tolerance, in order"""
    n, w = g.real('n'), (g.real('w', *BAND) if g.symbolic else g.between('w', *BAND))
    if g.drawn: n = g.choice('n near', [n, 1.5, 1.6, 1.7, 1.8, 1.52])
    tol = g.real('tolerance', nonneg=True) if g.choice('tolerance given', [True, False]) else None
    limit = 0.05 if tol is None else tol
    names = g.material_names() if g.symbolic else g.ns.Material.all()
    want = g.filter_list('close', names, lambda k: g.index_entry(k, w), lambda e: g.t(abs(n - e[1]) < limit))
    got = g.ns.Material.findByIndex(n, w) if tol is None else g.ns.Material.findByIndex(n, w, tol)
    g.seq_eq('materials within the tolerance', got, want)
