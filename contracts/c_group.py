"""Contracts of groups: the group is the ordered product of its elements after any edit (C03)."""
from rtv.api import *
INF = float('inf')
MS = ['Matrix.isIdentity', 'Matrix.__mul__']
GS = MS + ['MatrixGroup.transferMatrix', 'MatrixGroup.append']

def set_fields(g, G, s):
    for f in 'ABCDL': setattr(G, f, getattr(s, f))
    G.frontVertex, G.backVertex = g.from_opt(s.fv), g.from_opt(s.bv)
    G.frontIndex, G.backIndex = s.fi, s.bi

@stub('MatrixGroup.transferMatrix')
def stub_group_matrix(g, G, upTo=INF):
    """contract matrix_of_a_group"""
    if g.isinf(upTo) and upTo > 0: return g.element_from(g.fold(G.elements))
    return g.original('MatrixGroup.transferMatrix')(G, upTo=upTo)

@stub('MatrixGroup.append')
def stub_append(g, G, matrix):
    """contract append_an_element"""
    matrix = g.force(matrix)
    if not g.isinstance(matrix, g.ns.Matrix): raise TypeError("'matrix' must be a Matrix instance.")
    if g.len(G.elements) != 0:
        last = G.elements[-1]
        if last.backIndex != matrix.frontIndex:
            if g.isinstance(matrix, g.ns.Space):
                matrix.frontIndex = last.backIndex
                matrix.backIndex = matrix.frontIndex
            else: raise ValueError('Mismatch of indices between last element and appended element')
    G.elements.append(matrix)
    set_fields(g, G, g.fold(G.elements))

def check_group(g, name, G, expected):
    """the class invariant: contents and product"""
    g.seq_eq(name + ': elements', G.elements, expected)
    g.eq_spec(name + ': product', G, g.fold(expected))

@harness('C03', mode='sym', no_fold_lemma=True)
def lemma_product_of_matched_elements(g):
    """induction: the product of elements with matching media is consistent and keeps the outer media"""
    n0 = g.index('idx.lo')
    g.check('base', g.equal(n0, n0))
    p = g.matrix('prev', frontIndex=n0)           # induction hypothesis: consistent, starts in idx(lo), ends in idx(i)
    e = g.matrix('e', frontIndex=p.backIndex)
    s = g.mul(g.spec(e), g.spec(p))
    g.eq('starts in the first medium', s.fi, n0)
    g.eq('ends in the last medium', s.bi, e.backIndex)
    g.check('consistent determinant', g.equal(g.det(s) * s.bi, s.fi))

@harness('C03', under=['MatrixGroup.transferMatrix'], uses=MS)
def matrix_of_a_group(g):
    E = g.elements('E')
    G = g.group(E)
    T = G.transferMatrix()
    g.eq_spec('ordered product', T, g.fold(E))
    g.seq_eq('elements untouched', G.elements, E)

@harness('C03', under=['MatrixGroup.append', 'MatrixGroup.updateTransferMatrix'], uses=MS + ['MatrixGroup.transferMatrix'])
def append_an_element(g):
    E = g.elements('E')
    G = g.group(E)
    before = g.copy(E)
    m = g.element_of_any_kind('m')
    fi, bi = m.frontIndex, m.backIndex
    out = g.attempt(lambda: G.append(m))
    n = g.len(before)
    matched = g.or_(g.t(n == 0), g.t(before[-1].backIndex == fi)) if n != 0 else True
    space = g.isinstance(m, g.ns.Space)
    if matched:
        g.check('accepted', out.ok)
        g.eq('media untouched', m.frontIndex, fi); g.eq('media untouched', m.backIndex, bi)
        check_group(g, 'appended', G, before + g.list([m]))
    elif space:
        g.check('accepted', out.ok)
        g.eq('adopts the medium', m.frontIndex, before[-1].backIndex); g.eq('adopts the medium', m.backIndex, before[-1].backIndex)
        check_group(g, 'appended', G, before + g.list([m]))
    else:
        g.check('refused', out.raised(ValueError))
        check_group(g, 'unchanged', G, before)

# ------------------------------------------------------------------ building and editing
@stub('MatrixGroup.replaceElements')
def stub_replace(g, G, elements):
    """contract replace_the_elements"""
    elements = g.as_list(elements)
    ok = g.chain(elements)
    if not ok: raise ValueError('Mismatch of indices between last element and appended element')
    G.elements = g.copy(elements)
    set_fields(g, G, g.fold(G.elements))

@stub('MatrixGroup.__init__')
def stub_init(g, G, elements=None, label=''):
    """contract group_from_a_list"""
    g.original('MatrixGroup.__init__')(G, None, label=label)
    if elements is not None:
        ok = g.chain(elements)
        if not ok: raise ValueError('Mismatch of indices between last element and appended element')
        G.elements = g.copy(g.as_list(elements))
        set_fields(g, G, g.fold(G.elements))

@harness('C03', under=['MatrixGroup.__init__'], uses=MS + ['MatrixGroup.append', 'MatrixGroup.transferMatrix'])
def group_from_a_list(g):
    """elements with matching media: the group of these elements"""
    E = g.elements('E')
    before = g.copy(E)
    G = g.ns.MatrixGroup(E, label='x')
    check_group(g, 'built', G, before)
    g.seq_eq('the list given is untouched', E, before)
    g.check('the group has its own list', G.elements is not E)
    g.check('label', G.label == 'x')

@harness('C03', under=['MatrixGroup.__init__'], uses=MS + ['MatrixGroup.append', 'MatrixGroup.transferMatrix'])
def empty_group(g):
    G = g.ns.MatrixGroup()
    check_group(g, 'empty', G, g.list([]))
    G2 = g.ns.MatrixGroup([])
    G.append(g.element_of_any_kind('m'))
    g.check('groups do not share their lists', g.len(G2.elements) == 0)

@harness('C03', under=['MatrixGroup.__init__'], uses=MS + ['MatrixGroup.append', 'MatrixGroup.transferMatrix'], no_fold_lemma=True)
def group_from_mismatched_media(g):
    """elements that adopt no medium: refused, or every neighbour matches (stated for an arbitrary pair of neighbours)"""
    E = g.elements('E', matched=False, kinds=(), con_kinds=['Matrix', 'Lens', 'Interface', 'Interface', 'Mirror', 'ThickLens', 'Aperture'])
    before = g.copy(E)
    i = g.ghost_index('i', E)
    g.neighbours_match(E, i)
    out = g.attempt(lambda: g.ns.MatrixGroup(E))
    g.check('built or refused', g.or_(out.ok, out.raised(ValueError)))
    if out.ok:
        G = out.value
        g.seq_eq('elements', G.elements, before)      # with matching neighbours the product is that of group_from_a_list
        if i + 1 < g.len(before): g.eq('neighbours match', before[i].backIndex, before[i + 1].frontIndex)
    g.seq_eq('the list given is untouched', E, before)

@harness('C03', under=['MatrixGroup.replaceElements', 'MatrixGroup.updateTransferMatrix'], uses=MS + ['MatrixGroup.append', 'MatrixGroup.transferMatrix'])
def replace_the_elements(g):
    E, N = g.elements('E'), g.elements('N')
    G = g.group(E)
    kind = g.choice('kind', ['matching', 'not an element'])
    before = g.copy(E)
    if kind == 'matching':
        want = g.copy(N)
        G.replaceElements(N)
        check_group(g, 'replaced', G, want)
        g.check('its own list', G.elements is not N)
    else:
        what = g.choice('what', [None, 'text', 3])
        out = g.attempt(lambda: G.replaceElements(N + g.list([what])))
        g.check('refused', out.raised(TypeError))
        check_group(g, 'unchanged', G, before)

@harness('C03', under=['MatrixGroup.replaceElements'], uses=MS + ['MatrixGroup.append', 'MatrixGroup.transferMatrix'], no_fold_lemma=True)
def replace_by_mismatched_media(g):
    E = g.elements('E')
    N = g.elements('N', matched=False, kinds=(), con_kinds=['Matrix', 'Lens', 'Interface', 'Interface', 'Mirror', 'ThickLens', 'Aperture'])
    before, new = g.copy(E), g.copy(N)
    G = g.group(E)
    i = g.ghost_index('i', N)
    g.neighbours_match(N, i)
    out = g.attempt(lambda: G.replaceElements(N))
    g.check('replaced or refused', g.or_(out.ok, out.raised(ValueError)))
    if out.ok:
        g.seq_eq('replaced', G.elements, new)
        if i + 1 < g.len(new): g.eq('neighbours match', new[i].backIndex, new[i + 1].frontIndex)
    else: check_group(g, 'unchanged', G, before)

EDIT = MS + ['MatrixGroup.replaceElements', 'MatrixGroup.append', 'MatrixGroup.transferMatrix', 'MatrixGroup.__init__']

def edited(g, G, before, want, f, error=None):
    """the edit f does to the group what it does to a list"""
    out = g.attempt(f)
    if error is not None:
        g.check('refused like a list', out.raised(error))
        check_group(g, 'unchanged', G, before)
    elif g.chain(want):
        g.check('accepted', out.ok)
        check_group(g, 'edited', G, want)
    else:
        g.check('mismatched media are refused', out.raised(ValueError))
        check_group(g, 'unchanged', G, before)
    return out

NOSPACE = dict(kinds=(), con_kinds=['Matrix', 'Lens', 'Interface', 'Interface', 'Mirror', 'ThickLens', 'Aperture', 'Slab'])

def an_insertion(g):
    """what can be inserted: an element, a list of elements, a group -> (argument, list of elements)"""
    how = g.choice('how', ['element', 'list', 'group'])
    if how == 'element':
        m = g.element_of_any_kind('m', **NOSPACE); return m, g.list([m])
    N = g.elements('N', **NOSPACE)
    if how == 'group': return g.group(N), g.copy(N)
    return N, g.copy(N)

@harness('C03', under=['MatrixGroup.insert'], uses=EDIT, weight=2)
def insert_elements(g):
    E = g.elements('E', **NOSPACE); before = g.copy(E)
    G = g.group(E)
    arg, new = an_insertion(g)
    i = g.int('i')
    want = before[:i] + new + before[i:]
    edited(g, G, before, want, lambda: G.insert(i, arg))

@harness('C03', under=['MatrixGroup.pop'], uses=EDIT)
def pop_an_element(g):
    E = g.elements('E', **NOSPACE); before = g.copy(E)
    G = g.group(E)
    i = g.int('i')
    want = g.copy(before)
    gone = g.attempt(lambda: want.pop(i))
    out = edited(g, G, before, want, lambda: G.pop(i), None if gone.ok else IndexError)
    if out.ok: g.same_object('the removed element is returned', out.value, gone.value)

@harness('C03', under=['MatrixGroup.__setitem__'], uses=EDIT, weight=2)
def replace_one_item(g):
    E = g.elements('E', **NOSPACE); before = g.copy(E)
    G = g.group(E)
    arg, new = an_insertion(g)
    i = g.int('i')
    n = g.len(before)
    valid = g.and_(i >= -n, i < n)
    def f(): G[i] = arg
    if valid:
        j = i if i >= 0 else i + n
        edited(g, G, before, before[:j] + new + before[j + 1:], f)
    else: edited(g, G, before, None, f, IndexError)

@harness('C03', under=['MatrixGroup.__setitem__'], uses=EDIT, weight=3)
def replace_a_slice(g):
    E = g.elements('E', **NOSPACE); before = g.copy(E)
    G = g.group(E)
    arg, new = an_insertion(g)
    a = None if g.choice('from the start', [False, True]) else g.int('a')
    b = None if g.choice('to the end', [False, True]) else g.int('b')
    want = g.copy(before)
    want[a:b] = new
    def f(): G[a:b] = arg
    edited(g, G, before, want, f)

@harness('C03', under=['MatrixGroup.__getitem__', 'MatrixGroup.__len__'], uses=EDIT)
def read_items(g):
    E = g.elements('E'); before = g.copy(E)
    G = g.group(E)
    g.check('length', g.equal(G.__len__(), g.len(before)))
    i = g.int('i')
    want = g.attempt(lambda: before[i])
    got = g.attempt(lambda: G[i])
    if want.ok:
        g.check('found', got.ok); g.same_object('the element', got.value, want.value)
    else: g.check('refused', got.raised(IndexError))
    check_group(g, 'unchanged', G, before)

@harness('C03', under=['MatrixGroup.__getitem__'], uses=EDIT)
def read_a_slice(g):
    E = g.elements('E'); before = g.copy(E)
    G = g.group(E)
    a = None if g.choice('from the start', [False, True]) else g.int('a')
    b = None if g.choice('to the end', [False, True]) else g.int('b')
    H = G[a:b]
    g.check('a group', isinstance(H, g.ns.MatrixGroup))
    check_group(g, 'slice', H, before[a:b])
    check_group(g, 'unchanged', G, before)

@harness('C03', under=['MatrixGroup.__iter__', 'MatrixGroup.__next__'])
def iterate(g):
    """iteration starts at the first element and gives each in order, however often it is restarted"""
    E = g.elements('E'); before = g.copy(E)
    k = g.int('k', lo=0)
    G = g.group(E, iteration=k)
    n = g.len(before)
    out = g.attempt(lambda: G.__next__())
    if k < n:
        g.check('an element', out.ok); g.same_object('the next one', out.value, before[k]); g.eq('one further', G.iteration, k + 1)
    else: g.check('finished', out.raised(StopIteration))
    it = G.__iter__()
    g.check('iterates itself', it is G); g.eq('restarts', G.iteration, 0)
    g.seq_eq('elements untouched', G.elements, before)

@harness('C03', mode='con', cases=600)
def edit_history(g):
    """bounded: random histories of edits (free spaces adopting media included) against a list"""
    ns = g.ns
    new = lambda nm: g.element(nm, None, dict(groups=True)) if g.rng.random() < 0.7 else ns.Space(d=g.rng.choice([0.0, 1.0, 5.0]), n=g.rng.choice([1.0, 1.5]))
    G = ns.MatrixGroup(); model = []
    media = lambda l: [(e.frontIndex, e.backIndex) for e in l]
    for step in range(g.rng.randrange(1, 9)):
        op = g.rng.choice(['append', 'append', 'insert', 'pop', 'set', 'slice', 'rebuild', 'read', 'bad', 'group'])
        i, j = g.rng.randrange(-5, 6), g.rng.randrange(-5, 6)
        want = list(model); items = []; f = None
        flat = lambda m: list(m.elements) if isinstance(m, ns.MatrixGroup) else [m]     # a group is inserted element by element
        try:
            if op == 'append': m = new('m%d' % step); items = [m]; want.append(m); f = lambda: G.append(m)
            elif op == 'insert': m = new('m%d' % step); items = flat(m); want[i:i] = items; f = lambda: G.insert(i, m)
            elif op == 'group':
                m = [new('a%d' % step), new('b%d' % step)]; items = m; want[i:i] = m; f = lambda: G.insert(i, m)
            elif op == 'pop': f = lambda: G.pop(i); want.pop(i)
            elif op == 'set': m = new('m%d' % step); items = flat(m); f = lambda: G.__setitem__(i, m); want[i]; j2 = i % len(want); want[j2:j2+1] = items
            elif op == 'slice': m = [new('a%d' % step), new('b%d' % step)][:g.rng.randrange(0, 3)]; items = m; f = lambda: G.__setitem__(slice(i, j), m); want[i:j] = m
            elif op == 'rebuild': f = lambda: None; G = ns.MatrixGroup(model)
            elif op == 'read': f = lambda: G[i:j]
            else: f = lambda: G.append('x')
            legal = op != 'bad'
        except IndexError: legal = False
        was = media(model); wasnew = media(items)
        if f is None: f = lambda: G.pop(i)
        out = g.attempt(f)
        g.inputs['step %d' % step] = '%s %d %d %s' % (op, i, j, [g.describe(e) for e in items])
        if not legal: g.check('%s: refused' % op, not out.ok)
        # what the media would be: free spaces adopt
        adopted = []; ok = True; prev = None
        saved = dict((id(e), m) for e, m in zip(model + items, was + wasnew))
        for e in want:
            fi, bi = saved[id(e)]
            if prev is not None and prev != fi:
                if isinstance(e, ns.Space): fi = bi = prev
                else: ok = False
            adopted.append((fi, bi)); prev = bi
        if legal and ok:
            g.check('%s: accepted' % op, out.ok)
            model = want
            g.check('%s: media' % op, media(model) == adopted)
        else:
            g.check('%s: refused' % op, not out.ok)
            if op != 'append': g.check('%s: media unchanged' % op, media(model) == was and media(items) == wasnew)
        check_group(g, op, G, model)
        for a, b in zip(model, model[1:]): g.check('%s: neighbours match' % op, a.backIndex == b.frontIndex)
