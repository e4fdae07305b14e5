"""Contracts of sub-paths (C23)."""
from rtv.api import *
from contracts.c_group import check_group
INF = float('inf')

def middle(g, i):
    """the element at position i of an arbitrary matched list: a free space or another kind of element"""
    kind = g.choice('kind', ['Space', 'Lens', 'Matrix', 'MatrixGroup'])
    return kind

@harness('C23', under=['ImagingPath.subPath'], uses=['MatrixGroup.__init__'], cases=300)
def start_inside_an_element(g):
    """zStart strictly inside an element (the elements before it: L1, after it: L2)"""
    kind = g.choice('kind', ['Space', 'ToFocus', 'Lens', 'Matrix', 'ThickLens'])
    L1, m, L2 = g.split_elements(kind)
    E = L1 + g.list([m]) + L2; before = g.copy(E)
    P = g.group(E, cls='ImagingPath')
    fi, L = m.frontIndex, m.L
    start = g.fold(L1).L
    d = g.real('d', 0.001)
    if not g.symbolic:
        if L <= 0: raise Discard('no length')
        d = L * g.rng.choice([0.125, 0.5, 0.75])
    g.assume(0 < d); g.assume(d < L)
    z = start + d
    g.lengths_grow(L1, g.len(L1)); g.lengths_grow(L2, g.len(L2))
    backwards = g.choice('backwards', [False, True])
    rev = g.reversed(before[:g.len(L1)])
    out = g.attempt(lambda: P.subPath(zStart=z, backwards=backwards))
    if kind not in ('Space', 'ToFocus'): g.check('refused: not in a free space', not out.ok)
    elif backwards and not g.joins(m, rev): g.check('refused: the media do not match', not out.ok)
    else:
        g.check('accepted', out.ok)
        S = out.value
        g.check('an imaging path', g.isinstance(S, g.ns.ImagingPath))
        g.check('another path', S is not P)
        x = S.elements[0]
        g.check('starts in a free space', g.isinstance(x, g.ns.Space))
        d1 = d if backwards else L - d
        g.eq_spec('what remains of the space', x, MSpec(1, d1, 0, 1, d1, None, None, fi, fi))
        rest = rev if backwards else L2
        check_group(g, 'sub-path', S, g.list([x]) + rest)
        if not backwards:
            # with the partial matrix up to zStart (C05) it makes the whole path
            part = MSpec(1, d, 0, 1, d, None, None, fi, fi)
            g.eq_spec('completes the partial transfer matrix', g.mul(g.spec(S), g.mul(part, g.fold(L1, medium=fi if g.len(L1) == 0 else None))), g.fold(before), fields=('A', 'B', 'C', 'D', 'L', 'fi', 'bi'))
            g.eq('its length', S.L, P.L - z)
        else: g.eq('its length', S.L, z)
    check_group(g, 'the path', P, before)

@harness('C23', under=['ImagingPath.subPath'], uses=['MatrixGroup.__init__'], cases=300)
def start_outside_or_between(g):
    """any other position: before the first element, after the last, or where an element ends"""
    E = g.elements('E', nonneg=True); before = g.copy(E)
    P = g.group(E, cls='ImagingPath')
    where = g.choice('where', ['before', 'after', 'at an end'])
    n = g.len(E)
    if where == 'before':
        z = -g.real('d', nonneg=True)
        g.lengths_grow(E, 0, n)
    elif where == 'after':
        d = g.real('d', nonneg=True)
        z = g.fold(E).L + d
        g.lengths_grow(E, n)
    else:
        j = g.position('j', E)
        z = g.fold(E[:j + 1]).L
        g.lengths_grow(E, j, j + 1)
    backwards = g.choice('backwards', [False, True])
    out = g.attempt(lambda: P.subPath(z, backwards))
    g.check('refused', not out.ok)
    check_group(g, 'the path', P, before)
