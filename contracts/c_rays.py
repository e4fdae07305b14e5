"""Contracts of ray collections (C16)."""
from rtv.api import *
INF = float('inf')

def heights(g, R): return g.field_list(R, 'y')
def angles(g, R): return g.field_list(R, 'theta')

def describes(g, C, R, name='collection', hist=True):
    """everything the collection says describes exactly the rays R, in order"""
    n = g.len(R)
    g.eq(name + ': count', C.count, n)
    g.eq(name + ': length', g.len_of(C), n)
    g.seq_eq(name + ': rays', C.rays, R)
    g.seq_eq(name + ': heights', C.yValues, heights(g, R))
    g.seq_eq(name + ': angles', C.thetaValues, angles(g, R))

def says_counts(g, C, R, name, bins=None, lo=None, hi=None):
    """histogram of the heights for the binning asked for (default: 40 bins over the values)"""
    out = g.attempt(lambda: C.rayCountHistogram(**asked(bins, lo, hi)))
    check_histogram(g, name + ': heights histogram', out, heights(g, R), bins, lo, hi)

def says_angles(g, C, R, name, bins=None, lo=None, hi=None):
    out = g.attempt(lambda: C.rayAnglesHistogram(**asked(bins, lo, hi)))
    check_histogram(g, name + ': angles histogram', out, angles(g, R), bins, lo, hi)

def asked(bins, lo, hi):
    d = dict(binCount=bins, minValue=lo, maxValue=hi)
    return {k: v for k, v in d.items() if v is not None}

def check_histogram(g, name, out, values, bins, lo, hi):
    if g.len(values) == 0 and (lo is None or hi is None):
        g.check(name + ': nothing to bin', out.raised(ValueError)); return
    lo = g.min_of(values) if lo is None else lo
    hi = g.max_of(values) if hi is None else hi
    if lo > hi:
        g.check(name + ': empty range', out.raised(ValueError)); return
    g.check(name + ': given', out.ok)
    x, n = out.value
    wx, wn = g.histogram(values, 40 if bins is None else bins, lo, hi)
    g.seq_eq(name + ': positions', x, wx)
    g.seq_eq(name + ': counts', n, wn)

def binning(g, name):
    """any binning"""
    return g.int(name + '.bins', 1, 12 if not g.symbolic else None), g.real(name + '.lo'), g.real(name + '.hi')

def queried(g, C, R):
    """a collection that was asked its questions before, or not"""
    if g.choice('asked before', [0, 1]):
        C.yValues; C.thetaValues
        g.attempt(lambda: C.rayCountHistogram()); g.attempt(lambda: C.rayAnglesHistogram())

@harness('C16', under=['Rays.__init__', 'Rays.rays', 'Rays.count', 'Rays.__len__', 'Rays.yValues', 'Rays.thetaValues'])
def collection_of_rays(g):
    R = g.rays('R'); before = g.copy(R)
    C = g.ns.Rays(R)
    describes(g, C, before)
    g.seq_eq('the list given is untouched', R, before)
    handed = C.rays
    handed.append(g.ray('x'))
    g.check('own list', handed is not R)
    describes(g, C, before, 'after the list handed out was changed')
    R.append(g.ray('z'))
    describes(g, C, before, 'after the list given was changed')

@harness('C16', under=['Rays.__init__', 'Rays.append'])
def empty_collection(g):
    C = g.ns.Rays(); D = g.ns.Rays(rays=None)
    describes(g, C, g.list([]), 'empty')
    r = g.ray('r')
    C.append(r)
    describes(g, C, g.list([r]), 'one ray')
    describes(g, D, g.list([]), 'another one is not affected')

@harness('C16', under=['Rays.__init__', 'Rays.append'])
def only_rays(g):
    R = g.rays('R'); before = g.copy(R)
    bad = g.choice('bad', [None, 3, 'ray', (1.0, 2.0), 'element'])
    if bad == 'element': bad = g.ns.Matrix()
    C = g.ns.Rays(R)
    queried(g, C, before)
    g.check('refused', g.attempt(lambda: C.append(bad)).raised(TypeError))
    describes(g, C, before, 'unchanged')
    L = g.copy(R); L.insert(g.position('i', L) if g.len(L) != 0 else 0, bad)
    g.check('a list with something else is refused', g.attempt(lambda: g.ns.Rays(L)).raised(TypeError))
    g.check('a number is refused', g.attempt(lambda: g.ns.Rays(3)).raised(TypeError))

@harness('C16', under=['Rays.append', 'Rays.invalidateCachedValues', 'Rays.yValues', 'Rays.thetaValues'])
def append_a_ray(g):
    R = g.rays('R'); before = g.copy(R)
    C = g.ns.Rays(R)
    queried(g, C, before)
    describes(g, C, before, 'before')
    r = g.ray('r')
    C.append(r)
    describes(g, C, before + g.list([r]), 'appended')

@harness('C16', under=['Rays.rayCountHistogram'], weight=2)
def histogram_of_heights(g):
    R = g.rays('R'); C = g.ns.Rays(R)
    if g.choice('first', ['nothing', 'values']) == 'values': C.yValues; C.thetaValues
    how = g.choice('binning', ['default', 'bins', 'all', 'low', 'high'])
    b, lo, hi = binning(g, 'h')
    if how == 'default': says_counts(g, C, R, 'default')
    elif how == 'bins': says_counts(g, C, R, 'number of bins', b)
    elif how == 'all': says_counts(g, C, R, 'all given', b, lo, hi)
    elif how == 'low': says_counts(g, C, R, 'minimum given', None, lo)
    else: says_counts(g, C, R, 'maximum given', b, None, hi)
    g.seq_eq('rays untouched', C.rays, R)

@harness('C16', under=['Rays.rayAnglesHistogram'], weight=2)
def histogram_of_angles(g):
    R = g.rays('R'); C = g.ns.Rays(R)
    if g.choice('first', ['nothing', 'values']) == 'values': C.yValues; C.thetaValues
    how = g.choice('binning', ['default', 'bins', 'all', 'low', 'high'])
    b, lo, hi = binning(g, 'h')
    if how == 'default': says_angles(g, C, R, 'default')
    elif how == 'bins': says_angles(g, C, R, 'number of bins', b)
    elif how == 'all': says_angles(g, C, R, 'all given', b, lo, hi)
    elif how == 'low': says_angles(g, C, R, 'minimum given', None, lo)
    else: says_angles(g, C, R, 'maximum given', b, None, hi)
    g.seq_eq('rays untouched', C.rays, R)

def asked_again(g, says, other):
    """the last binning counts, whatever was asked before, and the two histograms are independent"""
    R = g.rays('R', lo=1); C = g.ns.Rays(R)
    a, b = binning(g, 'a'), binning(g, 'b')
    says(g, C, R, 'first', *a)
    if g.choice('other', [0, 1]): g.attempt(lambda: other(C)(*b))
    says(g, C, R, 'second', *b)

@harness('C16', under=['Rays.rayCountHistogram'], weight=3)
def heights_histogram_asked_again(g): asked_again(g, says_counts, lambda C: C.rayAnglesHistogram)

@harness('C16', under=['Rays.rayAnglesHistogram'], weight=3)
def angles_histogram_asked_again(g): asked_again(g, says_angles, lambda C: C.rayCountHistogram)

@harness('C16', under=['Rays.rayCountHistogram', 'Rays.rayAnglesHistogram'])
def refused_binning_is_forgotten(g):
    R = g.rays('R', lo=1); C = g.ns.Rays(R)
    b, lo, hi = binning(g, 'a')
    g.attempt(lambda: C.rayCountHistogram(b, hi, lo)); g.attempt(lambda: C.rayAnglesHistogram(b, hi, lo))
    says_counts(g, C, R, 'again', b, hi, lo); says_angles(g, C, R, 'again', b, hi, lo)

@harness('C16', under=['Rays.append', 'Rays.rayCountHistogram', 'Rays.rayAnglesHistogram'], weight=3)
def histograms_after_appending(g):
    R = g.rays('R', lo=1); C = g.ns.Rays(R)
    b, lo, hi = binning(g, 'a')
    how = g.choice('how', ['default', 'given'])
    args = (b, lo, hi) if how == 'given' else ()
    which = g.choice('which', [says_counts, says_angles])
    which(g, C, R, 'before', *args)
    r = g.ray('r'); C.append(r)
    which(g, C, R + g.list([r]), 'after', *args)

@harness('C16', under=['Rays.__iter__', 'Rays.__next__'])
def iterate_rays(g):
    """iteration starts at the first ray and gives each in order, however often it is restarted"""
    R = g.rays('R'); before = g.copy(R)
    C = g.ns.Rays(R)
    k = g.int('k', 0, g.len(R)) if not g.symbolic else g.int('k', 0)
    if g.symbolic: g.assume(k <= g.len(R))
    it = C.__iter__()
    C.iteration = k
    out = g.attempt(lambda: C.__next__())
    if k == g.len(before): g.check('stops at the end', out.raised(StopIteration))
    else:
        g.check('a ray', out.ok); g.same_object('the next one', out.value, before[k]); g.eq('one further', C.iteration, k + 1)
    it = C.__iter__()
    g.check('iterates itself', it is C); g.eq('restarts', C.iteration, 0)
    describes(g, C, before, 'iterating changes nothing')

@harness('C16', under=['Rays.__getitem__'])
def index_rays(g):
    R = g.rays('R', lo=1); C = g.ns.Rays(R)
    i = g.position('i', R)
    g.same_object('ray i', C[i], R[i])
    g.same_object('last', C[-1], R[-1])
    g.check('beyond', g.attempt(lambda: C[g.len(R)]).raised(IndexError))
    describes(g, C, R, 'reading changes nothing')

@harness('C16', 'C22', under=['Rays.load', 'Rays.invalidateCachedValues'], weight=2)
def load_rays(g):
    """loaded rays replace those present, or come after them"""
    R = g.rays('R'); before = g.copy(R)
    C = g.ns.Rays(R)
    queried(g, C, before)
    L = g.rays('L')
    path = g.file('rays', L)
    if g.choice('append', [0, 1]):
        C.load(path, append=True)
        describes(g, C, before + L, 'appended')
    else:
        C.load(path)
        describes(g, C, L, 'replaced')

@harness('C22', under=['Rays.load'])
def load_something_else_than_rays(g):
    R = g.rays('R'); before = g.copy(R)
    C = g.ns.Rays(R)
    queried(g, C, before)
    L = g.rays('L')
    what = g.choice('what', ['number', 'none', 'string', 'other item', 'element', 'one ray'])
    if what == 'number': bad = 3.5
    elif what == 'none': bad = None
    elif what == 'string': bad = 'abc'
    elif what == 'element': bad = g.list([g.ns.Matrix()])
    elif what == 'one ray': bad = g.ns.Ray(1.0, 0.5)
    else:
        bad = g.copy(L); bad.insert(g.position('i', L) if g.len(L) != 0 else 0, 3)
    path = g.file('bad', bad)
    app = g.choice('append', [False, True])
    g.check('refused', not g.attempt(lambda: C.load(path, append=app)).ok)
    describes(g, C, before, 'untouched')
    g.check('missing file', g.attempt(lambda: C.load(g.new_path('nothing'), append=app)).raised(FileNotFoundError))
    describes(g, C, before, 'still untouched')

@harness('C22', under=['Rays.save'], cases=60)
def save_rays(g):
    """the file holds the rays; the collection is untouched"""
    R = g.rays('R'); before = g.copy(R)
    C = g.ns.Rays(R)
    queried(g, C, before)
    path = g.new_path('rays')
    if g.choice('exists', [0, 1]): g.file('rays', g.list([]))
    C.save(path)
    g.seq_eq('in the file', g.stored(path), before)
    describes(g, C, before, 'untouched')

@harness('C22', under=['Rays.save', 'Rays.load'], cases=60)
def rays_saved_and_loaded(g):
    R = g.rays('R'); before = g.copy(R)
    C = g.ns.Rays(R)
    path = g.new_path('rays')
    C.save(path)
    D = g.ns.Rays(g.rays('D'))
    D.load(path)
    describes(g, D, before, 'loaded')
    D.append(g.ray('x'))
    describes(g, C, before, 'the collection saved is not affected')
    E = g.ns.Rays()
    E.load(path)
    describes(g, E, before, 'loaded again')
