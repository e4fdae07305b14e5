"""Contracts of tracing many rays (C18)."""
from rtv.api import *
from contracts.c_rays import describes

def final(g, m):
    """final(r): the last ray of the trace of r through m (contract of traceThrough)"""
    if not g.symbolic:
        return lambda r: m.traceThrough(r)
    return lambda r: g.image(r)

@stub('Matrix.traceThrough')
def stub_through(g, m, r): return g.image(r)

@stub('Matrix.trace')
def stub_trace(g, m, r): return g.list([r, g.image(r)])

@harness('C18', under=['Matrix.traceThrough'], uses=['Matrix.trace'])
def through_is_the_last_ray(g):
    m = g.matrix('m'); r = g.rays('R', lo=1)[0]
    t = m.trace(r)
    g.check('last ray', g.equal(m.traceThrough(r), t[-1]))

@harness('C18', under=['Matrix.traceMany'], uses=['Matrix.trace'])
def trace_many(g):
    """one trace per ray, in order"""
    m = g.matrix('m'); R = g.rays('R'); before = g.copy(R)
    C = g.ns.Rays(R) if g.choice('given as', ['collection', 'list']) == 'collection' else R
    T = g.map_list(before, lambda r: m.trace(r))
    out = m.traceMany(C)
    g.seq_eq('traces', out, T)
    g.seq_eq('rays untouched', C.rays if C is not R else R, before)

@harness('C18', under=['Matrix.traceManyThrough', 'Rays.append', 'Rays.displayProgress', 'Ray.isNotBlocked'], uses=['Matrix.traceThrough'])
def trace_many_through(g):
    """the final rays that are not blocked, in order"""
    m = g.matrix('m'); R = g.rays('R'); before = g.copy(R)
    C = g.ns.Rays(R) if g.choice('given as', ['collection', 'list']) == 'collection' else R
    W = g.filter_list('through', before, lambda r: m.traceThrough(r), lambda r: g.not_(r.isBlocked))
    out = m.traceManyThrough(C, progress=g.choice('progress', [True, False]))
    g.check('a collection', g.isinstance(out, g.ns.Rays))
    g.seq_eq('rays', out.rays, W)
    g.seq_eq('rays untouched', C.rays if C is not R else R, before)

@stub('Matrix.traceManyThrough')
def stub_trace_many_through(g, m, inputRays, progress=True):
    out = g.ns.Rays()
    out._rays = g.filter_list('through', inputRays, lambda r: g.image(r), lambda r: g.not_(r.isBlocked))
    return out

@harness('C18', under=['Matrix.traceManyThroughInParallel'], uses=['Matrix.traceManyThrough'], weight=5)
def trace_in_parallel(g):
    """the same rays as serially, up to order, for any number of processes, whether or not the pool works"""
    m = g.matrix('m'); R = g.rays('R'); before = g.copy(R)
    C = g.ns.Rays(R) if g.choice('given as', ['collection', 'list']) == 'collection' else R
    W = g.copy(g.as_list(m.traceManyThrough(before, progress=False).rays))
    how = g.choice('processes', ['default', 'any number'])
    k = g.int('k', -1) if how == 'any number' else None
    with g.pool():
        out = m.traceManyThroughInParallel(C, progress=g.bool('progress'), processes=k)
    g.check('a collection', g.isinstance(out, g.ns.Rays))
    g.same_up_to_order('rays', out.rays, W)
    g.seq_eq('rays untouched', C.rays if C is not R else R, before)
