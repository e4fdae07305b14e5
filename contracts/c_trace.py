"""Contracts of tracing a ray through a group (C04)."""
from rtv.api import *
from contracts.c_ray import eq_ray, ray_state

@harness('C04', under=['MatrixGroup.trace', 'Matrix.traceThrough'])
def trace_of_a_group(g):
    """whatever was traced before: the input ray, then the traces of the current elements one after the other"""
    E = g.elements('E', trace=True, groups=True); before = g.copy(E)
    G = g.group(E)
    stale(g, G)
    r = g.ray('r'); sr = ray_state(g, r)
    want = g.traces(E, r)
    t = G.trace(r)
    g.seq_eq('the input ray, then the traces of the elements', t, g.list([r]) + want.list)
    eq_ray(g, 'the ray given is untouched', r, sr)
    g.seq_eq('elements untouched', G.elements, before)

def again(g, what):
    E = g.elements('E', trace=True, groups=True)
    G = g.group(E)
    r = g.ray('r'); sr = ray_state(g, r)
    want = g.traces(E, r)
    t = G.trace(r)
    if what == 'clear the result': del t[1:]
    elif what == 'other ray':
        r2 = g.ray('r2'); want2 = g.traces(E, r2)
        g.seq_eq('another ray', G.trace(r2), g.list([r2]) + want2.list)
    elif what == 'last ray changed':
        x = t[-1]
        if x is not r: x.y = g.real('garbage'); x.isBlocked = True
    t2 = G.trace(r)
    g.check('a new list', t2 is not t)
    g.seq_eq('the same again', t2, g.list([r]) + want.list)
    eq_ray(g, 'the ray given is untouched', r, sr)

@harness('C04', under=['MatrixGroup.trace'], weight=2)
def trace_again(g):
    """what the caller does with the result does not matter"""
    again(g, g.choice('then', ['again', 'clear the result']))

@harness('C04', under=['MatrixGroup.trace'], weight=2)
def trace_again_after_changing_the_result(g): again(g, 'last ray changed')

@harness('C04', under=['MatrixGroup.trace'], weight=2)
def trace_another_ray_in_between(g): again(g, 'other ray')

def stale(g, G):
    """remains of an earlier trace"""
    if g.choice('memo', ['none', 'same ray', 'other ray']) != 'none':
        G._lastRayToBeTraced = g.ray('old')
        G._lastRayTrace = g.list([G._lastRayToBeTraced, g.ray('oldtrace')])

@harness('C04', under=['MatrixGroup.trace'])
def trace_after_an_edit(g):
    """the outcome depends on the current elements only"""
    E = g.elements('E', trace=True, groups=True)
    G = g.group(g.copy(E))
    r = g.ray('r')
    was = g.traces(E, r)
    t0 = G.trace(r)
    N = g.elements('N', trace=True, groups=True)
    G.elements = N
    want = g.traces(N, r)
    g.seq_eq('traces of the current elements', G.trace(r), g.list([r]) + want.list)

@harness('C04', under=['MatrixGroup.trace'])
def only_rays_are_traced(g):
    G = g.group(g.elements('E', trace=True))
    x = g.choice('x', [None, 3, 'ray', (1, 2)])
    g.check('refused', g.attempt(lambda: G.trace(x)).raised(TypeError))

@harness('C04', under=['Matrix.traceThrough', 'MatrixGroup.trace'])
def traced_through_a_group(g):
    E = g.elements('E', trace=True, groups=True)
    G = g.group(E)
    r = g.ray('r')
    y, th, z, b = g.last_state(g.traces(E, r))
    o = G.traceThrough(r)
    for f, v in (('y', y), ('theta', th), ('z', z)): g.eq('the last ray of the trace: ' + f, g.raw(o, f), v)
    g.check('the last ray of the trace: blocked', g.iff(g.raw(o, 'isBlocked'), b))

@harness('C04', mode='sym')
def lemma_trace_is_the_product(g):
    """induction on the number of elements: while nothing blocks the ray, it is the ordered product applied to the input"""
    p = g.matrix('P'); y0, t0, z0 = g.real('y'), g.real('theta'), g.real('z')
    # hypothesis: the ray before the element is P applied to the input (P the product so far)
    y, t, z = p.A * y0 + p.B * t0, p.C * y0 + p.D * t0, z0 + p.L
    e = g.matrix('e', frontIndex=p.backIndex)
    # contract of the element (ray_through_an_element, trace_of_an_element): not blocked
    y1, t1, z1 = e.A * y + e.B * t, e.C * y + e.D * t, z + e.L
    s = g.mul(g.spec(e), g.spec(p))
    g.eq('height', y1, s.A * y0 + s.B * t0); g.eq('angle', t1, s.C * y0 + s.D * t0); g.eq('position', z1, z0 + s.L)

@harness('C04', under=['MatrixGroup.trace', 'MatrixGroup.transferMatrix', 'Matrix.mul_ray'], mode='con', cases=600)
def unblocked_ray_is_the_group_matrix(g):
    """bounded: real elements, nested groups"""
    E = g.elements('E', groups=True)
    G = g.group(E)
    r = g.ray('r', blocked=False); y0, t0, z0 = r.y, r.theta, r.z
    t = G.trace(r)
    o = t[-1]
    if not o.isBlocked:
        g.eq('height', o.y, G.A * y0 + G.B * t0); g.eq('angle', o.theta, G.C * y0 + G.D * t0); g.eq('position', o.z, z0 + G.L)
    for a, b in zip(t, t[1:]):
        if a is not r: g.check('a blocked ray stays blocked', b.isBlocked or not a.isBlocked)
