"""Runs contracts symbolically and collects obligations."""
import sys, time, traceback, io
from . import core, solve, engine as eng, api
from .core import *

def run_harness(g, h, timeouts=(2000, 8000), debug=False, budget=None):
    """-> dict(status, obligations, ...)"""
    c = Ctx(solve, h.name, timeouts=h.opts.get('timeouts', timeouts), deadline=(time.time() + budget) if budget else None)
    if debug: c.debug = True
    c.runtime = g.engine.runtime
    c.value_classes = VALUE_CLASSES
    core.set_ctx(c)
    g.engine.g = g
    saved = g.install(h.uses)
    t0 = time.time()
    res = dict(name=h.name, status='ok', unsupported=None)
    errs = []
    def body():
        g.engine.runtime.loopstack = []
        g.begin(h)
        try:
            h.fn(g)
            ctx().path.completed = True
            c.completed = getattr(c, 'completed', 0) + 1
        except Control:
            raise
        except api.Discard:
            raise PathEnd()
        except Exception as e:
            if debug: traceback.print_exc()
            c.fail('no unexpected exception', note='%s: %s [%s]' % (type(e).__name__, e, where(e)))
    try:
        c.explore(body)
    except Unsupported as e:
        res['status'] = 'unsupported'; res['unsupported'] = str(e) + ' [' + where(e) + ']'
        if debug: traceback.print_exc()
    except Exception as e:
        res['status'] = 'unsupported'; res['unsupported'] = 'engine: %s: %s [%s]' % (type(e).__name__, e, where(e))
        if debug: traceback.print_exc()
    finally:
        g.uninstall(saved)
        core.set_ctx(None)
    res['obligations'] = c.obligations
    res['failed'] = [o for o in c.obligations if o.status != 'proved']
    res['paths'] = c.stats['paths']; res['stats'] = c.stats
    res['completed'] = getattr(c, 'completed', 0)
    res['time'] = time.time() - t0
    if res['status'] == 'ok' and not c.obligations: res['status'] = 'unsupported'; res['unsupported'] = 'no obligation generated (vacuous)'
    elif res['status'] == 'ok' and not res['completed'] and not res['failed']:
        res['status'] = 'unsupported'; res['unsupported'] = 'no path reaches the end of the contract (vacuous)'
    lost = [k for k, v in getattr(c, 'first_iterations', {}).items() if not v]
    if res['status'] == 'ok' and lost and not res['failed']:
        res['status'] = 'unsupported'; res['unsupported'] = 'the first iteration of a loop contradicts its invariant: %s' % (lost[0][0],)
    if res['failed'] and res['status'] == 'ok': res['status'] = 'failed'
    return res

VALUE_CLASSES = {'Ray': ('y', 'theta', 'z', 'isBlocked', 'apertureDiameter', 'wavelength')}

def where(e):
    tb = e.__traceback__
    lib = None; last = None
    while tb:
        fn = tb.tb_frame.f_code.co_filename
        last = "%s:%d" % (fn.split('/')[-1], tb.tb_lineno)
        if '/raytracing/' in fn: lib = "%s:%d %s" % (fn.split('/')[-1], tb.tb_lineno, tb.tb_frame.f_code.co_name)
        tb = tb.tb_next
    return lib or last or '?'
