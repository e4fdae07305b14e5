import sys, importlib, time, os
sys.path.insert(0, '/verif')
from rtv import engine, api, verify, symg, solve
def main():
    names = [a for a in sys.argv[1:] if not a.startswith('-')]
    debug = '-d' in sys.argv
    t0 = time.time()
    e = engine.Engine(); e.load()
    g = symg.SymG(e)
    for f in sorted(os.listdir('/verif/contracts')):
        if f.startswith('c_') and f.endswith('.py'): importlib.import_module('contracts.' + f[:-3])
    print('loaded %.1fs' % (time.time() - t0))
    for h in api.HARNESSES:
        if names and not any(n in h.name or n in h.props for n in names): continue
        if h.mode == 'con': continue
        r = verify.run_harness(g, h, debug=debug)
        print('%-45s %-11s obl=%d failed=%d paths=%d/%d restarts=%d t=%.1f (vc %.1f feas %.1f)' % (h.name, r['status'], len(r['obligations']), len(r['failed']), r['paths'], r['completed'], r['stats']['restarts'], r['time'], r['stats']['vc_t'], r['stats']['feas_t']))
        if r['unsupported']: print('    ', r['unsupported'])
        for o in r['failed'][:6]:
            print('    FAILED', o.name, o.status, o.note)
            if debug and o.model is not None: print('       ', {n: str(o.model.eval(t[1])) for n, t in o.path.items() if hasattr(t[1], 'sort')})
    print(solve.STATS)
main()
