"""Run-time reading of the contracts on the unmodified library (library Python).
usage: concrete.py run PROP SEED SECONDS OUT [HARNESS...] | concrete.py replay FILE"""
import sys, os, json, random, time, types, tempfile, importlib, shutil, traceback, datetime, io, contextlib, warnings
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('RTV_REPO', '/repo')

def load_library():
    home = tempfile.mkdtemp(prefix='rtvhome')
    import atexit
    atexit.register(lambda: shutil.rmtree(home, ignore_errors=True))
    os.makedirs(home + '/.config', exist_ok=True)
    os.environ['HOME'] = home
    os.environ['MPLBACKEND'] = 'Agg'
    with open(home + '/.config/ca.dcclab.python.raytracing.json', 'w') as f:
        json.dump({'lastVersionCheck': datetime.datetime.now().isoformat(), 'mode': 'expert'}, f)
    os.chdir(home)
    sys.path.insert(0, REPO)
    sys.path.insert(0, HERE)
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        import raytracing
    ns = types.SimpleNamespace()
    for m in ['utils', 'interface', 'ray', 'gaussianbeam', 'rays', 'matrix', 'matrixgroup', 'imagingpath', 'laserpath', 'lasercavity',
              'components', 'materials', 'specialtylenses', 'axicon', 'preferences', 'zemax', 'thorlabs', 'eo', 'olympus', 'graphicComponents', 'graphics', 'figure']:
        try:
            mod = importlib.import_module('raytracing.' + m)
        except ImportError: continue
        if m in ('thorlabs', 'eo', 'olympus'): continue
        for k, v in mod.__dict__.items():
            if not k.startswith('__'): setattr(ns, k, v)
    for k, v in raytracing.__dict__.items():
        if not k.startswith('__') and not isinstance(v, types.ModuleType): setattr(ns, k, v)
    ns.home = home
    time.sleep = lambda *a: None        # save() waits for the file; files are written synchronously here
    return ns

def load_contracts():
    from rtv import api
    for f in sorted(os.listdir(os.path.join(HERE, 'contracts'))):
        if f.startswith('c_') and f.endswith('.py'): importlib.import_module('contracts.' + f[:-3])
    return api

def one(ns, api, h, rng, script=None):
    """-> ('ok'|'discard'|'fail', message, inputs, checks)"""
    from rtv.cong import ConG
    g = ConG(ns, rng, script)
    g.tol = h.opts.get('tol', g.tol)
    import numpy
    numpy.random.seed(rng.randrange(2 ** 31))
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            warnings.simplefilter('ignore')
            h.fn(g)
    except api.Discard as e: return 'discard', str(e), g.inputs, g.checks
    except api.CheckFailed as e: return 'fail', str(e), g.inputs, g.checks
    except RecursionError as e: return 'fail', 'RecursionError', g.inputs, g.checks
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        loc = [x for x in tb if '/raytracing/' in x.filename]
        w = ('%s:%d' % (os.path.basename(loc[-1].filename), loc[-1].lineno)) if loc else '%s:%d' % (os.path.basename(tb[-1].filename), tb[-1].lineno)
        return 'fail', 'unexpected exception %s: %s [%s]' % (type(e).__name__, e, w), g.inputs, g.checks
    return 'ok', '', g.inputs, g.checks

def jsonable(x):
    try:
        json.dumps(x); return x
    except (TypeError, ValueError): return repr(x)

def run(prop, seed, seconds, out, names=()):
    ns = load_library(); api = load_contracts()
    hs = [h for h in api.HARNESSES if (prop in h.props or prop == 'ALL') and h.mode != 'sym' and (not names or h.name in names)]
    res = dict(harnesses=[], failures=[])
    t0 = time.time()
    wsum = sum(h.weight for h in hs) or 1
    for h in hs:
        budget = seconds * h.weight / wsum
        ts = time.time(); n = ok = disc = checks = 0; fails = 0; fkeys = set()
        limit = int(h.cases * max(1.0, seconds / 20.0))
        while n < limit and time.time() - ts < budget:
            cs = '%s:%s:%d' % (h.name, seed, n); n += 1
            st, msg, inputs, ck = one(ns, api, h, random.Random(cs))
            checks += ck
            if st == 'discard': disc += 1
            elif st == 'ok': ok += 1
            else:
                key = h.name + '|' + msg.split(':')[0]
                if key in fkeys or len(fkeys) >= 8: continue
                fkeys.add(key)
                res['failures'].append(dict(harness=h.name, case=cs, message=msg, inputs={k: jsonable(v) for k, v in inputs.items()}))
        res['harnesses'].append(dict(name=h.name, cases=n, checked=ok, discarded=disc, checks=checks, seconds=round(time.time() - ts, 2)))
    res['wall_s'] = time.time() - t0
    with open(out, 'w') as f: json.dump(res, f)

def replay(path):
    d = json.load(open(path))
    ns = load_library(); api = load_contracts()
    h = [h for h in api.HARNESSES if h.name == d['harness']][0]
    for s in d.get('scripts', [None]):
        st, msg, inputs, ck = one(ns, api, h, random.Random(d.get('case', 'replay')), s)
        if st == 'fail':
            print(json.dumps(dict(status=st, message=msg, script=s, inputs={k: jsonable(v) for k, v in inputs.items()})))
            return 1
    print(json.dumps(dict(status=st, message=msg)))
    return 0

if __name__ == '__main__':
    if sys.argv[1] == 'run':
        run(sys.argv[2], sys.argv[3], float(sys.argv[4]), sys.argv[5], sys.argv[6:])
    else:
        sys.exit(replay(sys.argv[2]))
