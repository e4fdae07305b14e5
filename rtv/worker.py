"""Verifies contracts in one process: worker.py OUT BUDGET HARNESS..."""
import sys, os, json, time, importlib, traceback
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

def value(model, t):
    import z3
    v = model.eval(t, model_completion=True)
    if z3.is_true(v): return True
    if z3.is_false(v): return False
    if z3.is_int_value(v): return v.as_long()
    if z3.is_rational_value(v):
        try: return float(v.as_fraction())
        except OverflowError: return 1e300
    if z3.is_algebraic_value(v):
        return float(v.approx(20).as_fraction())
    return None

def script_of(o, m=None):
    """inputs of a counterexample"""
    import z3
    out = {}
    m = o.model if m is None else m
    for name, (kind, t) in o.path.items():
        if kind == 'const': out[name] = t
        elif kind == 'elements':
            b = t
            n = value(m, b.n)
            if n is None or n > 12: continue
            es = []
            IS, RS, BS = z3.IntSort(), z3.RealSort(), z3.BoolSort()
            f = lambda x, i: value(m, z3.Function('%s.%s' % (b.name, x), IS, RS)(z3.IntVal(i)))
            bo = lambda x, i: value(m, z3.Function('%s.%s' % (b.name, x), IS, BS)(z3.IntVal(i)))
            for i in range(max(0, n)):
                d = {x: f(x, i) for x in 'ABCDL'}
                if b.opts.get('matched', True): d['frontIndex'], d['backIndex'] = f('idx', i), f('idx', i + 1)
                else: d['frontIndex'], d['backIndex'] = f('fi', i), f('bi', i)
                d['frontVertex'] = f('fv', i) if bo('hasfv', i) else None
                d['backVertex'] = f('bv', i) if bo('hasbv', i) else None
                d['apertureDiameter'] = float('inf') if bo('noap', i) else f('ap', i)
                es.append(d)
            out[name] = es
        elif kind == 'rays':
            b = t; n = value(m, b.n)
            if n is None or n > 12: continue
            IS, RS, BS = z3.IntSort(), z3.RealSort(), z3.BoolSort()
            f = lambda x, i: value(m, z3.Function('%s.%s' % (b.name, x), IS, RS)(z3.IntVal(i)))
            bo = lambda x, i: value(m, z3.Function('%s.%s' % (b.name, x), IS, BS)(z3.IntVal(i)))
            out[name] = [dict(y=f('y', i), theta=f('theta', i), z=f('z', i), isBlocked=bo('blocked', i) if b.opts.get('blocked') is None else b.opts['blocked'],
                              wavelength=f('wl', i) if bo('haswl', i) else None, apertureDiameter=float('inf') if bo('noap', i) else f('ap', i)) for i in range(max(0, n))]
        else:
            v = value(m, t)
            if v is not None: out[name] = v
    return out

def margin(goal, m):
    """the negation of the goal, by a margin where it compares numbers"""
    import z3
    k = goal.decl().kind(); ch = goal.children()
    if k == z3.Z3_OP_AND: return z3.Or([margin(c, m) for c in ch])
    if k == z3.Z3_OP_OR: return z3.And([margin(c, m) for c in ch])
    if k == z3.Z3_OP_IMPLIES: return z3.And(ch[0], margin(ch[1], m))
    if k in (z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT) and z3.is_real(ch[0]):
        d = ch[0] - ch[1]
        if k == z3.Z3_OP_EQ: return z3.Or(d >= m, -d >= m)
        return d >= m if k in (z3.Z3_OP_LE, z3.Z3_OP_LT) else -d >= m
    return z3.Not(goal)

def nice_models(o):
    """counterexamples worth replaying in machine arithmetic: all hypotheses, inputs of moderate size, and a visible difference"""
    import z3
    from rtv import solve
    box, ns = [], []
    def near(t, b): box.extend([t <= b, t >= -b, z3.Or(t == 0, t >= z3.Q(1, 32), t <= z3.Q(-1, 32))])
    for name, (kind, t) in o.path.items():
        if kind in ('elements', 'rays'):
            b = t; ns.append(b.n)
            f = lambda x, i: z3.Function('%s.%s' % (b.name, x), z3.IntSort(), z3.RealSort())(z3.IntVal(i))
            for i in range(4):
                for x in ('A', 'B', 'C', 'D', 'L') if kind == 'elements' else ('y', 'theta', 'z'): near(f(x, i), 40)
        elif hasattr(t, 'sort') and z3.is_real(t): near(t, 40)
        elif hasattr(t, 'sort') and z3.is_int(t): box.extend([t <= 12, t >= -12])
    box.extend(n <= 4 for n in ns)
    tries = [(box, 1), (box, z3.Q(1, 20)), (box, z3.Q(1, 1000)), (box, None), ([n <= 4 for n in ns], None)]
    for extra, m in tries:
        ng = z3.Not(o.goal) if m is None else margin(o.goal, m)
        try:
            fs = solve.prepare(list(o.pc) + [ng] + list(extra))
            s = z3.Solver() if solve._has_int_or_uf(fs) else z3.SolverFor('QF_NRA')
            s.set('timeout', 4000); s.add(*fs)
            if solve.WATCH.check(s, 4000) == z3.sat: yield s.model()
        except z3.Z3Exception: continue

def main():
    out, budget, names = sys.argv[1], float(sys.argv[2]), sys.argv[3:]
    ran = set()
    mon = sys.monitoring
    mon.use_tool_id(3, 'rtv')
    repo = os.environ.get('RTV_REPO', '/repo') + '/raytracing/'
    def start(code, off):
        if code.co_filename.startswith(repo) and not code.co_name.startswith('<'):
            ran.add(os.path.basename(code.co_filename)[:-3] + '.' + code.co_qualname)
        return mon.DISABLE
    mon.register_callback(3, mon.events.PY_START, start)
    from rtv import engine, api, verify, symg, solve
    res = []
    try:
        e = engine.Engine(); e.load()
        g = symg.SymG(e)
        for f in sorted(os.listdir(os.path.join(HERE, 'contracts'))):
            if f.startswith('c_') and f.endswith('.py'): importlib.import_module('contracts.' + f[:-3])
    except BaseException as x:
        for n in names:
            res.append(dict(name=n, status='unsupported', unsupported='loading the library: %s: %s' % (type(x).__name__, x), obligations=0, failed=[], backends={}, time=0, solver=0, paths=0, ran=[]))
        json.dump(res, open(out, 'w')); return
    mon.set_events(3, mon.events.PY_START)
    for n in names:
        h = [h for h in api.HARNESSES if h.name == n][0]
        ran.clear(); mon.restart_events()
        r = verify.run_harness(g, h, budget=budget)
        be = {}; byname = {}
        for o in r['obligations']:
            if o.status == 'proved': be[o.backend] = be.get(o.backend, 0) + 1
            byname[o.name] = byname.get(o.name, 0) + 1
        fl = []; began = time.time()
        for o in r['failed'][:12]:
            d = dict(name=o.name, status=o.status, note=o.note)
            if o.model is not None:
                try: d['script'] = script_of(o)
                except Exception as x: d['script_error'] = repr(x)
                try: d['model'] = str(o.model)[:3000]
                except Exception: pass
            if o.path is not None and len(fl) < 4 and time.time() - began < 60:
                try: d['scripts'] = [script_of(o, m) for m in nice_models(o)]
                except Exception as x: d['script_error'] = repr(x)
            try: d['goal'] = str(o.goal)[:2000]
            except Exception: pass
            fl.append(d)
        res.append(dict(name=n, status=r['status'], unsupported=r['unsupported'], obligations=len(r['obligations']),
                        discharged=len(r['obligations']) - len(r['failed']), failed=fl, backends=be,
                        names=byname, time=round(r['time'], 2), solver=round(r['stats']['vc_t'] + r['stats']['feas_t'], 2), paths=r['paths'], ran=sorted(ran)))
        with open(out + '.tmp', 'w') as f: json.dump(res, f, default=str)
        os.replace(out + '.tmp', out)

if __name__ == '__main__': main()
