#!/usr/bin/env python3-vt
"""Decides one property: check.py PROPERTY [--tier quick|thorough]

1. every contract registered for the property is verified against /repo's current source (rtv/worker.py),
2. the same contracts are executed on the unmodified library with seeded inputs (bounded cross-check).
Exit 0: every obligation discharged.  Exit 1 with a VIOLATION line otherwise."""
import sys, os, json, subprocess, time, tempfile, shutil, importlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE); sys.dont_write_bytecode = True
LIBPY = '/opt/venv/bin/python'
VTPY = shutil.which('python3-vt') or sys.executable

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = os.environ.get('VERIF_SEED', '1')
    t0 = time.time()
    from rtv import api
    for f in sorted(os.listdir(os.path.join(HERE, 'contracts'))):
        if f.startswith('c_') and f.endswith('.py'): importlib.import_module('contracts.' + f[:-3])
    sym = [h for h in api.HARNESSES if prop in h.props and h.mode != 'con']
    con = [h for h in api.HARNESSES if prop in h.props and h.mode != 'sym']
    if not sym and not con:
        print('no contract for', prop); sys.exit(2)
    budget = 500 if tier == 'quick' else 780
    work = tempfile.mkdtemp(prefix='rtv_%s_' % prop)
    ev = os.environ.get('RTV_EVIDENCE') or os.path.join(HERE, 'evidence'); os.makedirs(ev, exist_ok=True)
    try:
        code = decide(prop, tier, seed, t0, sym, con, budget, work, ev)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)

def spawn_concrete(prop, seed, seconds, work, tag, names=()):
    out = os.path.join(work, 'con_%s.json' % tag)
    p = subprocess.Popen([LIBPY, os.path.join(HERE, 'rtv', 'concrete.py'), 'run', prop, str(seed), str(seconds), out] + list(names),
                         stdout=subprocess.DEVNULL, stderr=open(os.path.join(work, 'con_%s.err' % tag), 'w'), cwd=work)
    return p, out

def finish_concrete(p, out, work, tag, timeout):
    try: p.wait(timeout)
    except subprocess.TimeoutExpired:
        p.kill(); p.wait()
    try: return json.load(open(out))
    except (OSError, ValueError):
        err = open(os.path.join(work, 'con_%s.err' % tag)).read()[-2000:]
        return dict(harnesses=[], failures=[], error=err or 'no result', wall_s=0)

def unlisted(prop, failures):
    known = [k for k in load_known() if k.get('property') == prop and k.get('status') == 'open']
    return [f for f in failures if not any(k['harness'] == f['harness'] and f['message'].startswith(k['message']) for k in known)]

def decide(prop, tier, seed, t0, sym, con, budget, work, ev):
    # --- bounded cross-check, in the background
    csec = 12 if tier == 'quick' else 200
    cons = []
    nshard = 1 if tier == 'quick' else 3
    if con:
        for k in range(nshard): cons.append(spawn_concrete(prop, '%s.%d' % (seed, k), csec, work, 'c%d' % k) + ('c%d' % k,))
    # --- deductive verification
    queue = sorted(sym, key=lambda h: -h.weight); hurry = False
    running = []; results = {}; again = set()
    patience = 230 if tier == 'quick' else 420
    slots = 7
    while queue or running:
        while queue and len(running) < slots:
            h = queue.pop(0)
            out = os.path.join(work, 'sym_%s.json' % h.name)
            left = budget - (time.time() - t0)
            p = subprocess.Popen([VTPY, os.path.join(HERE, 'rtv', 'worker.py'), out, str(max(20, left)), h.name], stdout=subprocess.DEVNULL,
                                 stderr=open(out + '.err', 'w'), cwd=work)
            running.append((h, p, out, time.time()))
        for r in list(running):
            h, p, out, began = r
            stuck = h.name not in again and time.time() - began > patience
            if p.poll() is None and stuck and budget - (time.time() - t0) > 60:
                # one more attempt, in a new process
                p.kill(); p.wait(); running.remove(r); again.add(h.name); queue.insert(0, h); continue
            if p.poll() is not None or time.time() - t0 > budget + 30:
                if p.poll() is None: p.kill(); p.wait()
                running.remove(r)
                try: results[h.name] = json.load(open(out))[0]
                except (OSError, ValueError, IndexError):
                    err = open(out + '.err').read()[-1500:]
                    results[h.name] = dict(name=h.name, status='unsupported', unsupported='verifier gave no answer: ' + (err or 'time budget exhausted'),
                                           obligations=0, discharged=0, failed=[], backends={}, names={}, time=0, solver=0, paths=0, ran=[])
        if not hurry and tier == 'quick':
            # a failing input is known, or a contract failed: the rest is not waited for as long
            found = cons and all(p.poll() is not None for p, o, t in cons) and any(unlisted(prop, finish_concrete(p, o, work, t, 1)['failures']) for p, o, t in cons)
            if found or any(r['status'] != 'ok' for r in results.values()):
                hurry = True; budget = min(budget, max(time.time() - t0, 60) + (20 if found else 150))
        time.sleep(0.02)
    cres = [finish_concrete(p, o, work, tag, csec + 60) for p, o, tag in cons]
    cfail = [f for c in cres for f in c['failures']]
    cerr = [c['error'] for c in cres if c.get('error')]
    bad = {n: r for n, r in results.items() if r['status'] != 'ok'}
    known = [k for k in load_known() if k.get('property') == prop and k.get('status') == 'open']
    lines = []
    viol = 0
    # known findings
    rest = []
    for f in cfail:
        k = [k for k in known if k['harness'] == f['harness'] and f['message'].startswith(k['message'])]
        if k: lines.append('KNOWN-FINDING: property=%s %s' % (prop, k[0]['what']))
        else: rest.append(f)
    cfail = rest
    rp = os.path.join(ev, 'replay_%s.json' % prop)
    if os.path.exists(rp): os.remove(rp)
    failing = None
    if cfail:
        f = cfail[0]
        failing = dict(property=prop, harness=f['harness'], case=f['case'], message=f['message'], inputs=f['inputs'], scripts=[None])
    elif bad:
        # the verifier's counterexamples, replayed on the real code
        scripts = [(n, c) for n, r in bad.items() for o in r['failed'] if n in [h.name for h in con] for c in o.get('scripts', []) + [o.get('script')] if c is not None]
        for n, s in scripts[:40]:
            d = dict(property=prop, harness=n, case='replay', scripts=[s])
            tmp = os.path.join(work, 'replay.json'); json.dump(d, open(tmp, 'w'))
            try: q = subprocess.run([LIBPY, os.path.join(HERE, 'rtv', 'concrete.py'), 'replay', tmp], capture_output=True, text=True, timeout=60, cwd=work)
            except subprocess.TimeoutExpired: continue
            if q.returncode == 1:
                try: info = json.loads(q.stdout.strip().splitlines()[-1])
                except (ValueError, IndexError): continue
                d['message'] = info['message']; d['inputs'] = info['inputs']; failing = d; break
        if failing is None and con:
            # deeper search on the contracts that failed, then on all
            left = max(30, min(120, budget + 250 - (time.time() - t0)))
            ps = []
            names = [n for n in bad if n in [h.name for h in con]]
            for k in range(8):
                ps.append(spawn_concrete(prop, '%s.x%d' % (seed, k), left / 2, work, 'x%d' % k, names if k < 4 and names else ()) + ('x%d' % k,))
            for p, o, tag in ps:
                for f in finish_concrete(p, o, work, tag, left + 60)['failures']:
                    if any(k['harness'] == f['harness'] and f['message'].startswith(k['message']) for k in known): continue
                    failing = failing or dict(property=prop, harness=f['harness'], case=f['case'], message=f['message'], inputs=f['inputs'], scripts=[None])
    if failing is not None:
        failing['undischarged'] = summary(bad)
        json.dump(failing, open(rp, 'w'), indent=1, default=str)
        lines.append('contract %s: %s' % (failing['harness'], failing['message']))
        lines.append('VIOLATION property=%s replay=%s' % (prop, rp)); viol = 1
    elif bad or cerr:
        json.dump(dict(property=prop, undischarged=summary(bad), run_time_check_error=cerr), open(rp, 'w'), indent=1, default=str)
        for n, r in bad.items():
            for o in r['failed'][:3]: lines.append('contract %s: obligation not discharged: %s (%s) %s' % (n, o['name'], o['status'], o['note']))
            if r['unsupported']: lines.append('contract %s: outside the verifier\'s reach: %s' % (n, r['unsupported']))
        for e in cerr: lines.append('run-time check failed to run: ' + e[-300:])
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp)); viol = 1
    write_evidence(prop, tier, seed, t0, sym, con, results, cres, viol, ev)
    for l in lines: print(l)
    tot = sum(r['obligations'] for r in results.values()); dis = sum(r.get('discharged', 0) for r in results.values())
    print('%s: %d contracts, %d/%d obligations discharged, %d run-time cases, %.1f s' % (prop, len(results), dis, tot,
          sum(h['checked'] for c in cres for h in c['harnesses']), time.time() - t0))
    return 1 if viol else 0

def summary(bad):
    return [dict(contract=n, status=r['status'], unsupported=r['unsupported'], obligations=r['failed']) for n, r in bad.items()]

def load_known():
    try: return json.load(open(os.path.join(HERE, 'known_findings.json')))['findings']
    except (OSError, ValueError, KeyError): return []

def write_evidence(prop, tier, seed, t0, sym, con, results, cres, viol, ev):
    from contracts import assumptions
    be = {}
    for r in results.values():
        for k, v in r['backends'].items(): be[k] = be.get(k, 0) + v
    funcs = sorted(set(f for h in sym for f in h.under))
    ran = sorted(set(f for r in results.values() for f in r['ran']))
    stubs = sorted(set(u for h in sym for u in h.uses))
    ob = sum(r['obligations'] for r in results.values()); di = sum(r.get('discharged', 0) for r in results.values())
    cov = dict(obligations=ob, discharged=di, checker_cmd='python3-vt /verif/check.py %s --tier %s' % (prop, tier),
               trusted_base=assumptions.TRUSTED,
               contracts=[dict(name=r['name'], status=r['status'], obligations=r['obligations'], discharged=r.get('discharged', 0), paths=r['paths'],
                               seconds=r['time'], solver_seconds=r['solver'], backends=r['backends'],
                               statements=sorted(r.get('names', {}))[:60], bounded=bool([h for h in sym if h.name == r['name']][0].opts.get('bounded')),
                               bound=[h for h in sym if h.name == r['name']][0].opts.get('bounded') or None) for r in results.values()],
               functions_under_contract=funcs, functions_executed_symbolically=ran,
               callee_contracts_used=stubs, backends=be, solver_seconds=round(sum(r['solver'] for r in results.values()), 2),
               bounded_run_time_cross_check=[dict(h) for c in cres for h in c['harnesses']],
               run_time_only_contracts=[dict(name=h.name, note=h.note) for h in con if h.mode == 'con'])
    lvl = level_of(prop)
    d = dict(property=prop, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=int(seed) if str(seed).isdigit() else 0, level=lvl, coverage=cov,
             assumptions=assumptions.for_property(prop), wall_s=round(time.time() - t0, 2), violations=viol)
    with open(os.path.join(ev, prop + '.json'), 'w') as f: json.dump(d, f, indent=1, default=str)

def level_of(prop):
    try:
        for c in json.load(open(os.path.join(HERE, 'MANIFEST.json')))['checks']:
            if c['property'] == prop: return c['level']
    except (OSError, ValueError, KeyError): pass
    return 'proof'

if __name__ == '__main__': main()
