#!/usr/bin/env python3
"""Plants bugs described in Python files: tools/plant.py SPEC.py [id ...] [--notest] [--nocheck]
SPEC defines BUGS = [dict(id, property, file, edits=[(old, new)...], demo, needs, breaks)].  For each bug a scratch copy
of /repo is changed, the test suite and the demonstration are run, the check of the property is run on the copy, and
the bug is kept under seeded/<id> if it passes the tests and the demonstration tells it from the original."""
import sys, os, subprocess, shutil, json, runpy, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# cwd: the repository.  Exit 0: the property holds for this history; otherwise nonzero.
H=$(mktemp -d); trap 'rm -rf "$H"' EXIT
export HOME=$H TMPDIR=$H MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" PYTHONWARNINGS=ignore
timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''
def plant(b, notest, nocheck):
    w = '/tmp/plant/' + b['id']
    shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    r = w + '/repo'
    subprocess.run(['cp', '-a', '/repo', r], check=True)
    fs = b['file'] if isinstance(b['file'], list) else [b['file']]
    for e in b['edits']:
        f, old, new = e if len(e) == 3 else (fs[0],) + tuple(e)
        p = r + '/raytracing/' + f
        s = open(p).read()
        if s.count(old) != 1: return b['id'], 'edit text found %d times: %r' % (s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    d = w + '/seed'; os.makedirs(d)
    open(d + '/patch.diff', 'w').write(subprocess.run(['git', '-C', r, 'diff'], capture_output=True, text=True).stdout)
    open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.py', 'w').write(b['demo'].lstrip())
    json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
    a = subprocess.run(['bash', d + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
    c = subprocess.run(['bash', d + '/demo.sh'], cwd=r, capture_output=True, text=True)
    msg = 'demo %d/%d' % (a.returncode, c.returncode)
    good = b['id'] == 'BASE' or a.returncode == 0 and c.returncode != 0
    if not good: msg += ' BAD ' + (a.stdout + a.stderr)[-400:] + (c.stdout + c.stderr)[-300:]
    if good and not notest:
        os.makedirs(w + '/t/home'); os.makedirs(w + '/t/tmp')
        env = dict(os.environ, HOME=w + '/t/home', TMPDIR=w + '/t/tmp', MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=r, PYTHONUNBUFFERED='1', OPENBLAS_NUM_THREADS='1', PYTHONHASHSEED='0')
        t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=400', '-o', 'python_files=test*.py',
                            '--ignore=testsCallOtherScript.py', '--rootdir=' + r + '/raytracing/tests', '.'], cwd=r + '/raytracing/tests', env=env, capture_output=True, text=True)
        t2 = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--doctest-modules', '--rootdir=' + r] + ['raytracing/' + f for f in sorted(os.listdir(r + '/raytracing')) if f.endswith('.py') and f not in ('__main__.py', '__init__.py', 'lensViewer.py')],
                            cwd=r, env=env, capture_output=True, text=True)
        msg += ' | tests: ' + t.stdout.strip().splitlines()[-1] + ' | doc: ' + t2.stdout.strip().splitlines()[-1]
        fl = [l for l in (t.stdout + t2.stdout).splitlines() if l.startswith(('FAILED', 'ERROR'))]
        fl = [l.split(' - ')[0] for l in fl]
        if b['id'] == 'BASE': json.dump(fl, open('/tmp/plant_base.json', 'w'))
        fl = [l for l in fl if l not in json.load(open('/tmp/plant_base.json'))]
        if fl: msg += ' FAILS ' + '; '.join(fl[:4]); good = False
    if good and not nocheck:
        props = b['property'] if isinstance(b['property'], list) else [b['property']]
        k = subprocess.run(['python3-vt', V + '/check.py', props[0]], cwd=w, env=dict(os.environ, RTV_REPO=r, RTV_EVIDENCE=w), capture_output=True, text=True)
        msg += ' | check %d: ' % k.returncode + ' / '.join(k.stdout.strip().splitlines()[-3:])[-500:] + k.stderr[-300:]
    if good and b['id'] != 'BASE' and not notest:
        shutil.rmtree(V + '/seeded/' + b['id'], ignore_errors=True)
        shutil.copytree(d, V + '/seeded/' + b['id'])
    shutil.rmtree(w, ignore_errors=True)
    return b['id'], msg
if __name__ == '__main__':
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    bugs = runpy.run_path(args[0])['BUGS']
    if args[1:]: bugs = [b for b in bugs if b['id'] in args[1:]]
    with cf.ThreadPoolExecutor(4) as ex:
        for i, m in ex.map(lambda b: plant(b, '--notest' in sys.argv, '--nocheck' in sys.argv), bugs): print(i, ':', m, flush=True)
