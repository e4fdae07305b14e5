#!/usr/bin/env python3
"""Runs the check of its property against every planted change (in a scratch copy) and writes tools/caught.json.
tools/run_seeded.py [id ...]"""
import sys, os, subprocess, shutil, json, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def one(i):
    d = V + '/seeded/' + i; w = '/tmp/runseeded/' + i
    shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    subprocess.run(['cp', '-a', '/repo', w + '/repo'], check=True)
    subprocess.run(['git', '-C', w + '/repo', 'apply', d + '/patch.diff'], check=True)
    p = json.load(open(d + '/meta.json'))['property']
    k = subprocess.run(['python3-vt', V + '/check.py', p], cwd=w, env=dict(os.environ, RTV_REPO=w + '/repo', RTV_EVIDENCE=w), capture_output=True, text=True)
    ls = k.stdout.strip().splitlines()
    v = [l for l in ls if l.startswith('VIOLATION')]
    c = [l for l in ls if l.startswith('contract ')]
    shutil.rmtree(w, ignore_errors=True)
    if k.returncode == 1 and v: return i, (c[0].split(':')[0] if c else '') + (' (no failing input)' if v[0].endswith('no-failing-input-found') else ' (failing input replayed)')
    return i, 'MISSED (exit %d)' % k.returncode
if __name__ == '__main__':
    f = V + '/tools/caught.json'
    known = json.load(open(f)) if os.path.exists(f) else {}
    with cf.ThreadPoolExecutor(2) as ex:
        for i, m in ex.map(one, sys.argv[1:] or sorted(os.listdir(V + '/seeded'))):
            known[i] = m; print(i, m, flush=True)
    known = {i: m for i, m in known.items() if os.path.isdir(V + '/seeded/' + i)}
    json.dump(known, open(f, 'w'), indent=1, sort_keys=True)
