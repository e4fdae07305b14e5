#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check per property that has a contract."""
import json, os, sys, importlib
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here); sys.dont_write_bytecode = True
from rtv import api
for f in sorted(os.listdir(os.path.join(here, 'contracts'))):
    if f.startswith('c_') and f.endswith('.py'): importlib.import_module('contracts.' + f[:-3])
TECH = "contracts on the real code (rewritten mechanically on every run), verification conditions by symbolic execution with inductive loop invariants, discharged by z3/cvc5/polynomial identities"
BASE = "Every obligation generated from the current source is discharged for all inputs satisfying the stated preconditions; floats are treated as real numbers; the verifier (rtv) and the solvers are trusted. The same contracts are executed on the unmodified library (bounded cross-check, not counted as proof). "
from contracts import levels
ids = [json.loads(l)['id'] for l in open(os.path.join(here, 'properties.jsonl'))]
checks, na = [], []
for p in ids:
    hs = [h for h in api.HARNESSES if p in h.props]
    if p in levels.NOT_APPLICABLE or not hs:
        na.append(dict(property=p, reason=levels.NOT_APPLICABLE.get(p, 'no contract has been built for it yet'))); continue
    lvl, note = levels.LEVELS.get(p, ('proof', '')); note = note or levels.NOTES.get(p, '')
    checks.append(dict(property=p, quick_cmd='python3-vt /verif/check.py %s --tier quick' % p, thorough_cmd='python3-vt /verif/check.py %s --tier thorough' % p,
                       evidence_file='evidence/%s.json' % p, technique=TECH if any(h.mode != 'con' for h in hs) else 'bounded run-time contract checking', level=lvl, level_note=BASE + note))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na), open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print([c['property'] for c in checks], 'not claimed:', [n['property'] for n in na])
