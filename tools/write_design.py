#!/usr/bin/env python3
"""Writes /verif/DESIGN.md: tools/design.md (prose) with the list of contracts, taken from the registry, in place of @CONTRACTS@
and the repaired defects in place of @FIXED@."""
import json, os, sys, importlib
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here); sys.dont_write_bytecode = True
from rtv import api
for f in sorted(os.listdir(os.path.join(here, 'contracts'))):
    if f.startswith('c_') and f.endswith('.py'): importlib.import_module('contracts.' + f[:-3])
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
text = open(os.path.join(here, 'tools', 'design.md')).read()
out = []
for p in props:
    hs = [h for h in api.HARNESSES if p['id'] in h.props]
    out.append('### %s %s\n' % (p['id'], p['title']))
    note = {}
    exec('', note)
    for mode, title in (('sym', 'proved'), ('both', 'proved, and run'), ('con', 'run only (bounded)')):
        sel = [h for h in hs if (h.mode or 'both') == mode]
        if not sel: continue
        out.append('*%s*: ' % title + '; '.join('`%s`%s' % (h.name, ' (%s)' % ', '.join(h.under) if h.under else '') for h in sel) + '.')
    uses = sorted(set(u for h in hs for u in h.uses))
    if uses: out.append('*callee contracts used at call sites*: ' + ', '.join(uses) + '.')
    out.append('')
    extra = os.path.join(here, 'tools', 'design')
text = text.replace('@CONTRACTS@', '\n'.join(out))
known = json.load(open(os.path.join(here, 'known_findings.json')))
text = text.replace('@FIXED@', '\n'.join('* ' + f[len('fixed: property='):] for f in known['fixed']))
caught = json.load(open(os.path.join(here, 'tools', 'caught.json')))
rows = ['| planted change | breaks when | reported by |', '|---|---|---|']
for d in sorted(os.listdir(os.path.join(here, 'seeded'))):
    m = json.load(open(os.path.join(here, 'seeded', d, 'meta.json')))
    rows.append('| %s: %s | %s | %s |' % (d, m['what_it_breaks'], m['needs'], caught.get(d, '(not run yet)')))
text = text.replace('@SEEDED@', '\n'.join(rows))
open(os.path.join(here, 'DESIGN.md'), 'w').write(text)
