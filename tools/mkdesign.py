#!/usr/bin/env python3
"""DESIGN.md = tools/design_head.md + per-property table (proptable, contracts) + findings + seeded table + tail"""
import glob, importlib, json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [R, os.path.join(R, 'tools')]
from proptable import PROPS, NA
os.chdir(R)
o = [open('tools/design_head.md').read().rstrip(), '']
from vc import run
for p in PROPS:
    cs = run.load_props(p['id'])
    o += ['### %s — %s' % (p['id'], p['title']), '', p.get('design', p['note']), '']
    doc = ''
    pr = [c for c in cs if c.prove]
    bd = [c for c in cs if not c.prove]
    fns = sorted({f for c in cs for f in c.fns})
    o.append('Functions under contract: '+', '.join('`%s`' % f for f in fns)+'.  ')
    if pr:
        o.append('Discharged by the prover: '+', '.join('`%s`' % c.name for c in pr)+'.  ')
    if bd:
        o.append('Bounded (runtime contract only): '+'; '.join('`%s` (%s)' % (c.name, c.why_bounded or 'see contract') for c in bd)+'.  ')
    o.append('')
if NA:
    o += ['## Not applicable', '']
    o += ['* %s %s: %s' % (p['id'], p['title'], p['reason']) for p in NA]+['']
kf = json.load(open('known_findings.json'))
o += ['## Findings', '', 'Repaired (one `fix:` commit each in /repo):', '']
o += ['* '+f['line'] for f in kf if f['status'] == 'fixed']
kn = [f for f in kf if f['status'] == 'known']
if kn:
    o += ['', 'Recorded, not repaired (reported as KNOWN-FINDING by the check):', '']
    o += ['* %s `%s` / "%s": %s' % (f['property'], f['contract'], f['obligation'], f['what']) for f in kn]
o += ['', '## Planted bugs', '', '| id | property | needs | breaks | caught by |', '|---|---|---|---|---|']
res = json.load(open('tools/seed_results.json')) if os.path.exists('tools/seed_results.json') else {}
for d in sorted(glob.glob('seeded/*')):
    m = json.load(open(d+'/meta.json'))
    i = os.path.basename(d)
    o.append('| %s | %s | %s | %s | %s |' % (i, m['property'], m['needs'], m['what_it_breaks'], res.get(i, '')))
o += ['', open('tools/design_tail.md').read()]
open('DESIGN.md', 'w').write('\n'.join(o))
