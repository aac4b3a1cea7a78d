#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table in tools/proptable.py"""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from proptable import PROPS, NA      # noqa
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
with open(os.path.join(R, 'properties.jsonl'), 'w') as f:
    for p in PROPS+NA:
        assert len(p['title']) <= 80, p['title']
        assert p['statement'].count('. ') <= 2, p['id']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p.get('over', ['inputs']), 'text': p['q']},
                            'why_tests_cant': p['why'],
                            'anchors': {'files': ['src/cssrlib/'+x for x in p['files']],
                                        'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}})+'\n')
m = {'version': 1, 'setup_cmd': PY+' -c "import vc.api, vc.run"',
     'checks': [{'property': p['id'], 'quick_cmd': '%s -m vc.run %s --tier quick' % (PY, p['id']),
                 'thorough_cmd': '%s -m vc.run %s --tier thorough' % (PY, p['id']),
                 'technique': 'contract-based deductive verification: weakest-precondition style symbolic execution of the current source against function contracts, obligations discharged by z3',
                 'level': p.get('level', 'proof'),
                 'level_note': p['note']} for p in PROPS],
     'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NA],
     'notes': 'Contracts in props/, verifier in vc/. Each check re-reads and re-verifies /repo\'s current source on every run; the same contracts are also evaluated on the real code (runtime assertion checking), which replays the solver\'s counterexamples and is the labelled bounded stand-in for what the solver cannot decide. Integers are mathematical, floats are reals with a NaN flag.'}
json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
print(len(PROPS), 'claimed', len(NA), 'not applicable')
