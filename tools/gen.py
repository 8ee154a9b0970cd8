#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (claims = properties with a harness)."""
import glob
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from props import PROPS, NOT_APPLICABLE  # noqa: E402
TECH = 'symbolic execution of the compiled code (LLVM IR regenerated from /repo) + SMT (z3) per obligation, counterexamples replayed natively'
lines, checks, na = [], [], []
for p in PROPS:
    o = {'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['q']},
         'why_tests_cant': p['why'], 'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}
    assert len(o['title']) <= 80, o['title']
    for f in p['files']:
        assert os.path.exists('/repo/' + f), f
    lines.append(json.dumps(o))
    if p['id'] in NOT_APPLICABLE:
        na.append({'property': p['id'], 'reason': NOT_APPLICABLE[p['id']]})
    elif glob.glob(os.path.join(V, 'harness', p['id'] + '_*.cpp')):
        checks.append({'property': p['id'], 'quick_cmd': 'python3-vt engine/check.py %s --tier quick' % p['id'],
                       'thorough_cmd': 'python3-vt engine/check.py %s --tier thorough' % p['id'], 'technique': TECH,
                       'level': 'model_checking', 'level_note': p['note']})
    else:
        na.append({'property': p['id'], 'reason': 'no check built yet'})
open(os.path.join(V, 'properties.jsonl'), 'w').write('\n'.join(lines) + '\n')
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
           'notes': 'Every check compiles the functions it needs from /repo to LLVM IR, executes them symbolically and discharges each assertion with z3; see DESIGN.md.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(lines), 'properties', len(checks), 'claimed')
