#!/usr/bin/env python3
"""tools/finding.py PROP ID COMMIT TEXT: record a repaired defect in known_findings.json"""
import json, sys, os
p = os.path.join(os.path.dirname(__file__), '..', 'known_findings.json')
d = json.load(open(p))
prop, fid, commit, text = sys.argv[1:5]
d['findings'] = [f for f in d['findings'] if f['id'] != fid]
d['findings'].append(dict(property=prop, id=fid, status='fixed', commit=commit, line=f'fixed: property={prop} {commit} {text}'))
json.dump(d, open(p, 'w'), indent=1)
open(p, 'a').write('\n')
