#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design_head.md + one section per property (props.py, harness headers, costs in tools/costs.json) + findings + planted bugs."""
import glob
import json
import os
import re
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from props import PROPS  # noqa: E402
from oracles import O  # noqa: E402
cost = json.load(open(os.path.join(V, 'tools', 'costs.json')))
out = [open(os.path.join(V, 'tools', 'design_head.md')).read().rstrip(), '', '## Properties', '',
       'Cost: one quick run on the 8 cores of the sandbox. Every bound is enforced by the harness; what lies outside it is outside the claim.', '']
for p in PROPS:
    i = p['id']
    out += ['### %s %s' % (i, p['title']), '', p['statement'], '']
    out += ['* Quantified over: ' + p['q'] + '.']
    for h in sorted(glob.glob(os.path.join(V, 'harness', i + '_*.cpp'))):
        t = open(h).read()

        def g(k):
            return '; '.join(re.findall(r'^// %s: *(.*)$' % k, t, re.M))
        n = re.findall(r'^CHECK\((\w+)\)', t, re.M)
        m = re.findall(r'^THOROUGH\((\w+)\)', t, re.M)
        l = '* `%s` (%s): entries %s%s. Bounds: %s.' % (os.path.basename(h), 'bit-precise' if g('MODE') == 'bits' else 'exact reals', ', '.join(n), ('; thorough only: ' + ', '.join(m)) if m else '', g('BOUNDS'))
        if g('STUBS'):
            l += ' Stubs: %s.' % g('STUBS')
        if g('OVERRIDE'):
            l += ' Replaced: %s.' % g('OVERRIDE')
        if g('ASSUME'):
            l += ' Assumed: %s.' % g('ASSUME')
        out.append(l)
    out.append('* Oracle: %s.' % O[i])
    out.append('* Why the tests cannot: ' + p['why'])
    if i in cost:
        out.append('* Cost: ' + cost[i])
    out.append('')
k = json.load(open(os.path.join(V, 'known_findings.json')))['findings']
out += ['## Findings', '', '%d genuine defects were found; %d repaired by `fix:` commits, %d recorded (known_findings.json). None is suppressed by a check.' % (
    len(k), sum(x['status'] == 'fixed' for x in k), sum(x['status'] != 'fixed' for x in k)), '']
for x in k:
    out.append('* ' + x['line'])
out += ['', open(os.path.join(V, 'tools', 'design_notes.md')).read().rstrip(), '', '## Planted bugs', '',
        'Each was written from the text of a property and the code. `tools/seed.py` validates it in a scratch clone (clean demo, build, stable tests, patched demo) and runs the check of its property. "first missed" = the check was strengthened afterwards.', '',
        '| planted bug | property | needs | caught by |', '|---|---|---|---|']
caught = json.load(open(os.path.join(V, 'tools', 'caught.json')))
for d in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    m = json.load(open(d))
    n = os.path.basename(os.path.dirname(d))
    out.append('| %s | %s | %s | %s |' % (n, m['property'], m['needs'].replace('|', '/'), caught.get(n, '?')))
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
print(len(out), 'lines')
