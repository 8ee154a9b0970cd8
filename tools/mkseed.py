#!/usr/bin/env python3
"""mkseed.py < spec : writes seeded/<id>/ . The spec is python text defining S = dict(id, prop, edits=[(file, old, new)], needs, breaks, demo, srcs)."""
import difflib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(sys.stdin.read(), ns)
for S in (ns['S'] if isinstance(ns['S'], list) else [ns['S']]):
    d = '%s/seeded/%s' % (V, S['id'])
    os.makedirs(d, exist_ok=True)
    out, texts = '', {}
    for f, old, new in S['edits']:
        t = texts.setdefault(f, [open('/repo/' + f).read()] * 2)
        assert t[1].count(old) == 1, (S['id'], f, old, t[1].count(old))
        texts[f] = [t[0], t[1].replace(old, new)]
    for f, (a, b) in texts.items():
        out += ''.join(difflib.unified_diff(a.splitlines(True), b.splitlines(True), 'a/' + f, 'b/' + f))
    open(d + '/patch.diff', 'w').write(out)
    json.dump({'property': S['prop'], 'needs': S['needs'], 'what_it_breaks': S['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    open(d + '/demo.cpp', 'w').write(S['demo'])
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
# run with cwd = repository root; exit 0 when the behaviour is right
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d)
g++ -std=c++17 -O1 -w -fno-access-control %s -Isrc -IExtLibraries -I"$d" "$d/demo.cpp" %s -o "$t/demo" && timeout 60 "$t/demo"
rc=$?; rm -rf "$t"; exit $rc
''' % (S.get('flags', ''), ' '.join(S['srcs'])))
    os.chmod(d + '/demo.sh', 0o755)
    print('wrote', S['id'])
