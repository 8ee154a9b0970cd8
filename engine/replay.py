#!/usr/bin/env python3-vt
"""replay.py <replay.json>: rebuilds the harness natively from /repo (ASan) and runs the recorded counterexample."""
import json
import os
import sys
import tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as BD  # noqa: E402
import explore  # noqa: E402

r = json.load(open(sys.argv[1]))
with tempfile.TemporaryDirectory(prefix='vsym_replay_') as d:
    b = BD.build(os.path.join(BD.HARN, r['harness'] + '.cpp'), d)
    env = {k: (float.fromhex(v) if isinstance(v, str) else v) for k, v in r['inputs'].items()}
    res = explore.native_run(b['native'], r['entry'], env)
    print(res['raw'])
    bad = r['label'] in res['fails']
    print('reproduced' if bad else 'NOT reproduced', r['entry'], '/', r['label'], '| failing:', sorted(res['fails']))
    sys.exit(1 if bad else 0)
