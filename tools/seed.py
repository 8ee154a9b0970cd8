#!/usr/bin/env python3
"""seed.py ID [--nocheck]: validates seeded/ID in a scratch copy of /repo (demo 0 clean, builds, tests pass, demo !=0 patched) and runs the property's check on it.
seed.py --make ID: writes seeded/ID/patch.diff from the scratch copy's working-tree diff."""
import json, os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get('SEED_WT', '/tmp/seedwt')
R = W + '/repo'


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def prepare():
    head = sh('git -C /repo rev-parse HEAD').stdout.strip()
    if not os.path.isdir(R):
        os.makedirs(W, exist_ok=True)
        sh('git clone -q /repo %s' % R)
        sh('cp -a /repo/_build/_deps %s 2>/dev/null' % W)
    sh('git -C %s checkout -q -- . ; git -C %s clean -fdq -e _build; git -C %s fetch -q && git -C %s checkout -q %s' % (R, R, R, R, head))
    # build scripts with the paths replaced
    sh('rm -rf %s/vp; cp -a /opt/vp %s/vp; grep -rl /repo %s/vp | xargs sed -i "s#/repo#%s#g; s#/opt/vp#%s/vp#g"' % (W, W, W, R, W))


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith('--')]
    if '--prepare' in sys.argv:
        prepare()
        return
    prepare()
    b = sh('bash %s/vp/build.sh' % W)
    if b.returncode:
        print(b.stdout[-3000:]); return 1
    base = json.load(open('/opt/vp/BASELINE.json'))
    stable = base['stable']
    for i in ids:
        d = '%s/seeded/%s' % (V, i)
        t = W + '/demo'
        shutil.rmtree(t, ignore_errors=True)
        shutil.copytree(d, t)
        for f in ('patch.diff', 'meta.json'):
            os.path.exists(t + '/' + f) and os.remove(t + '/' + f)
        m = json.load(open(d + '/meta.json'))
        r = []
        c = sh('bash %s/demo.sh' % t, cwd=R)
        r.append('clean demo %d' % c.returncode)
        if c.returncode: print(c.stdout[-2000:])
        a = sh('git -C %s apply %s/patch.diff' % (R, d))
        if a.returncode: print(i, 'DOES NOT APPLY', a.stdout); continue
        tt = sh('bash %s/vp/test.sh %s/out.json' % (W, W))
        o = json.load(open(W + '/out.json'))
        miss = set(stable) - set(o['passed'])
        r.append('tests %s' % ('pass' if not miss else 'FAIL %s' % sorted(miss)[:3]))
        if miss: print(tt.stdout[-2500:])
        c2 = sh('bash %s/demo.sh' % t, cwd=R)
        r.append('bug demo %d' % c2.returncode)
        if '--nocheck' not in sys.argv:
            t0 = time.time()
            e = dict(os.environ, VSYM_REPO=R)
            k = sh('python3-vt engine/check.py %s --tier quick --noevidence' % m['property'], cwd=V, env=e)
            r.append('check rc %d (%.0f s) %s' % (k.returncode, time.time() - t0, ' '.join(re.findall(r'VIOLATION.*', k.stdout)[:1])))
            if '-v' in sys.argv: print(k.stdout[-3000:])
        sh('git -C %s apply -R %s/patch.diff' % (R, d))
        good = c.returncode == 0 and not miss and c2.returncode != 0
        print(('OK  ' if good else 'BAD '), i, m['property'], '; '.join(r), flush=True)


sys.exit(main())
