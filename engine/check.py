#!/usr/bin/env python3-vt
"""check.py <PROPERTY> [--tier quick|thorough] : decides one property on /repo's current tree."""
import argparse
import glob
import json
import os
import shutil
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build as BD  # noqa: E402
VERIF = BD.VERIF


def setup_machine(bc, mode):
    import interp
    import explore
    m = interp.Machine(bc, mode)
    # run global constructors concretely once
    sh = {'tries': {}, 'deadline': time.time() + 120, 'cosim_left': 0, 'decisions': 0, 'forks': 0, 'queries': 0, 'solver_s': 0, 'unknown_feas': 0}
    P = explore.Path(m, [], {'fuel': 5000000, 'entry': 'init', 'native': None}, sh)
    m.template_next = m.first_dyn
    m.reset_path(P)
    g = m.mod.globals.get('llvm.global_ctors')
    if g:
        import llvmc as L
        init = L.GetInitializer(g)
        n = m.mod.ty(L.GlobalGetValueType(g)).n
        fs = []
        for i in range(n):
            e = L.GetAggregateElement(init, i)
            fs.append((m.const(L.GetAggregateElement(e, 0)), i, m.const(L.GetAggregateElement(e, 1))))
        for _, _, f in sorted(fs):
            m.resolve_addr(f)()
    m.freeze_template()
    return m


def demangle(names):
    import subprocess
    try:
        r = subprocess.run(['c++filt'], input='\n'.join(names).encode(), stdout=subprocess.PIPE, timeout=30)
        return r.stdout.decode().split('\n')[:len(names)]
    except Exception:
        return list(names)


def repo_functions(mach, dem):
    """functions executed symbolically that are not library templates/harness"""
    out = []
    for n, d in dem:
        if n.startswith(('chk_', 'thr_')):
            continue
        if d.startswith('s2e::') or ' s2e::' in d.split('(')[0] or n[0] != '_':
            out.append(d)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--entry')
    ap.add_argument('--harness')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--budget', type=float)
    ap.add_argument('--keep')
    ap.add_argument('--noevidence', action='store_true')
    a = ap.parse_args()
    prop = a.prop
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    hs = sorted(glob.glob(os.path.join(VERIF, 'harness', prop + '_*.cpp')))
    if a.harness:
        hs = [h for h in hs if a.harness in h]
    if not hs:
        print('no harness for ' + prop)
        return 2
    known = json.load(open(os.path.join(VERIF, 'known_findings.json')))
    known = [k for k in known.get('findings', []) if k.get('property') == prop and k.get('status', 'known') == 'known']
    total = a.budget or (420.0 if a.tier == 'quick' else 3000.0)
    work = a.keep or tempfile.mkdtemp(prefix='vsym_%s_' % prop)
    import explore
    agg = {'paths': 0, 'status': {}, 'obl': {}, 'queries': 0, 'solver_s': 0.0, 'decisions': 0, 'forks': 0, 'steps': 0, 'functions': set(),
           'cosim': {}, 'notes': {}, 'bounds': [], 'stubs': [], 'assume': [], 'viol': [], 'samples': [], 'left': {}, 'lost': [], 'harness': {},
           'unknown_feas': 0, 'notbuilt': [], 'methods': {}, 'mismatch': [], 'incomplete': [], 'inputs': {}}
    try:
        for hi, h in enumerate(hs):
            name = os.path.basename(h)[:-4]
            tb = time.time()
            try:
                b = BD.build(h, os.path.join(work, name))
            except Exception as e:
                # e.g. a function which the harness replaces is now needed together with others of its file: let the harness' one win
                try:
                    b = BD.build(h, os.path.join(work, name + '_o'), override='functions of the harness take precedence over those of the repository')
                except Exception:
                    if len(hs) == 1:
                        raise e
                    print('harness %s could not be built: %s' % (name, str(e)[:600]))
                    agg['notbuilt'].append('%s: %s' % (name, str(e)[:600]))
                    continue
            d = b['desc']
            mach = setup_machine(b['bc'], d['mode'])
            ents = [e for e in b['entries'] if e.startswith('chk_') or a.tier == 'thorough']
            if a.entry:
                ents = [e for e in b['entries'] if a.entry in e]
            rest = total - (time.time() - t0)
            share = rest / (len(hs) - hi)
            opts = dict(d['opts'])
            opts.setdefault('obl_ms', 15000)
            if a.tier == 'thorough':
                opts['obl_ms'] = opts['obl_ms'] * 4
                opts['bits_ms'] = opts.get('bits_ms', 120000) * 4
                opts['max_paths'] = opts.get('max_paths', 4000) * 8
                opts['cosim'] = opts.get('cosim', 12) * 4
            opts['native'] = b['native']
            opts['deadline'] = time.time() + share
            if a.v:
                print('[%s] built in %.1fs, entries %s' % (name, time.time() - tb, ents))

            def log(r):
                if a.v:
                    bad = [o for o in r['obls'] if o[1] != 'proved']
                    print('  %s %s %s d=%d st=%d t=%.1f obl=%d bad=%s cos=%s notes=%s' % (r['entry'], r['status'], r['detail'][:300], r['depth'], r['steps'], r['time'],
                          len(r['obls']), bad[:6], r['cosim'], list(r['notes'])[:4]))
                    sys.stdout.flush()
            opts['stop'] = lambda r: (not a.v) and any(not is_known(dict(v, harness=name), known) for v in r['viol'])
            results, left, lost = explore.explore(mach, ents, opts, log=log)
            enc = set(mach.encoded)
            reached = {e: {} for e in ents}
            ndone = {e: 0 for e in ents}
            for r in results:
                e = r['entry']
                agg['paths'] += 1
                agg['status'][r['status']] = agg['status'].get(r['status'], 0) + 1
                enc |= set(r['encoded'])
                for k in ('queries', 'solver_s', 'decisions', 'forks', 'unknown_feas'):
                    agg[k] += r['stats'][k]
                agg['steps'] += max(0, r['steps'])
                for lab, st, how, dt in r['obls']:
                    o = agg['obl'].setdefault(name + ':' + e + ':' + lab, {'proved': 0, 'undecided': 0, 'violated': 0, 's': 0.0, 'how': {}})
                    o[st] += 1
                    o['s'] += dt
                    o['how'][how] = o['how'].get(how, 0) + 1
                for lab in r['reached']:
                    reached[e][lab] = reached[e].get(lab, 0) + 1
                for k, v in r['notes'].items():
                    agg['notes'][k] = agg['notes'].get(k, 0) + v
                if r['cosim']:
                    key = r['cosim'].split(':')[0]
                    agg['cosim'][key] = agg['cosim'].get(key, 0) + 1
                    if key in ('mismatch', 'native-fail'):
                        agg['mismatch'].append({'entry': e, 'what': r['cosim'], 'inputs': r['sample']})
                for v in r['viol']:
                    v['harness'] = name
                    v['native_bin'] = b['native']
                    agg['viol'].append(v)
                if r['status'] in ('done', 'end'):
                    ndone[e] += 1
                if r['status'] in ('bound', 'unsupported', 'time'):
                    agg['incomplete'].append('%s: %s: %s' % (e, r['status'], r['detail'][:200]))
                if r['sample'] and sum(1 for s in agg['samples'] if s['entry'] == e) < 2:
                    agg['samples'].append({'entry': e, 'status': r['status'], 'decisions': r['depth'], 'witness': dict(list(r['sample'].items())[:12])})
                agg['inputs'].setdefault(e, {}).update({k: ([v[1], v[2]] if v[0] == 'd' else [int(v[1]), int(v[2])]) for k, v in list(r['inputs'].items())[:40]})
            names = sorted(enc)
            dem = list(zip(names, demangle(names)))
            agg['functions'] |= set(b['funcs']) | set(repo_functions(mach, dem))
            for e, n in left.items():
                agg['left'][e] = n
            agg['lost'] += [(e, w) for e, p, w in lost]
            agg['bounds'] += d['bounds']
            agg['stubs'] += d['stubs'] + ['replaced by a harness contract: ' + x for x in d['override']] + (['deleted: ' + ' '.join(d['delete'])] if d['delete'] else [])
            agg['assume'] += d['assume']
            if any(not is_known(v, known) for v in agg['viol']):
                total = time.time() - t0 + 5
            agg['harness'][name] = {'mode': d['mode'], 'entries': ents, 'sources': d['src'], 'reached': reached, 'completed_paths': ndone}
        if not agg['harness']:
            return 2
        return finish(prop, a, seed, agg, known, t0)
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)


def is_known(v, known):
    for k in known:
        if k['label'] == v['label'] and k.get('entry') in (None, v['entry']) and k.get('harness') in (None, v['harness']):
            return k
    return None


def finite(x):
    import math
    if isinstance(x, float) and not math.isfinite(x):
        return repr(x)
    if isinstance(x, dict):
        return {k: finite(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [finite(v) for v in x]
    return x


def finish(prop, a, seed, agg, known, t0):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    obl = agg['obl']
    n_pr = sum(o['proved'] for o in obl.values())
    n_un = sum(o['undecided'] for o in obl.values())
    n_vi = sum(o['violated'] for o in obl.values())
    new, old = [], []
    for v in agg['viol']:
        hit = is_known(v, known)
        (old if hit else new).append((v, hit))
    rep = None
    if new:
        rd = os.path.join(VERIF, 'evidence', 'replays')
        os.makedirs(rd, exist_ok=True)
        for i, (v, _) in enumerate(new[:8]):
            p = os.path.join(rd, '%s_%d.json' % (prop, i))
            json.dump({'property': prop, 'harness': v['harness'], 'entry': v['entry'], 'label': v['label'], 'found_by': v['how'], 'inputs': v['env'],
                       'native_output': v['native'], 'how_to_replay': 'python3-vt /verif/engine/replay.py ' + p}, open(p, 'w'), indent=1)
            rep = rep or p
    vac = []
    for hn, hd in agg['harness'].items():
        for e in hd['entries']:
            labs = [k for k in obl if k.startswith(hn + ':' + e + ':')]
            if not labs and not hd['reached'].get(e):
                vac.append(e)
    methods = {}
    for o in obl.values():
        for h, n in o['how'].items():
            h = h.split(' ')[0] if h.startswith('not reproduced') else h
            methods[h] = methods.get(h, 0) + n
    level = 'model_checking'
    ev = {
        'property': prop, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': level,
        'coverage': {
            'states': agg['paths'],
            'transitions': agg['decisions'],
            'traces_validated_against_impl': agg['cosim'].get('match', 0),
            'samples': finite(agg['samples'][:12]),
            'states_meaning': 'states = symbolic paths of the real code executed to an end (each stands for every input satisfying its path condition); transitions = branch/choice decisions taken at the exploration frontier',
            'obligations': n_pr + n_un + n_vi, 'discharged': n_pr, 'undecided': n_un, 'refuted_and_replayed': n_vi,
            'per_obligation': {k: {'proved': o['proved'], 'undecided': o['undecided'], 'violated': o['violated'], 'how': o['how'], 'seconds': round(o['s'], 2)} for k, o in sorted(obl.items())},
            'methods': methods,
            'path_status': agg['status'], 'forks': agg['forks'], 'solver_queries': agg['queries'], 'solver_seconds': round(agg['solver_s'], 2),
            'feasibility_unknown': agg['unknown_feas'], 'basic_block_back_edges_executed': agg['steps'],
            'functions_encoded': sorted(agg['functions']), 'functions_encoded_count': len(agg['functions']),
            'bounds': agg['bounds'], 'input_ranges': finite(agg['inputs']), 'stubs': agg['stubs'], 'notes': agg['notes'],
            'unexplored_prefixes': agg['left'], 'lost_paths': agg['lost'][:20], 'incomplete_paths': agg['incomplete'][:30],
            'cosimulation': agg['cosim'], 'cosimulation_disagreements': agg['mismatch'][:10],
            'harnesses': agg['harness'], 'entries_without_obligation': vac,
            'harnesses_not_built': agg['notbuilt'],
            'exhaustive': not (agg['notbuilt'] or agg['left'] or agg['lost'] or agg['incomplete'] or n_un),
        },
        'assumptions': ['IEEE rounding is outside the claim in MODE real (doubles are exact reals; every reported violation is replayed in IEEE arithmetic)',
                        'clang 18 -O1 IR of the current tree is taken as the meaning of the source'] + agg['assume'],
        'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    if a.tier in ('quick', 'thorough') and not a.entry and not a.harness and not a.noevidence:
        json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s: paths %d (%s), obligations %d proved / %d undecided / %d violated, %d queries %.1fs solver, cosim %s, functions %d, wall %.1fs' % (
        prop, agg['paths'], agg['status'], n_pr, n_un, n_vi, agg['queries'], agg['solver_s'], agg['cosim'], len(agg['functions']), time.time() - t0))
    if a.v:
        for k, o in sorted(obl.items()):
            if o['undecided'] or o['violated']:
                print('   ', k, o)
        for x in sorted(set(agg['incomplete'])):
            print('    incomplete', x)
        for x in agg['mismatch'][:8]:
            print('    cosim', x)
        print('    left', agg['left'], 'lost', agg['lost'], 'vacuous', vac, 'notes', agg['notes'])
    seen = set()
    for v, k in old:
        if k['id'] not in seen:
            seen.add(k['id'])
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    if new:
        v = new[0][0]
        print('  refuted: %s / %s (%s)' % (v['entry'], v['label'], v['how']))
        print('VIOLATION property=%s replay=%s' % (prop, rep))
        return 1
    return 0


if __name__ == '__main__':
    sys.setrecursionlimit(60000)
    import threading
    threading.stack_size(512 << 20)
    rc = [2]

    def go():
        rc[0] = main()
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0] if rc[0] is not None else 2)
