"""Builds the linked, optimised bitcode and the native replay binary of one harness from /repo's current tree."""
import concurrent.futures as cf
import glob
import hashlib
import os
import re
import shutil
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VSYM_REPO', '/repo')
HARN = os.path.join(VERIF, 'harness')

STUB_RX = [r'_ZSt7to(lower|upper)IcET_S0_RKSt6locale', 
    r'_ZNSt7__cxx11(18basic_stringstream|19basic_ostringstream|19basic_istringstream|15basic_stringbuf).*',
    r'_ZNKSt7__cxx11(18basic_stringstream|19basic_ostringstream|19basic_istringstream|15basic_stringbuf).*',
    r'_ZNSo.*', r'_ZNSi.*', r'_ZNSd.*', r'_ZNKSo.*', r'_ZStls.*', r'_ZStrs.*', r'_ZSt4endl.*', r'_ZSt5flush.*', r'_ZSt4ends.*',
    r'_ZNSt13basic_ostream.*', r'_ZNSt13basic_istream.*', r'_ZNSt14basic_[io]fstream.*', r'_ZNKSt14basic_[io]fstream.*',
    r'_ZNSt13basic_filebuf.*', r'_ZNSt15basic_streambuf.*', r'_ZNSt8ios_base.*', r'_ZNSt9basic_ios.*', r'_ZNKSt9basic_ios.*',
    r'_ZSt7getline.*', r'_ZNSt15basic_stringbuf.*', r'_ZNSt14basic_iostream.*', r'_ZSt16__ostream_.*',
    r'_ZN9__gnu_cxx12__to_xstring.*',
]

CXXFLAGS = ['-std=c++17', '-w', '-ffp-contract=off', '-fno-access-control',
            '-DSETTINGS_DIR_FROM_EXE="/nonexistent"', '-DEXT_LIB_DIR_FROM_EXE="/nonexistent"', '-DCORE_DIR_FROM_EXE="/nonexistent"']
CFLAGS = ['-w', '-ffp-contract=off']


def incs():
    return ['-I' + HARN + '/include', '-I' + REPO + '/src', '-I' + REPO + '/ExtLibraries', '-I' + HARN]


class BuildError(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    if r.returncode:
        raise BuildError(' '.join(cmd)[:400] + '\n' + r.stderr.decode('latin1')[-4000:])
    return r.stdout


def parse(hfile):
    d = {'src': [], 'mode': 'real', 'bounds': [], 'stubs': [], 'flags': [], 'opts': {}, 'delete': [], 'assume': [], 'override': []}
    for l in open(hfile):
        m = re.match(r'//\s*(SRC|MODE|BOUNDS|STUBS|FLAGS|OPT|DELETE|ASSUME|OVERRIDE):\s*(.*)', l)
        if not m:
            continue
        k, v = m.group(1).lower(), m.group(2).strip()
        if k == 'src':
            d['src'] += v.split()
        elif k == 'flags':
            d['flags'] += v.split()
        elif k == 'mode':
            d['mode'] = v
        elif k == 'opt':
            for x in v.split():
                a, b = x.split('=')
                d['opts'][a] = int(b) if re.match(r'^-?\d+$', b) else b
        elif k == 'delete':
            d['delete'] += v.split()
        else:
            d[k].append(v)
    return d


def src_path(s):
    if s.startswith('@'):
        return os.path.join(HARN, s[1:])
    return os.path.join(REPO, s)


_index = None


def repo_sources():
    global _index
    if _index is None:
        _index = {}
        for root, _, fs in os.walk(os.path.join(REPO, 'src')):
            for f in sorted(fs):
                if (f.endswith('.cpp') or f.endswith('.c')) and not f.startswith('test_'):
                    p = os.path.join(root, f)
                    try:
                        _index[p] = open(p, errors='replace').read()
                    except OSError:
                        pass
        _index = dict(sorted(_index.items()))
    return _index


def find_source(sym, have):
    """source file that seems to define the demangled symbol"""
    base = sym.split('(')[0].strip()
    base = re.sub(r'<[^<>]*>', '', base)
    base = re.sub(r'<[^<>]*>', '', base)
    if base.startswith(('vtable for ', 'typeinfo for ', 'VTT for ', 'non-virtual thunk to ')):
        cls = base.split(' ')[-1].split('::')[-1]
        pats = [r'\b%s::~?%s\s*\(' % (cls, cls), r'\b%s::\w+\s*\(' % cls]
    else:
        parts = base.split(' ')[-1].split('::')
        name = re.escape(parts[-1].split('[')[0])
        if len(parts) > 1:
            cls = parts[-2]
            pats = [r'(?m)^(?!return\b)(?:[A-Za-z_][^\n;=(]*[\s&*])?(?:\w+::)*%s::%s\s*\([^;{]*[){]' % (cls, name), r'\b%s::%s\s*\(' % (cls, name)]
            if cls in ('s2e',) or cls.islower():
                pats.insert(0, r'(?m)^(?!return\b|if\b|while\b|for\b)[A-Za-z_][^\n;=({]*[\s&*]%s\s*\([^;{]*\)[^;{]*\{' % name)
            if cls in ('s2e',) or cls.islower():
                pats.append(r'(?m)^[\w:<>&\*\s,]*\b%s\s*\([^;{]*\)[^;{]*\{' % name)
        else:
            pats = [r'(?m)^[\w:<>&\*\s,]*\b%s\s*\([^;{]*\)[^;{]*\{' % name]
    for p in pats:
        rx = re.compile(p)
        for f, t in repo_sources().items():
            if f not in have and rx.search(t):
                return f
    return None


def build(hfile, outdir, native=True, log=None, override=None):
    d = parse(hfile)
    if override and not d['override']:
        d['override'] = [override]
    os.makedirs(outdir, exist_ok=True)
    srcs = []
    for s in d['src']:
        if '*' in s:
            srcs += sorted(glob.glob(src_path(s)))
        else:
            srcs.append(src_path(s))
    units = [hfile] + srcs
    bcof, objof = {}, {}

    def one(u, i):
        c = u.endswith('.c')
        flags = (CFLAGS if c else CXXFLAGS) + incs() + d['flags']
        bc = os.path.join(outdir, 'u%d.bc' % i)
        run(['clang' if c else 'clang++', '-O1', '-Xclang', '-disable-llvm-passes', '-emit-llvm', '-c', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-DVSYM',
             '-fno-math-errno'] + flags + ['-o', bc, u])
        return bc

    def two(u, i):
        c = u.endswith('.c')
        flags = (CFLAGS if c else CXXFLAGS) + incs() + d['flags']
        o = os.path.join(outdir, 'u%d.o' % i)
        run(['clang' if c else 'clang++', '-O0' if d['override'] else '-O1', '-g1', '-fsanitize=address', '-fPIE', '-c'] + flags + ['-o', o, u])
        return o

    names = []
    for l in open(hfile):
        m = re.match(r'^(CHECK|THOROUGH)\((\w+)\)', l)
        if m:
            names.append(('chk_' if m.group(1) == 'CHECK' else 'thr_') + m.group(2))
    keep = ','.join(names)
    link = os.path.join(outdir, 'all.bc')
    cut = os.path.join(outdir, 'cut.bc')
    pre = os.path.join(outdir, 'pre.bc')
    opt = os.path.join(outdir, 'opt.bc')
    nid = 0
    ovr = None
    with cf.ThreadPoolExecutor(8) as ex:
        todo = units + [HARN + '/support.cpp']
        fo = {}
        if native:
            nid += 1
            fo[HARN + '/sym_native.cpp'] = ex.submit(two, HARN + '/sym_native.cpp', 9000)
        order = []
        for rnd in range(12):
            fb = {}
            for u in todo:
                nid += 1
                fb[u] = ex.submit(one, u, nid)
                order.append(u)
            if native:
                for u in todo:
                    if not u.endswith('/support.cpp'):
                        nid += 1
                        fo[u] = ex.submit(two, u, nid)
            for u, f in fb.items():
                bcof[u] = f.result()
            if d['override']:  # functions defined by the harness replace the repository's
                if ovr is None:
                    ovr = {l.split()[-1] for l in run(['llvm-nm', '--defined-only', bcof[hfile]]).decode().split('\n') if ' T ' in l}
                for u in todo:
                    if u != hfile:
                        hit = ovr & {l.split()[-1] for l in run(['llvm-nm', '--defined-only', bcof[u]]).decode().split('\n') if ' T ' in l}
                        if hit:
                            ll = run(['llvm-dis', '-o', '-', bcof[u]]).decode('latin1').split('\n')
                            rx = re.compile(r'^define (?=.*@"?(?:%s)"?\()' % '|'.join(re.escape(n) for n in sorted(hit)))
                            vt = re.compile(r'^(@_ZT[VIS]\w+ = )(?=(?:dso_local |local_unnamed_addr |unnamed_addr )*constant)')
                            al = re.compile(r'^(@"?(?:%s)"? = )(?=.*\balias\b)' % '|'.join(re.escape(n) for n in sorted(hit)))
                            run(['llvm-as', '-o', bcof[u] + 'x', '-'], input='\n'.join(vt.sub(r'\1weak ', al.sub(r'\1weak ', rx.sub('define weak ', l))) for l in ll).encode('latin1'))
                            bcof[u] += 'x'
                run(['llvm-link', '-o', link] + [bcof[u] for u in order])
            else:
                run(['llvm-link', '-o', link] + [bcof[u] for u in order])
            nm = run(['llvm-nm', '-j', link]).decode().split()
            rx = [r for r in STUB_RX + d['delete'] if any(re.match('^' + r + '$', n) for n in nm)]
            if rx:
                run(['llvm-extract', '-delete'] + ['-rfunc=^%s$' % r for r in rx] + ['-o', cut, link])
            else:
                shutil.copy(link, cut)
            run(['opt', '-passes=internalize,globaldce', '-internalize-public-api-list=' + keep, '-o', pre, cut])
            und = run(['llvm-nm', '--undefined-only', '-j', pre]).decode().split()
            und = [u for u in und if not any(re.match('^' + r + '$', u) for r in d['delete'])]
            und = [u for u in und if '3s2e' in u or (not u.startswith(('_Z', 'llvm.', 'sym_', '__')) and u in ('igrf', ))  or re.match(r'^_Z\d', u)]
            und = [u for u in und if not u.startswith(('_ZSt', '_ZNSt', '_ZNKSt'))]
            dm = run(['c++filt'], input='\n'.join(und).encode()).decode().split('\n') if und else []
            todo = []
            have = set(order)
            for s in dm:
                if not s:
                    continue
                f = find_source(s, have)
                if f and f not in have:
                    have.add(f)
                    todo.append(f)
            if not todo:
                break
        unresolved = [s for s in dm if s]
        run(['opt', '-passes=default<O1>', '-vectorize-loops=false', '-vectorize-slp=false', '-unroll-threshold=0', '-o', opt, pre])
        nb = None
        if native:
            os_ = [fo[hfile].result()] + [f.result() for u, f in fo.items() if u != hfile]
            nb = os.path.join(outdir, 'native')
            run(['clang++', '-fsanitize=address', '-rdynamic', '-pie', '-Wl,--unresolved-symbols=ignore-all'] + (['-Wl,--allow-multiple-definition'] if d['override'] else []) + ['-o', nb] + os_ + ['-ldl', '-lm'])
    fl = run(['llvm-nm', '--defined-only', '-C', pre]).decode().split('\n')
    fl = [l[19:] for l in fl if len(l) > 19 and l[17] in 'tTwW']
    funcs = sorted({f for f in fl if f.startswith('s2e::') or '::' not in f.split('(')[0] and '(' in f})
    return {'funcs': funcs, 'bc': opt, 'native': nb, 'entries': names, 'desc': d, 'units': order, 'unresolved': unresolved}
