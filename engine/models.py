"""Models of the C/C++ runtime and of the harness API."""
import math
import re
import struct
import z3
import reals as RL
from reals import R, B, Unsupported
import interp as I
from interp import PathEnd, MemError, Bound, CxxThrow, UNDEF, sx, PAD, M32

M = None
TABLE = {}
PATTERNS = []

STD_EXC = {
    '_ZTISt9exception': None,
    '_ZTISt11logic_error': '_ZTISt9exception', '_ZTISt13runtime_error': '_ZTISt9exception',
    '_ZTISt16invalid_argument': '_ZTISt11logic_error', '_ZTISt12out_of_range': '_ZTISt11logic_error',
    '_ZTISt12length_error': '_ZTISt11logic_error', '_ZTISt12domain_error': '_ZTISt11logic_error',
    '_ZTISt11range_error': '_ZTISt13runtime_error', '_ZTISt14overflow_error': '_ZTISt13runtime_error',
    '_ZTISt15underflow_error': '_ZTISt13runtime_error', '_ZTISt9bad_alloc': '_ZTISt9exception',
    '_ZTISt20bad_array_new_length': '_ZTISt9bad_alloc', '_ZTISt8bad_cast': '_ZTISt9exception',
    '_ZTISt17bad_function_call': '_ZTISt9exception',
}


def install(m):
    global M
    M = m
    import ops
    for n in ('sin', 'cos', 'tan', 'acos', 'asin', 'atan', 'exp', 'log', 'log10', 'log2', 'sinh', 'cosh', 'tanh', 'erf',
              'erfc', 'cbrt', 'lgamma', 'tgamma', 'log1p', 'expm1', 'sqrt', 'floor', 'ceil', 'trunc', 'round', 'rint', 'nearbyint',
              'fabs', 'atan2', 'pow', 'hypot', 'fmod', 'copysign'):
        f = ops.ENV.get('X_' + n)
        if f:
            TABLE[n] = f
    TABLE['fmax'] = lambda a, b: ops.ENV['X_maxnum'](a, b, 64)
    TABLE['fmin'] = lambda a, b: ops.ENV['X_minnum'](a, b, 64)
    TABLE['fma'] = lambda a, b, c: ops.ENV['X_fma'](a, b, c, 64)
    TABLE['modf'] = _modf
    TABLE['sincos'] = _sincos
    TABLE['sqrtf'] = lambda v: ops.ENV['X_sqrt'](v, 32)
    for n in ('lround', 'llround'):
        TABLE[n] = lambda v: ops.ENV['cast_fptosi'](ops.ENV['X_round'](v, 64), 64, 64)


def lookup(name):
    f = TABLE.get(name)
    if f:
        return f
    for rx, g in PATTERNS:
        if rx.match(name):
            return g
    if name in STD_DTOR or STD_EXC_CTOR.match(name):
        return lambda *a: a[0] if a else None
    return None


def model(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


def pattern(rx):
    def d(f):
        PATTERNS.append((re.compile(rx), f))
        return f
    return d


STD_EXC_CTOR = re.compile(r'^_ZNSt(16invalid_argument|11logic_error|13runtime_error|12out_of_range|12length_error|12domain_error|11range_error|9exception|14overflow_error|15underflow_error|8ios_base4Init)[CD]\d')
STD_DTOR = {'_ZNSt16invalid_argumentD1Ev'}


def _modf(v, p):
    import ops
    ip = ops.ENV['X_trunc'](v, 64)
    M.store(p, 8, ip)
    return ops.ENV['F_fsub'](v, ip, 64)


def _sincos(v, ps, pc):
    import ops
    M.store(ps, 8, ops.ENV['X_sin'](v))
    M.store(pc, 8, ops.ENV['X_cos'](v))


# ------------------------------------------------------------------ allocation
@model('_Znwm', '_Znam', 'malloc')
def op_new(n, *a):
    if type(n) is not int:
        n = M.E.concretize(n, 64, 'allocation size')
    if n > 1 << 30:
        raise MemError('allocation of %d bytes' % n)
    return M.alloc(n, 'heap', 'heap')


@model('_ZnwmSt11align_val_t', '_ZnamSt11align_val_t', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t')
def op_new_al(n, a):
    return op_new(n)


@model('calloc')
def calloc(n, s):
    p = op_new(n * s)
    M.objs[p >> 32].base = 0
    return p


@model('realloc')
def realloc(p, n):
    q = op_new(n)
    if p:
        o, off = M.deref(p, 0, 'realloc')
        M.memcpy(q, p, min(n, o.size))
        free(p)
    return q


@model('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'free', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t', '_ZdlPvRKSt9nothrow_t')
def free(p, *a):
    if type(p) is not int:
        p = M.E.concretize(p, 64, 'free')
    if p == 0:
        return
    o = M.getobj(p >> 32)
    if o is None or o.kind != 'heap' or (p & M32) != PAD:
        raise MemError('free of a pointer that is not a live heap block')
    if o.freed:
        raise MemError('double free')
    M.objs[p >> 32] = f = I.Obj(o.size, o.name, o.kind)
    f.freed = True


# ------------------------------------------------------------------ libc
@model('memcpy', 'memmove', '__memcpy_chk', '__memmove_chk')
def c_memcpy(d, s, n, *a):
    M.memcpy(d, s, n)
    return d


@model('memset', '__memset_chk')
def c_memset(d, c, n, *a):
    M.memset(d, c, n)
    return d


def _cmp_bytes(a, b, n, stop0=False):
    import ops
    for i in range(n):
        x = M.load(a + i, 1, 'i')
        y = M.load(b + i, 1, 'i')
        ne = ops.icmp('ne', x, y, 8)
        if (ne if type(ne) is int else M.E.decide(ne)):
            lt = ops.icmp('ult', x, y, 8)
            return 0xffffffff if (lt if type(lt) is int else M.E.decide(lt)) else 1
        if stop0:
            z = ops.icmp('eq', x, 0, 8)
            if (z if type(z) is int else M.E.decide(z)):
                return 0
    return 0


@model('memcmp', 'bcmp')
def c_memcmp(a, b, n):
    if type(n) is not int:
        n = M.E.concretize(n, 64, 'memcmp')
    return _cmp_bytes(a, b, n)


@model('strlen')
def c_strlen(s):
    return len(M.cstr(s))


@model('strcmp')
def c_strcmp(a, b):
    x, y = M.cstr(a), M.cstr(b)
    return 0 if x == y else (0xffffffff if x < y else 1)


@model('strncmp')
def c_strncmp(a, b, n):
    return _cmp_bytes(a, b, n, True)


@model('memchr')
def c_memchr(s, c, n):
    b = M.rd_bytes(s, n)
    i = b.find(bytes([c & 255]))
    return 0 if i < 0 else s + i


@model('strchr')
def c_strchr(s, c):
    b = M.cstr(s) + b'\0'
    i = b.find(bytes([c & 255]))
    return 0 if i < 0 else s + i


@model('strstr')
def c_strstr(s, t):
    i = M.cstr(s).find(M.cstr(t))
    return 0 if i < 0 else s + i


@model('strcpy')
def c_strcpy(d, s):
    M.wr_bytes(d, M.cstr(s) + b'\0')
    return d


@model('strcat')
def c_strcat(d, s):
    M.wr_bytes(d + len(M.cstr(d)), M.cstr(s) + b'\0')
    return d


@model('strncpy')
def c_strncpy(d, s, n):
    b = M.cstr(s)[:n]
    M.wr_bytes(d, b + b'\0' * (n - len(b)))
    return d


TOK = re.compile('\\s*(?:\x02([di])(\\d+)\x03|([\xa1-\xff]))')


def tok_value(m, dbl):
    k, v = M.E.texts[int(m.group(2))] if m.group(3) is None else M.E.short_texts[ord(m.group(3)) - 0xa1]
    if dbl and k == 'i':
        from ops import cast_sitofp
        return cast_sitofp(v, 64, 64)
    if k != ('d' if dbl else 'i'):
        raise Unsupported('a symbolic number in text read as another type')
    return v


@model('strtod', 'atof')
def c_strtod(s, e=0):
    t = M.cstr(s).decode('latin1')
    m = TOK.match(t)
    if m:
        if e:
            M.store(e, 8, s + m.end())
        return tok_value(m, True)
    m = re.match(r'\s*[-+]?(\d+\.?\d*([eE][-+]?\d+)?|\.\d+([eE][-+]?\d+)?|inf|nan)', t)
    if e:
        M.store(e, 8, s + (m.end() if m else 0))
    return float(m.group(0)) if m else 0.0


@model('strtol', 'strtoll', 'strtoul', 'strtoull', '__isoc23_strtol', '__isoc23_strtoul', '__isoc23_strtoll')
def c_strtol(s, e, base):
    t = M.cstr(s).decode('latin1')
    m = TOK.match(t)
    if m:
        if e:
            M.store(e, 8, s + m.end())
        return tok_value(m, False)
    m = re.match(r'\s*[-+]?0[xX][0-9a-fA-F]+', t) if base in (0, 16) else None
    if m:
        b = 16
    else:
        b = base or (8 if re.match(r'\s*[-+]?0[0-7]', t) else 10)
        m = re.match(r'\s*[-+]?' + {8: '[0-7]+', 10: r'\d+', 16: '[0-9a-fA-F]+'}[b], t)
    if e:
        M.store(e, 8, s + (m.end() if m else 0))
    return (int(m.group(0), b) if m else 0) & ((1 << 64) - 1)


@model('strtof')
def c_strtof(s, e=0):
    from ops import cast_fptrunc
    return cast_fptrunc(c_strtod(s, e), 64, 32)


@model('sscanf', '__isoc23_sscanf', '__isoc99_sscanf')
def c_sscanf(s, fmt, *args):
    t, f = M.cstr(s).decode('latin1'), M.cstr(fmt).decode('latin1')
    i = j = n = 0
    args = list(args)
    while j < len(f):
        c = f[j]
        if c.isspace():
            j += 1
            while i < len(t) and t[i].isspace():
                i += 1
            continue
        if c != '%':
            if i >= len(t) or t[i] != c:
                break
            i += 1
            j += 1
            continue
        m = re.match(r'%(\*?)(\d*)(hh|h|ll|l|z|j|t|L)?([diuxXfgeEscn%])', f[j:])
        if not m:
            raise Unsupported('sscanf format ' + f)
        j += m.end()
        star, width, ln, conv = m.groups()
        if conv == 'n':
            M.store(args.pop(0), {'hh': 1, 'h': 2, None: 4}.get(ln, 8), i)
            continue
        if conv not in 'c%':
            while i < len(t) and t[i].isspace():
                i += 1
        w = t[i:i + int(width)] if width else t[i:]
        pat = {'d': r'[-+]?\d+', 'u': r'[-+]?\d+', 'i': r'[-+]?(0[xX][0-9a-fA-F]+|\d+)', 'x': r'[-+]?(0[xX])?[0-9a-fA-F]+', 'X': r'[-+]?(0[xX])?[0-9a-fA-F]+',
               's': r'\S+', 'c': r'(?s).', '%': '%'}.get(conv, r'[-+]?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?')
        tk = TOK.match(t[i:]) if conv in 'diufge' else None
        if tk:
            i += tk.end()
            if star:
                continue
            n += 1
            v = tok_value(tk, conv in 'fge')
            size = {'hh': 1, 'h': 2, None: 4}.get(ln, 8)
            if conv not in 'fge' and size != 8:
                from ops import cast_trunc
                v = cast_trunc(v, 64, 8 * size)
            M.store(args.pop(0), size, v)
            continue
        mm = re.match(pat, w)
        if not mm:
            return n if (n or i < len(t)) else (1 << 32) - 1
        i += mm.end()
        if star or conv == '%':
            continue
        a, v = args.pop(0), mm.group(0)
        n += 1
        if conv in 'di u'.replace(' ', '') or conv in 'xX':
            base = 16 if conv in 'xX' else 8 if conv == 'i' and re.match(r'[-+]?0\d', v) else 16 if 'x' in v.lower() else 10
            size = {'hh': 1, 'h': 2, None: 4}.get(ln, 8)
            M.store(a, size, int(v, base) & ((1 << (8 * size)) - 1))
        elif conv == 's':
            M.wr_bytes(a, v.encode('latin1') + b'\0')
        elif conv == 'c':
            M.wr_bytes(a, v.encode('latin1'))
        else:
            if ln == 'L':
                raise Unsupported('sscanf %L')
            if ln == 'l':
                M.store(a, 8, float(v))
            else:
                M.store(a, 4, float(v))
    return n


@model('atoi')
def c_atoi(s):
    return c_strtol(s, 0, 10) & 0xffffffff


@model('__errno_location')
def c_errno():
    p = M.E.errno
    if p is None:
        p = M.E.errno = M.alloc(4, 'errno', 'heap', 0)
    return p


@model('abs')
def c_abs(v):
    import ops
    return ops.ENV['X_abs'](v, 0, 32)


for _c, _fn in (('isdigit', lambda c: chr(c).isdigit()), ('isspace', lambda c: chr(c) in ' \t\n\r\v\f'), ('isalpha', lambda c: chr(c).isalpha() and c < 128),
                ('isalnum', lambda c: chr(c).isalnum() and c < 128)):
    TABLE[_c] = (lambda g: lambda c: int(g(c & 255)))(_fn)
TABLE['tolower'] = lambda c: ord(chr(c & 255).lower()) if c < 128 else c
TABLE['toupper'] = lambda c: ord(chr(c & 255).upper()) if c < 128 else c


@pattern(r'^_ZSt7tolowerIcET_S0_RKSt6locale')
def loc_tolower(c, loc):
    return TABLE['tolower'](c)


@pattern(r'^_ZSt7toupperIcET_S0_RKSt6locale')
def loc_toupper(c, loc):
    return TABLE['toupper'](c)


@model('_ZNSt6localeC1ERKS_', '_ZNSt6localeC1Ev', '_ZNSt6localeD1Ev', '_ZNSt6localeaSERKS_')
def loc_nop(this, *a):
    return this


@model('_ZNSt6locale7classicEv')
def loc_classic():
    return M.alloc(16)


@model('printf', 'puts', 'putchar', 'fprintf', 'fputs', 'fflush', 'perror', 'vprintf', 'fwrite', 'fputc')
def c_print(*a):
    return 0


def c_format(f, args):
    from ops import cast_sext, cast_zext
    args, out, i = list(args), b'', 0
    while i < len(f):
        if f[i] != '%':
            out += f[i].encode('latin1')
            i += 1
            continue
        m = re.match(r'%([-+ 0#]*)(\d*)(?:\.(\d+))?(hh|h|ll|l|z|j|t)?([diuxXfFgGeEsc%])', f[i:])
        if not m:
            raise Unsupported('printf format ' + f)
        i += m.end()
        ln, conv = m.group(4), m.group(5)
        if conv == '%':
            out += b'%'
            continue
        v = args.pop(0)
        spec = '%' + m.group(1) + m.group(2) + ('.' + m.group(3) if m.group(3) is not None else '') + {'i': 'd', 'u': 'd'}.get(conv, conv)
        if conv == 's':
            out += (spec % M.cstr(v).decode('latin1')).encode('latin1')
        elif conv in 'diuxXc':
            w = 64 if ln in ('l', 'll', 'z', 'j', 't') else 32
            if type(v) is int:
                out += (spec % (sx(v & ((1 << w) - 1), w) if conv in 'di' else v & ((1 << w) - 1) if conv != 'c' else v & 255)).encode('latin1')
            elif conv in 'di':
                out += token('i', v if w == 64 else cast_sext(v, w, 64))
            elif conv == 'u':
                out += token('i', v if w == 64 else cast_zext(v, w, 64))
            else:
                raise Unsupported('printf of a symbolic number with ' + conv)
        else:
            out += (spec % v).encode() if type(v) is float else token('d', v)
    return out


@model('snprintf')
def c_snprintf(d, n, fmt, *args):
    b = c_format(M.cstr(fmt).decode('latin1'), args)
    if len(b) >= n and 2 in b:
        raise Unsupported('cut text with symbolic numbers')
    if n:
        M.wr_bytes(d, b[:n - 1] + b'\0')
    return len(b)


@model('sprintf')
def c_sprintf(d, fmt, *args):
    b = c_format(M.cstr(fmt).decode('latin1'), args)
    M.wr_bytes(d, b + b'\0')
    return len(b)


@model('getenv')
def c_null(*a):
    return 0


@model('fopen', 'fopen64')
def c_fopen(name, mode):
    t = M.E.files.get(bytes(M.cstr(name)))
    if t is None or M.cstr(mode)[:1] != b'r':
        return 0
    h = M.alloc(8, 'file', 'heap')
    M.E.cfiles[h] = [t, 0]
    return h


@model('fgets')
def c_fgets(d, n, h):
    f, n = M.E.cfiles[h], n & 0xffffffff
    t, i = f
    if i >= len(t):
        return 0
    e = t.find(b'\n', i)
    e = len(t) if e < 0 else e + 1
    e = min(e, i + n - 1)
    M.wr_bytes(d, t[i:e] + b'\0')
    f[1] = e
    return d


@model('feof')
def c_feof(h):
    t, i = M.E.cfiles[h]
    return int(i >= len(t))


@model('fclose')
def c_fclose(h):
    M.E.cfiles.pop(h, None)
    return 0


@model('exit', '_exit', '_Exit')
def c_exit(c):
    if getattr(M.E, 'exit_ok', False):
        raise PathEnd('end')
    raise PathEnd('exit', c)


@model('abort', '_ZSt9terminatev', '__clang_call_terminate')
def c_abort(*a):
    raise PathEnd('abort', 134)


@model('__assert_fail')
def c_assert(e, *a):
    raise PathEnd('assert-failed', 134)


@model('_ZNSt6chrono3_V212system_clock3nowEv', '_ZNSt6chrono3_V212steady_clock3nowEv')
def chrono_now():
    M.E.ticks += 1000000
    return M.E.ticks


@model('time')
def c_time(p=0):
    return 1700000000


@model('usleep', 'nanosleep', 'clock_nanosleep')
def c_sleep(*a):
    return 0


# ------------------------------------------------------------------ C++ ABI
@model('__cxa_guard_acquire')
def guard_acquire(g):
    return 0 if M.load(g, 1, 'i') else 1


@model('__cxa_guard_release', '__cxa_guard_abort')
def guard_release(g):
    M.store(g, 1, 1)


@model('__cxa_atexit', '__cxa_thread_atexit')
def cxa_atexit(*a):
    return 0


@model('__cxa_allocate_exception')
def cxa_alloc(n):
    return M.alloc(n, 'exception', 'heap', 0)


@model('__cxa_free_exception')
def cxa_free(p):
    return None


@model('__cxa_throw')
def cxa_throw(p, ti, d):
    M.E.exc_types[p] = ti
    raise CxxThrow(p, ti)


@model('__cxa_begin_catch', '__cxa_get_exception_ptr')
def cxa_begin(p):
    M.E.caught.append(p)
    return p


@model('__cxa_end_catch')
def cxa_end():
    if M.E.caught:
        M.E.caught.pop()


@model('__cxa_rethrow')
def cxa_rethrow():
    p = M.E.caught[-1]
    raise CxxThrow(p, M.E.exc_types.get(p))


@model('__cxa_pure_virtual')
def cxa_pure():
    raise PathEnd('pure virtual call', 134)


@model('__cxa_throw_bad_array_new_length', '__cxa_bad_cast')
def cxa_bad():
    throw_std('_ZTISt9exception')


def throw_std(ti):
    p = M.alloc(32, 'exception', 'heap', 0)
    a = M.addr_of.get(ti, ti)
    M.E.exc_types[p] = a
    raise CxxThrow(p, a)


@pattern(r'^_ZSt\d+__throw_')
def std_throw(*a):
    throw_std('_ZTISt9exception')


for _n, _t in (('out_of_range', '_ZTISt12out_of_range'), ('logic_error', '_ZTISt11logic_error'), ('length_error', '_ZTISt12length_error'),
               ('invalid_argument', '_ZTISt16invalid_argument'), ('bad_alloc', '_ZTISt9bad_alloc'), ('out_of_range_fmt', '_ZTISt12out_of_range')):
    PATTERNS.insert(0, (re.compile(r'^_ZSt\d+__throw_%s(P|v|$)' % _n), (lambda t: lambda *a: throw_std(t))(_t)))


def ti_name(a):
    if type(a) is str:
        return a
    return M.obj_name.get(a >> 32) if type(a) is int else None


def ti_bases(a):
    """[(base typeinfo, offset)]"""
    n = ti_name(a)
    if n in STD_EXC:
        b = STD_EXC[n]
        return [(M.addr_of.get(b, b), 0)] if b else []
    if type(a) is not int:
        return []
    o = M.getobj(a >> 32)
    if o is None or o.kind == 'extern':
        return []
    vt = M.load(a, 8, 'p')
    vn = M.obj_name.get(vt >> 32, '')
    if '__si_class_type_info' in vn:
        return [(M.load(a + 16, 8, 'p'), 0)]
    if '__vmi_class_type_info' in vn:
        k = M.load(a + 20, 4, 'i')
        r = []
        for i in range(k):
            bt = M.load(a + 24 + 16 * i, 8, 'p')
            fl = sx(M.load(a + 32 + 16 * i, 8, 'i'), 64)
            r.append((bt, fl >> 8))
        return r
    return []


def type_matches(t, c):
    if t is None:
        return False
    seen = [t]
    cn = ti_name(c)
    while seen:
        x = seen.pop()
        if x == c or (ti_name(x) is not None and ti_name(x) == cn):
            return True
        seen.extend(b for b, _ in ti_bases(x))
    return False


@model('__dynamic_cast')
def dynamic_cast(p, src, dst, hint):
    if p == 0:
        return 0
    vt = M.load(p, 8, 'p')
    ti = M.load(vt - 8, 8, 'p')
    top = sx(M.load(vt - 16, 8, 'i'), 64)
    todo = [(ti, p + top)]
    while todo:
        t, a = todo.pop()
        if t == dst:
            return a
        todo.extend((b, a + o) for b, o in ti_bases(t))
    return 0


# ------------------------------------------------------------------ streams
def _sobj(a):
    return M.E.streams.get(a >> 32)


def new_stream(this, bs=b''):
    i = this >> 32
    M.E.streams[i] = bytearray(bs)
    M.E.stream_prec[i] = 6
    M.E.stream_pos[i] = [0, 0]
    if M.E.stream_vt is None:
        M.E.stream_vt = M.alloc(64, 'stream vtable')
        M.memset(M.E.stream_vt, 0, 64)
    o, off = M.deref(this, 8, 'write')
    M.store(this, 8, M.E.stream_vt + 48)
    if o.size - off >= 24:
        M.store(this + 16, 8, M.E.stream_vt + 48)


@pattern(r'^_ZNSt7__cxx11(18basic_stringstream|19basic_ostringstream|19basic_istringstream)I\w+EC[12]')
def ss_ctor(this, a=0, *r):
    new_stream(this, M.rd_string(a) if type(a) is int and a >> 32 else b'')


@pattern(r'^_ZNSt7__cxx11(18basic_stringstream|19basic_ostringstream|19basic_istringstream)I\w+E3strERK')
def ss_setstr(this, a):
    i = this >> 32
    M.E.streams[i] = bytearray(M.rd_string(a))
    M.E.stream_pos[i][0] = 0


@pattern(r'^_ZNSt7__cxx11(18basic_stringstream|19basic_ostringstream|19basic_istringstream)I\w+ED[012]')
def ss_dtor(this, *a):
    M.E.streams.pop(this >> 32, None)


@pattern(r'^_ZNO?KR?St7__cxx11(18basic_stringstream|19basic_ostringstream|19basic_istringstream)I\w+E3strEv')
@pattern(r'^_ZNKSt7__cxx11(18basic_stringstream|19basic_ostringstream|19basic_istringstream)I\w+E3strEv')
def ss_str(sret, this):
    M.mk_string(sret, bytes(M.E.streams.get(this >> 32, b'')))


def _put(os, bs):
    s = _sobj(os)
    if s is not None:
        s.extend(bs)
    return os


def fmt_num(v, prec=6):
    if type(v) is float:
        return ('%.*g' % (prec, v)).encode()
    if type(v) is int:
        return str(v).encode()
    return token('d', v)


def token(k, v):
    M.E.texts.append((k, v))
    return b'\x02' + k.encode() + str(len(M.E.texts) - 1).encode() + b'\x03'


@pattern(r'^_ZNSo9_M_insertI[de]ERSoT_')
@pattern(r'^_ZNSo9_M_insertI[de]EERSoT_')
def os_double(os, v):
    return _put(os, fmt_num(v, M.E.stream_prec.get(os >> 32, 6)))


TABLE['_ZNSolsEd'] = os_double
TABLE['_ZNSolsEf'] = os_double


def os_sym(w, signed):
    from ops import cast_sext, cast_zext

    def f(os, v):
        if type(v) is int:
            return (os_int if signed else os_uint)(os, v)
        try:
            return _put(os, token('i', v if w == 64 else (cast_sext if signed else cast_zext)(v, w, 64)))
        except Unsupported:
            return _put(os, b'#')
    return f


@model('_ZNSolsEi', '_ZNSolsEl', '_ZNSolsEx', '_ZNSolsEs')
def os_int(os, v):
    if type(v) is int:
        return _put(os, str(sx(v, 64) if v >> 63 else sx(v, 32) if v < (1 << 32) and v >> 31 else v).encode())
    return _put(os, b'#')


@pattern(r'^_ZNSo9_M_insertI[blmxy]EERSoT_')
@model('_ZNSolsEj', '_ZNSolsEm', '_ZNSolsEy', '_ZNSolsEt', '_ZNSolsEb')
def os_uint(os, v):
    return _put(os, str(v).encode() if type(v) is int else b'#')


for _c, _w, _s in (('i', 32, 1), ('l', 64, 1), ('x', 64, 1), ('j', 32, 0), ('m', 64, 0), ('y', 64, 0)):
    TABLE['_ZNSolsE' + _c] = os_sym(_w, _s)


@model('_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc')
def os_cstr(os, s):
    return _put(os, M.cstr(s))


@model('_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c', '_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_h')
def os_char(os, c):
    return _put(os, bytes([c & 255]) if type(c) is int else b'#')


@pattern(r'^_ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostream.*basic_string')
def os_str(os, s):
    if _sobj(os) is not None:
        _put(os, M.rd_string(s))
    return os


@pattern(r'^_ZStlsIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_St13_Setprecision')
def os_prec(os, p):
    M.E.stream_prec[os >> 32] = p & 0xffffffff
    return os


@pattern(r'^(_ZNSo|_ZStls|_ZNSt13basic_ostreamI|_ZSt4endl|_ZSt5flush|_ZSt16__ostream_insert)')
def os_noop(os, *a):
    if a and type(a[0]) is int and M.obj_name.get(a[0] >> 32, '').startswith('_ZSt4endl'):
        _put(os, b'\n')
    return os


@pattern(r'^(_ZNSt8ios_base|_ZNSt9basic_iosI|_ZNKSt9basic_iosI|_ZNKSt8ios_base|_ZSt(5fixed|10scientific|4left|5right|3hex|3dec|7setfill|4setw))')
def ios_noop(*a):
    return a[0] if a else 0


# ------------------------------------------------------------------ std::filesystem::path: the text only, components are not split
@pattern(r'^_ZNSt10filesystem7__cxx114path5_ListC[12](Ev|ERKS2_)$')
def path_list(this, *a):
    M.memset(this, 0, 8)


@pattern(r'^_ZNSt10filesystem7__cxx114path14_M_split_cmptsEv$|^_ZNKSt10filesystem7__cxx114path5_List13_Impl_deleterclEPNS2_5_ImplE$')
def path_noop(*a):
    return None


def file_text(p):
    return M.E.files.get(p)


def f_open(this, name):
    t = file_text(name)
    i = this >> 32
    M.E.streams[i] = bytearray(t or b'')
    M.E.stream_pos[i] = [0, 0 if t is not None else 4]
    M.E.open_files[i] = t is not None


@pattern(r'^_ZNSt14basic_ifstreamIcSt11char_traitsIcEE(C[12]E|4openE)RKNSt7__cxx1112basic_string')
def if_open_s(this, a, *r):
    if (this >> 32) not in M.E.streams:
        new_stream(this)
    f_open(this, M.rd_string(a))


@pattern(r'^_ZNSt14basic_ifstreamIcSt11char_traitsIcEE(C[12]E|4openE)PKc')
def if_open_c(this, a, *r):
    if (this >> 32) not in M.E.streams:
        new_stream(this)
    f_open(this, M.cstr(a))


@pattern(r'^_ZNSt14basic_ifstreamIcSt11char_traitsIcEE(C[12]I|4openI)NSt10filesystem7__cxx114pathE')
def if_open_p(this, a, *r):
    if (this >> 32) not in M.E.streams:
        new_stream(this)
    f_open(this, M.rd_string(a))


@pattern(r'^_ZNSt14basic_ifstreamIcSt11char_traitsIcEEC[12]Ev$')
def if_ctor(this, *r):
    new_stream(this)


@pattern(r'^_ZNSt14basic_ifstreamIcSt11char_traitsIcEED[012]Ev$')
@pattern(r'^_ZNSt14basic_ifstreamIcSt11char_traitsIcEE5closeEv$')
def if_close(this, *r):
    M.E.open_files[this >> 32] = False


def o_open(this, name, mode=16):
    i = this >> 32
    ok = name in M.E.files
    M.E.streams[i] = bytearray(M.E.files[name] if ok and mode & 1 else b'')
    M.E.open_files[i] = ok and name


@pattern(r'^_ZNSt14basic_ofstreamIcSt11char_traitsIcEE(C[12]E|4openE)RKNSt7__cxx1112basic_string')
def of_open_s(this, a, mode=16, *r):
    if (this >> 32) not in M.E.streams:
        new_stream(this)
    o_open(this, M.rd_string(a), mode)


@pattern(r'^_ZNSt14basic_ofstreamIcSt11char_traitsIcEE(C[12]E|4openE)PKc')
def of_open_c(this, a, mode=16, *r):
    if (this >> 32) not in M.E.streams:
        new_stream(this)
    o_open(this, M.cstr(a), mode)


@pattern(r'^_ZNSt14basic_ofstreamIcSt11char_traitsIcEEC[12]Ev$')
def of_ctor(this, *r):
    new_stream(this)


@pattern(r'^_ZNSt14basic_ofstreamIcSt11char_traitsIcEED[012]Ev$')
@pattern(r'^_ZNSt14basic_ofstreamIcSt11char_traitsIcEE5closeEv$')
def of_close(this, *r):
    n = M.E.open_files.get(this >> 32)
    if n:
        M.E.files[n] = bytes(M.E.streams[this >> 32])
    M.E.open_files[this >> 32] = False


@pattern(r'^_ZNSt14basic_[io]fstreamI')
@pattern(r'^_ZNSt13basic_filebufI')
def fstream(*a):
    return a[0] if a else 0


@pattern(r'^_ZNK?St(14basic_[io]fstream|13basic_filebuf|12__basic_file)I?c?\w*7is_openEv')
def fs_isopen(a=0, *r):
    return int(bool(M.E.open_files.get(a >> 32))) if type(a) is int else 0


PATTERNS.insert(0, (re.compile(r'^_ZNK?St14basic_[io]fstreamIcSt11char_traitsIcEE7is_openEv'), fs_isopen))


# ------------------------------------------------------------------ input from text
def _in(a):
    i = a >> 32
    if i not in M.E.stream_pos:
        raise Unsupported('input from an unknown stream')
    return M.E.streams[i], M.E.stream_pos[i]


def _first(rx, fn):
    PATTERNS.insert(0, (re.compile(rx), fn))


def in_getline(sret_or_is, s, d=10, *r):
    a = sret_or_is
    b, st = _in(a)
    if st[1]:
        st[1] |= 4
        return a
    p = st[0]
    e = b.find(bytes([d & 255]), p)
    if p >= len(b):
        st[1] |= 6
        M.mk_string(s, b'')
    elif e < 0:
        M.mk_string(s, bytes(b[p:]))
        st[0] = len(b)
        st[1] |= 2
    else:
        M.mk_string(s, bytes(b[p:e]))
        st[0] = e + 1
    return a


_first(r'^_ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringI', in_getline)
_first(r'^_ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_EOS7_RNSt7__cxx1112basic_stringI', in_getline)


def _skip(b, st):
    if st[1]:
        st[1] |= 4
        return False
    while st[0] < len(b) and chr(b[st[0]]).isspace():
        st[0] += 1
    if st[0] >= len(b):
        st[1] |= 6
        return False
    return True


_NUM = re.compile(r'[-+]?(\d+\.?\d*([eE][-+]?\d+)?|\.\d+([eE][-+]?\d+)?)')
_INT = re.compile(r'[-+]?\d+')


def _extract(size, dbl, signed=True):
    def f(a, ref):
        b, st = _in(a)
        if not _skip(b, st):
            return a
        t = b[st[0]:].decode('latin1')
        m = TOK.match(t)
        if m:
            v = tok_value(m, dbl)
        else:
            m = (_NUM if dbl else _INT).match(t)
            if not m:
                M.store(ref, size, 0.0 if dbl else 0)
                st[1] |= 4
                return a
            v = float(m.group(0)) if dbl else int(m.group(0)) & ((1 << (8 * size)) - 1)
        if not dbl and type(v) is not int and size != 8:
            from ops import cast_trunc
            v = cast_trunc(v, 64, 8 * size)
        M.store(ref, size, v)
        st[0] += m.end()
        if st[0] >= len(b):
            st[1] |= 2
        return a
    return f


for _c, _z, _d in (('d', 8, 1), ('f', 4, 1), ('i', 4, 0), ('j', 4, 0), ('l', 8, 0), ('m', 8, 0), ('x', 8, 0), ('y', 8, 0), ('s', 2, 0), ('t', 2, 0)):
    TABLE['_ZNSirsER' + _c] = _extract(_z, bool(_d))


def in_char(a, ref):
    b, st = _in(a)
    if _skip(b, st):
        M.store(ref, 1, b[st[0]])
        st[0] += 1
    return a


_first(r'^_ZStrsIcSt11char_traitsIcEERSt13basic_istreamIT_T0_ES6_RS3_$', in_char)


def in_word(a, s):
    b, st = _in(a)
    if _skip(b, st):
        e = st[0]
        while e < len(b) and not chr(b[e]).isspace():
            e += 1
        M.mk_string(s, bytes(b[st[0]:e]))
        st[0] = e
        if e >= len(b):
            st[1] |= 2
    return a


_first(r'^_ZStrsIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringI', in_word)


def _state(f):
    def g(a, *r):
        st = M.E.stream_pos.get(a >> 32)
        return int(bool(f(st[1] if st else 0)))
    return g


_first(r'^_ZNKSt9basic_iosIcSt11char_traitsIcEEcvbEv$', _state(lambda s: not s & 5))
_first(r'^_ZNKSt9basic_iosIcSt11char_traitsIcEEntEv$', _state(lambda s: s & 5))
_first(r'^_ZNKSt9basic_iosIcSt11char_traitsIcEE4failEv$', _state(lambda s: s & 5))
_first(r'^_ZNKSt9basic_iosIcSt11char_traitsIcEE3eofEv$', _state(lambda s: s & 2))
_first(r'^_ZNKSt9basic_iosIcSt11char_traitsIcEE4goodEv$', _state(lambda s: not s))
_first(r'^_ZNKSt9basic_iosIcSt11char_traitsIcEE3badEv$', _state(lambda s: s & 1))


def in_clear(a, st=0):
    if (a >> 32) in M.E.stream_pos:
        M.E.stream_pos[a >> 32][1] = st & 7


_first(r'^_ZNSt9basic_iosIcSt11char_traitsIcEE5clearESt12_Ios_Iostate$', in_clear)


def in_get(a):
    b, st = _in(a)
    if st[1] or st[0] >= len(b):
        st[1] |= 6
        return (1 << 32) - 1
    st[0] += 1
    return b[st[0] - 1]


def in_peek(a):
    b, st = _in(a)
    if st[1] or st[0] >= len(b):
        st[1] |= 2
        return (1 << 32) - 1
    return b[st[0]]


def in_ignore(a, n=1, d=-1):
    b, st = _in(a)
    for _ in range(min(n, len(b))):
        if st[0] >= len(b):
            st[1] |= 2
            break
        st[0] += 1
        if d not in (-1, (1 << 32) - 1) and b[st[0] - 1] == d & 255:
            break
    return a


def in_tellg(ret, a=None):
    if a is None:        # returned in two registers: {offset, mbstate}
        b, st = _in(ret)
        return [st[0] if not st[1] & 5 else (1 << 64) - 1, 0]
    b, st = _in(a)
    M.store(ret, 8, st[0] if not st[1] & 5 else (1 << 64) - 1)
    M.store(ret + 8, 8, 0)


def in_seekg(a, off, *r):
    b, st = _in(a)
    st[1] &= ~2
    if not st[1] & 5:
        if not 0 <= off <= len(b):
            st[1] |= 4
        else:
            st[0] = off
    return a


TABLE['_ZNSi5tellgEv'] = in_tellg
TABLE['_ZNSi5seekgESt4fposI11__mbstate_tE'] = in_seekg
TABLE['_ZNSi3getEv'] = in_get
TABLE['_ZNSi4peekEv'] = in_peek
TABLE['_ZNSi6ignoreEv'] = in_ignore
TABLE['_ZNSi6ignoreEl'] = in_ignore
TABLE['_ZNSi6ignoreEli'] = in_ignore


@model('sym_file_')
def sym_file_(name, text, n, out):
    p = b'/vsym/' + M.cstr(name)
    M.E.files[p] = bytes(M.rd_bytes(text, n))
    M.wr_bytes(out, p + b'\0')
    return 0


def _text(k):
    def f(v, width, out):
        w = width & 0xffffffff
        if type(v) is float:
            t = ('%.17g' % v).encode()
        elif type(v) is int:
            t = str(sx(v, 64)).encode()
        else:
            t = b'\x02' + k.encode() + str(len(M.E.texts)).encode() + b'\x03'
            if 0 < w < len(t) and len(M.E.short_texts) < 94:
                M.E.short_texts.append((k, v))
                t = bytes([0xa0 + len(M.E.short_texts)])
            else:
                M.E.texts.append((k, v))
            if 0 < w < len(t):
                raise Unsupported('text field too narrow')
        M.wr_bytes(out, t.rjust(w) + b'\0')
        return 0
    return f


TABLE['sym_text_d_'] = _text('d')
TABLE['sym_text_i_'] = _text('i')


# ------------------------------------------------------------------ harness API
@model('sym_double')
def sym_double(name, lo, hi):
    return M.E.new_double(M.cstr(name).decode(), lo, hi)


@model('sym_unit')
def sym_unit(name, n, out):
    for i, v in enumerate(M.E.new_unit(M.cstr(name).decode(), n & 0xffffffff)):
        M.store(out + 8 * i, 8, v)
    return 0


@model('sym_int')
def sym_int(name, lo, hi):
    return M.E.new_int(M.cstr(name).decode(), sx(lo, 64), sx(hi, 64))


@model('sym_choose')
def sym_choose(name, lo, hi):
    return M.E.choose(M.cstr(name).decode(), sx(lo, 64), sx(hi, 64)) & ((1 << 64) - 1)


@model('sym_assume')
def sym_assume(c):
    M.E.assume(c)


@model('sym_assert')
def sym_assert(c, label):
    M.E.assert_(c, M.cstr(label).decode())


@model('sym_assert_close')
def sym_assert_close(a, b, tol, label):
    M.E.assert_close(a, b, tol, M.cstr(label).decode())


@model('sym_assert_le')
def sym_assert_le(a, b, label):
    M.E.assert_le(a, b, M.cstr(label).decode())


@model('sym_reach')
def sym_reach(label):
    M.E.reach(M.cstr(label).decode())


@model('sym_symbolic')
def sym_symbolic():
    return 1


@model('sym_finite')
def sym_finite(v):
    """is the value a finite number (reals always are)"""
    if type(v) is float:
        return int(v == v and v not in (math.inf, -math.inf))
    if type(v) is I.F:
        return B('z', z3.Not(z3.Or(z3.fpIsNaN(v.e), z3.fpIsInf(v.e))))
    return 1


@model('sym_exit_ok')
def sym_exit_ok():
    """from here on the program may end by exit()"""
    M.E.exit_ok = True


@model('sym_end')
def sym_end():
    raise PathEnd('end')


# ------------------------------------------------------------------ further numeric library functions
@model('remainder')
def c_remainder(a, b):
    """a - n b with n the integer nearest to a / b"""
    import ops
    e = ops.ENV
    return e['F_fsub'](a, e['F_fmul'](e['X_roundeven'](e['F_fdiv'](a, b, 64), 64), b, 64), 64)


@model('fdim')
def c_fdim(a, b):
    import ops
    return ops.ENV['X_maxnum'](ops.ENV['F_fsub'](a, b, 64), 0.0, 64)


@model('lrint', 'llrint')
def c_lrint(v):
    import ops
    return ops.ENV['cast_fptosi'](ops.ENV['X_roundeven'](v, 64), 64, 64)


@model('ldexp', 'scalbn')
def c_ldexp(v, n):
    import ops
    if type(n) is not int:
        n = M.E.concretize(n, 32, 'exponent')
    n = n - (1 << 32) if n >> 31 else n
    return ops.ENV['F_fmul'](v, math.ldexp(1.0, n), 64)


@model('exp2')
def c_exp2(v):
    import ops
    return ops.ENV['X_pow'](2.0, v)


@model('nan', 'nanf')
def c_nan(s):
    return math.nan


# ------------------------------------------------------------------ hash tables of the C++ library
@model('_ZSt11_Hash_bytesPKvmm')
def hash_bytes(p, n, seed):
    bs = bytearray()
    for i in range(n if type(n) is int else M.E.concretize(n, 64, 'length of a key')):
        x = M.load(p + i, 1, 'i')
        bs.append(x if type(x) is int else M.E.concretize(x, 8, 'byte of a key'))
    h = seed                                            # only consistency matters to the tables
    for b in bs:
        h = (h ^ b) * 0x100000001b3 & 0xffffffffffffffff
    return h


_PRIMES = (1, 2, 5, 11, 13, 29, 59, 127, 257, 541, 1109, 2357, 5087, 10273, 20753)


@model('_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm')
def next_bkt(this, n):
    b = next(p for p in _PRIMES if p >= n)
    M.store(this + 8, 8, b)
    return b


@model('_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm')
def need_rehash(this, n_bkt, n_elt, n_ins):
    if n_elt + n_ins > M.load(this + 8, 8, 'i'):
        want = max(n_elt + n_ins, 11 if M.load(this + 8, 8, 'i') == 0 else 0)
        if want >= n_bkt:
            return (1, next_bkt(this, max(want + 1, 2 * n_bkt)))
        M.store(this + 8, 8, n_bkt)
    return (0, 0)
