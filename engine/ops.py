"""Operations called from the translated code (slow paths and everything that may be symbolic)."""
import math
import struct
import z3
import reals as RL
from reals import R, B, Unsupported
from interp import (F, RNE, FP64, FP32, PathEnd, MemError, Bound, CxxThrow, UNDEF, sx, f2i, i2f, r32, PAD, M32, M64,
                    INF, NAN)

M = None
ENV = {}


def bind(m):
    global M
    M = m


def ex(f):
    ENV[f.__name__] = f
    return f


ENV['Unsupported'] = Unsupported
ENV['CxxThrow'] = CxxThrow


# ---------------------------------------------------------------- control
@ex
def decide(c):
    if type(c) is B:
        return M.E.decide(c)
    if c is UNDEF:
        return M.E.decide(B('z', M.E.fresh_bool('uninit')))
    if isinstance(c, z3.BitVecRef):
        return M.E.decide(B('z', c == 1))
    if isinstance(c, z3.BoolRef):
        return M.E.decide(B('z', c))
    raise Unsupported('branch on %r' % (c,))


@ex
def switch(v, w, vals):
    v = ival(v, w)
    if type(v) is int:
        return v
    for c in vals:
        if M.E.decide(B('z', z3.simplify(v == c))):
            return c
    return -1


@ex
def unreachable():
    raise PathEnd('unreachable')


@ex
def resume(v):
    return CxxThrow(v[0], M.E.exc_types.get(v[0]))


@ex
def landingpad(e, clauses, cleanup):
    for c in clauses:
        if type(c) is tuple:
            continue
        if c == 0 or M.models.type_matches(e.tinfo, c):
            return (e.ptr, (c >> 32) if c else 1)
    if cleanup:
        return (e.ptr, 0)
    raise e


@ex
def typeid(a):
    return a >> 32


@ex
def callptr(p, *args):
    return M.resolve_addr(p)(*args)


# ---------------------------------------------------------------- memory
@ex
def ld_d(a):
    try:
        c = M.objs[a >> 32].cells[(a & M32) - PAD]
        if c[0] == 8:
            t = type(c[1])
            if t is float or t is R:
                return c[1]
    except (KeyError, TypeError):
        pass
    return M.load(a, 8, 'd')


@ex
def ld_p(a):
    try:
        c = M.objs[a >> 32].cells[(a & M32) - PAD]
        if c[0] == 8 and type(c[1]) is int:
            return c[1]
    except (KeyError, TypeError):
        pass
    v = M.load(a, 8, 'p')
    return v


@ex
def load(a, size, kind):
    return M.load(a, size, kind)


@ex
def store(a, size, v):
    try:
        o = M.objs[a >> 32]
        off = (a & M32) - PAD
        c = o.cells[off]
        if c[0] == size and not o.ro:
            o.cells[off] = (size, v)
            return
    except (KeyError, TypeError):
        pass
    M.store(a, size, v)


@ex
def loadagg(a, d):
    if d[0] == 's':
        return tuple(loadagg(a + o, e) for o, e in d[1])
    return M.load(a, d[1], d[0])


@ex
def storeagg(a, v, d):
    if d[0] == 's':
        for (o, e), x in zip(d[1], v):
            storeagg(a + o, x, e)
        return
    M.store(a, d[1], v)


@ex
def alloca(n):
    if type(n) is not int:
        n = M.E.concretize(n, 64, 'alloca size')
    return M.alloc(n, 'stack', 'stack')


@ex
def freestack(*ps):
    for p in ps:
        M.objs.pop(p >> 32, None)


@ex
def byval(p, size):
    n = M.alloc(size, 'byval', 'stack')
    M.memcpy(n, p, size)
    return n


@ex
def memcpy(d, s, n):
    M.memcpy(d, s, n)


@ex
def memset(d, c, n):
    M.memset(d, c, n)


@ex
def sext64(v, w):
    if type(v) is int:
        return sx(v, w)
    v = ival(v, w)
    if type(v) is int:
        return sx(v, w)
    return z3.SignExt(64 - w, v)


@ex
def insertvalue(agg, v, ix):
    l = list(agg)
    if len(ix) == 1:
        l[ix[0]] = v
    else:
        l[ix[0]] = insertvalue(l[ix[0]], v, ix[1:])
    return tuple(l)


@ex
def shuffle(a, b, mk):
    c = a + b
    return tuple(c[k] if k >= 0 else 0 for k in mk)


@ex
def vecop(f, a, b, w):
    return tuple(f(x, y, w) for x, y in zip(a, b))


@ex
def atomicrmw(op, p, v, size, w):
    o = M.load(p, size, 'i')
    if op == 0:
        n = v
    elif op == 1:
        n = I_add(o, v, w)
    elif op == 2:
        n = I_sub(o, v, w)
    elif op == 3:
        n = I_and(o, v, w)
    elif op == 5:
        n = I_or(o, v, w)
    else:
        raise Unsupported('atomicrmw')
    M.store(p, size, n)
    return o


# ---------------------------------------------------------------- integers
def ival(v, w):
    """normalise to int or z3 BitVec(w)"""
    if type(v) is int:
        return v
    if isinstance(v, z3.BitVecRef):
        return v
    if type(v) is B:
        if w == 1:
            return z3.If(RL.bz(v), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        return z3.If(RL.bz(v), z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    if v is UNDEF:
        return M.E.fresh_bv('uninit', w)
    if type(v) is float:
        return f2i(v)
    if type(v) is F:
        return z3.fpToIEEEBV(v.e)
    raise Unsupported('integer operation on %s' % type(v).__name__)


def bv(v, w):
    return z3.BitVecVal(v, w) if type(v) is int else v


def simp(e):
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_long()
    return e


def boolify(v):
    if type(v) is int or type(v) is B:
        return v
    if v is UNDEF:
        return B('z', M.E.fresh_bool('uninit'))
    return mkb(v == 1)


def mkb(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return 1
    if z3.is_false(e):
        return 0
    return B('z', e)


def _mk_int(name, conc, sym):
    def f(a, b, w):
        if type(a) is int and type(b) is int:
            return conc(a, b, w)
        if w == 1 and name in ('and', 'or', 'xor'):
            a, b = boolify(a), boolify(b)
            return {'and': RL.b_and, 'or': RL.b_or, 'xor': RL.b_xor}[name](a, b)
        a, b = ival(a, w), ival(b, w)
        if type(a) is int and type(b) is int:
            return conc(a, b, w)
        return simp(sym(bv(a, w), bv(b, w)))
    f.__name__ = 'I_' + name
    ENV['I_' + name] = f
    return f


def _c_sdiv(a, b, w):
    a, b = sx(a, w), sx(b, w)
    if b == 0:
        raise MemError('integer division by zero')
    q = abs(a) // abs(b)
    return (q if (a < 0) == (b < 0) else -q) & ((1 << w) - 1)


def _c_srem(a, b, w):
    a, b = sx(a, w), sx(b, w)
    if b == 0:
        raise MemError('integer remainder by zero')
    r = abs(a) % abs(b)
    return (r if a >= 0 else -r) & ((1 << w) - 1)


def _c_udiv(a, b, w):
    if b == 0:
        raise MemError('integer division by zero')
    return a // b


def _c_urem(a, b, w):
    if b == 0:
        raise MemError('integer remainder by zero')
    return a % b


def _dz(f):
    def g(a, b):
        z = mkb(b == 0)
        if z == 1 or (type(z) is B and M.E.decide(z)):
            raise MemError('integer division by zero')
        return f(a, b)
    return g


I_add = _mk_int('add', lambda a, b, w: (a + b) & ((1 << w) - 1), lambda a, b: a + b)
I_sub = _mk_int('sub', lambda a, b, w: (a - b) & ((1 << w) - 1), lambda a, b: a - b)
I_mul = _mk_int('mul', lambda a, b, w: (a * b) & ((1 << w) - 1), lambda a, b: a * b)
I_and = _mk_int('and', lambda a, b, w: a & b, lambda a, b: a & b)
I_or = _mk_int('or', lambda a, b, w: a | b, lambda a, b: a | b)
I_xor = _mk_int('xor', lambda a, b, w: a ^ b, lambda a, b: a ^ b)
I_shl = _mk_int('shl', lambda a, b, w: (a << b) & ((1 << w) - 1) if b < w else 0, lambda a, b: a << b)
I_lshr = _mk_int('lshr', lambda a, b, w: a >> b if b < w else 0, lambda a, b: z3.LShR(a, b))
I_ashr = _mk_int('ashr', lambda a, b, w: (sx(a, w) >> min(b, w - 1)) & ((1 << w) - 1), lambda a, b: a >> b)
I_udiv = _mk_int('udiv', _c_udiv, _dz(lambda a, b: z3.UDiv(a, b)))
I_sdiv = _mk_int('sdiv', _c_sdiv, _dz(lambda a, b: a / b))
I_urem = _mk_int('urem', _c_urem, _dz(lambda a, b: z3.URem(a, b)))
I_srem = _mk_int('srem', _c_srem, _dz(lambda a, b: z3.SRem(a, b)))

_ICMP = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'ugt': z3.UGT, 'uge': z3.UGE, 'ult': z3.ULT,
         'ule': z3.ULE, 'sgt': lambda a, b: a > b, 'sge': lambda a, b: a >= b, 'slt': lambda a, b: a < b,
         'sle': lambda a, b: a <= b}


def _cicmp(p, a, b, w):
    if p[0] == 's':
        a, b = sx(a, w), sx(b, w)
        p = 'u' + p[1:]
    return int({'eq': a == b, 'ne': a != b, 'ugt': a > b, 'uge': a >= b, 'ult': a < b, 'ule': a <= b}[p])


@ex
def icmp(p, a, b, w):
    if type(a) is int and type(b) is int:
        return _cicmp(p, a, b, w)
    if type(a) is B or type(b) is B or w == 1:
        if w == 1 or True:
            a1, b1 = (boolify(a) if w == 1 else a), (boolify(b) if w == 1 else b)
            if w == 1:
                if p == 'eq':
                    return RL.b_not(RL.b_xor(a1, b1))
                if p == 'ne':
                    return RL.b_xor(a1, b1)
                if p == 'ult' or p == 'sgt':
                    return RL.b_and(RL.b_not(a1), b1)
                if p == 'ugt' or p == 'slt':
                    return RL.b_and(a1, RL.b_not(b1))
                raise Unsupported('icmp i1 ' + p)
    if type(a) is R or type(b) is R:
        return _icmp_bits_of_real(p, a, b, w)
    a, b = ival(a, w), ival(b, w)
    if type(a) is int and type(b) is int:
        return _cicmp(p, a, b, w)
    return mkb(_ICMP[p](bv(a, w), bv(b, w)))


def _icmp_bits_of_real(p, a, b, w):
    # sign tests / equality on the bit pattern of a double (produced by instcombine from fcmp/copysign idioms)
    if w == 64 and type(a) is R and type(b) is int:
        if (p == 'slt' and b == 0) or (p == 'ugt' and b == (1 << 63) - 1):
            return RL.cmp('lt', a, 0.0)
        if p == 'sgt' and b == M64:
            return RL.cmp('le', 0.0, a)
    raise Unsupported('integer comparison of the bits of a symbolic real')


@ex
def select(c, a, b, kind, w):
    c = boolify(c)
    if type(c) is int:
        return a if c else b
    if a is b or (type(a) is type(b) and type(a) in (int, float) and a == b and (type(a) is int or f2i(a) == f2i(b))):
        return a
    if kind == 'b':
        a, b = boolify(a), boolify(b)
        if M.mode == 'bits' or not M.E.fork_bool:
            return RL.b_or(RL.b_and(c, a), RL.b_and(RL.b_not(c), b))
        # short-circuit forms keep the atoms separate
        if type(b) is int and b == 0:
            return RL.b_and(c, a)
        if type(a) is int and a == 1:
            return RL.b_or(c, b)
        if type(a) is int and a == 0:
            return RL.b_and(RL.b_not(c), b)
        if type(b) is int and b == 1:
            return RL.b_or(RL.b_not(c), a)
        return RL.b_or(RL.b_and(c, a), RL.b_and(RL.b_not(c), b))
    if kind == 'i' and M.mode == 'bits':
        x, y = ival(a, w), ival(b, w)
        return simp(z3.If(RL.bz(c), bv(x, w), bv(y, w)))
    if kind in ('d', 'f') and M.mode == 'bits' and (type(a) is F or type(b) is F):
        return F(z3.If(RL.bz(c), fpe(a, w), fpe(b, w)))
    return a if M.E.decide(c) else b


# ---------------------------------------------------------------- floating point
def fpe(v, w=64):
    s = FP64 if w == 64 else FP32
    if type(v) is float:
        return z3.FPVal(v, s)
    if type(v) is F:
        return v.e
    if v is UNDEF:
        return z3.FP('uninit!%d' % M.E.next_fresh(), s)
    raise Unsupported('fp value %r' % (v,))


def fv(v, w=64):
    if v is UNDEF:
        if M.mode == 'bits':
            return F(fpe(v, w))
        return M.E.fresh_real('uninit')
    if type(v) is int:
        return i2f(v)
    return v


def fsimp(e):
    e = z3.simplify(e)
    if z3.is_fp_value(e):
        return fpval(e)
    return F(e)


def fpval(e):
    if e.isNaN():
        return NAN
    if e.isInf():
        return -INF if e.isNegative() else INF
    if e.isZero():
        return -0.0 if e.isNegative() else 0.0
    b = z3.simplify(z3.fpToIEEEBV(e))
    n = b.as_long()
    return i2f(n) if b.size() == 64 else struct.unpack('<f', struct.pack('<I', n))[0]


def _fdiv(a, b):
    try:
        return a / b
    except ZeroDivisionError:
        if a != a or a == 0:
            return NAN
        return math.copysign(INF, a) * math.copysign(1.0, b)


def _mkf(name, conc, real, fpop):
    def f(a, b, w=64):
        a, b = fv(a, w), fv(b, w)
        if type(a) is float and type(b) is float:
            r = conc(a, b)
            return r if w == 64 else r32(r)
        if type(a) is F or type(b) is F:
            return fsimp(fpop(fpe(a, w), fpe(b, w)))
        return real(a, b)
    f.__name__ = 'F_' + name
    ENV['F_' + name] = f
    return f


def real_div(a, b):
    if type(b) is R:
        if not (b.lo > 0 or b.hi < 0):
            if M.E.zero_den(b):
                # division by a zero denominator
                if type(a) is float:
                    return _fdiv(a, 0.0)
                if M.E.decide(RL.cmp('eq', a, 0.0)):
                    return NAN
                return INF if M.E.decide(RL.cmp('lt', 0.0, a)) else -INF
    elif b == 0.0:
        if type(a) is R:
            z = RL.cmp('eq', a, 0.0)
            if z == 1 or (type(z) is B and M.E.decide(z)):
                return NAN
            p = RL.cmp('lt', 0.0, a)
            pos = p if type(p) is int else M.E.decide(p)
            return INF if bool(pos) == (math.copysign(1, b) > 0) else -INF
        return _fdiv(a, b)
    elif type(a) is R and (b == INF or b == -INF):
        return 0.0
    return RL.div_nz(a, b)


def real_rem(a, b):
    # fmod: a - b*trunc(a/b)
    if type(b) is float and b == 0.0:
        return NAN
    q = real_div(a, b)
    if type(q) is float:
        if q != q or q in (INF, -INF):
            return NAN
        return RL.sub(a, RL.mul(b, float(math.trunc(q))))
    k = M.E.concretize_real(q, 'fmod')
    return RL.sub(a, RL.mul(b, float(k)))


def _cfrem(a, b):
    try:
        return math.fmod(a, b)
    except ValueError:
        return NAN


F_fadd = _mkf('fadd', lambda a, b: a + b, RL.add, lambda a, b: z3.fpAdd(RNE, a, b))
F_fsub = _mkf('fsub', lambda a, b: a - b, RL.sub, lambda a, b: z3.fpSub(RNE, a, b))
F_fmul = _mkf('fmul', lambda a, b: a * b, RL.mul, lambda a, b: z3.fpMul(RNE, a, b))
F_fdiv = _mkf('fdiv', _fdiv, real_div, lambda a, b: z3.fpDiv(RNE, a, b))


def _fp_fmod(a, b):
    raise Unsupported('bit-precise fmod')


F_frem = _mkf('frem', _cfrem, real_rem, _fp_fmod)


@ex
def F_neg(a):
    a = fv(a)
    if type(a) is float:
        return -a
    if type(a) is F:
        return F(z3.fpNeg(a.e))
    return RL.neg(a)


@ex
def fcmp(p, a, b):
    a, b = fv(a), fv(b)
    if type(a) is float and type(b) is float:
        if a != a or b != b:
            return 1 if p[0] == 'u' or p == 'true' else 0
        q = p[1:]
        if p == 'ord':
            return 1
        if p == 'uno':
            return 0
        return int(a == b if q == 'eq' else a != b if q == 'ne' else a < b if q == 'lt' else a <= b if q == 'le' else a > b if q == 'gt' else a >= b if q == 'ge' else p == 'true')
    if type(a) is F or type(b) is F:
        x, y = fpe(a), fpe(b)
        if type(a) is F and x.sort() != y.sort():
            y = fpe(b, x.sort().ebits() + x.sort().sbits())
        elif type(b) is F and x.sort() != y.sort():
            x = fpe(a, y.sort().ebits() + y.sort().sbits())
        un = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
        q = p[1:]
        if p == 'ord':
            return mkb(z3.Not(un))
        if p == 'uno':
            return mkb(un)
        e = {'eq': z3.fpEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ}.get(q)
        if q == 'ne':
            c = z3.Not(z3.fpEQ(x, y))
            return mkb(c if p == 'une' else z3.And(c, z3.Not(un)))
        c = e(x, y)
        return mkb(c if p[0] == 'o' else z3.Or(un, c))
    # reals (never NaN)
    na = (type(a) is float and a != a) or (type(b) is float and b != b)
    if p == 'ord':
        return 0 if na else 1
    if p == 'uno':
        return 1 if na else 0
    if na:
        return 1 if p[0] == 'u' else 0
    q = p[1:]
    if type(a) is float and a in (INF, -INF) or type(b) is float and b in (INF, -INF):
        fa = a if type(a) is float and a in (INF, -INF) else 0.0
        fb = b if type(b) is float and b in (INF, -INF) else 0.0
        return fcmp('o' + q, fa, fb)
    if q == 'eq':
        return RL.cmp('eq', a, b)
    if q == 'ne':
        return RL.b_not(RL.cmp('eq', a, b))
    if q == 'lt':
        return RL.cmp('lt', a, b)
    if q == 'le':
        return RL.cmp('le', a, b)
    if q == 'gt':
        return RL.cmp('lt', b, a)
    if q == 'ge':
        return RL.cmp('le', b, a)
    raise Unsupported('fcmp ' + p)


# ---------------------------------------------------------------- casts
@ex
def cast_zext(v, fw, tw):
    if type(v) is int:
        return v
    if type(v) is B:
        if M.mode == 'bits' or not M.E.fork_bool:
            return z3.If(RL.bz(v), z3.BitVecVal(1, tw), z3.BitVecVal(0, tw))
        return 1 if M.E.decide(v) else 0
    v = ival(v, fw)
    return simp(z3.ZeroExt(tw - fw, v)) if type(v) is not int else v


@ex
def cast_sext(v, fw, tw):
    if type(v) is int:
        return sx(v, fw) & ((1 << tw) - 1)
    if type(v) is B:
        if M.mode == 'bits':
            return z3.If(RL.bz(v), z3.BitVecVal(-1, tw), z3.BitVecVal(0, tw))
        return (1 << tw) - 1 if M.E.decide(v) else 0
    v = ival(v, fw)
    if type(v) is int:
        return sx(v, fw) & ((1 << tw) - 1)
    return simp(z3.SignExt(tw - fw, v))


@ex
def cast_trunc(v, fw, tw):
    if type(v) is int:
        return v & ((1 << tw) - 1)
    v = ival(v, fw)
    if type(v) is int:
        return v & ((1 << tw) - 1)
    r = simp(z3.Extract(tw - 1, 0, v))
    if tw == 1 and type(r) is not int:
        return mkb(r == 1)
    return r


@ex
def cast_sitofp(v, fw, tw):
    if type(v) is int:
        r = float(sx(v, fw))
        return r if tw == 64 else r32(r)
    if fw == 1:
        return -1.0 if decide(v) else 0.0
    v = ival(v, fw)
    if type(v) is int:
        return cast_sitofp(v, fw, tw)
    if M.mode == 'bits':
        return F(z3.fpSignedToFP(RNE, v, FP64 if tw == 64 else FP32))
    k = M.E.concretize(v, fw, 'int to real')
    return cast_sitofp(k, fw, tw)


@ex
def cast_uitofp(v, fw, tw):
    if type(v) is int:
        r = float(v)
        return r if tw == 64 else r32(r)
    if fw == 1:
        return 1.0 if decide(v) else 0.0
    v = ival(v, fw)
    if type(v) is int:
        return cast_uitofp(v, fw, tw)
    if M.mode == 'bits':
        return F(z3.fpUnsignedToFP(RNE, v, FP64 if tw == 64 else FP32))
    k = M.E.concretize(v, fw, 'int to real')
    return cast_uitofp(k, fw, tw)


@ex
def cast_fptosi(v, fw, tw):
    v = fv(v, fw)
    if type(v) is float:
        if v != v or v in (INF, -INF):
            M.E.note('fptosi of non-finite value')
            return 1 << (tw - 1)
        k = int(v)
        if not -(1 << (tw - 1)) <= k < (1 << (tw - 1)):
            M.E.note('fptosi out of range')
            return 1 << (tw - 1)
        return k & ((1 << tw) - 1)
    if type(v) is F:
        return simp(z3.fpToSBV(z3.RTZ(), v.e, z3.BitVecSort(tw)))
    k = M.E.concretize_real(v, 'fptosi')
    return k & ((1 << tw) - 1)


@ex
def cast_fptoui(v, fw, tw):
    v = fv(v, fw)
    if type(v) is float:
        if v != v or v in (INF, -INF):
            M.E.note('fptoui of non-finite value')
            return 0
        k = int(v)
        if not 0 <= k < (1 << tw):
            M.E.note('fptoui out of range')
            # what x86-64 code does for narrow types: convert through i64 and truncate
            return k & ((1 << tw) - 1)
        return k
    if type(v) is F:
        if tw < 64:
            x = z3.fpToSBV(z3.RTZ(), v.e, z3.BitVecSort(64))
            return simp(z3.Extract(tw - 1, 0, x))
        return simp(z3.fpToUBV(z3.RTZ(), v.e, z3.BitVecSort(tw)))
    k = M.E.concretize_real(v, 'fptoui')
    return k & ((1 << tw) - 1)


@ex
def cast_fptrunc(v, fw, tw):
    v = fv(v, fw)
    if type(v) is float:
        return r32(v) if tw == 32 else v
    if type(v) is F:
        return F(z3.simplify(z3.fpFPToFP(RNE, v.e, FP32 if tw == 32 else FP64)))
    return v


@ex
def cast_fpext(v, fw, tw):
    v = fv(v, fw)
    if type(v) is F and tw == 64:
        return F(z3.simplify(z3.fpFPToFP(RNE, v.e, FP64)))
    return v


@ex
def cast_bitcast(v, fk, tk, size):
    if fk == tk or (fk == 'ptr') or (tk == 'ptr'):
        return v
    if fk == 'double' and tk == 'int':
        if type(v) is float:
            return f2i(v)
        if type(v) is F:
            return z3.fpToIEEEBV(v.e)
        return v
    if fk == 'int' and tk == 'double':
        return M.conv(v, 8, 'd')
    if fk == 'float' and tk == 'int':
        if type(v) is float:
            return struct.unpack('<I', struct.pack('<f', v))[0]
        if type(v) is F:
            return z3.fpToIEEEBV(v.e)
        return v
    if fk == 'int' and tk == 'float':
        return M.conv(v, 4, 'f')
    raise Unsupported('bitcast %s %s' % (fk, tk))


# ---------------------------------------------------------------- math functions (shared with the libm models)
def _signed_floor(v, mode):
    """floor/ceil/trunc/round on R: concretise the integer"""
    E = M.E
    if mode == 'floor':
        return float(E.concretize_real(v, 'floor', 'floor'))
    if mode == 'ceil':
        return -float(E.concretize_real(RL.neg(v), 'ceil', 'floor'))
    if mode == 'trunc':
        return float(E.concretize_real(v, 'trunc'))
    if mode in ('round', 'rint'):
        return float(E.concretize_real(RL.add(v, 0.5), 'round', 'floor'))
    raise Unsupported(mode)


def _cround(v):
    if v != v or abs(v) > 4e15:
        return v
    r = float(math.floor(abs(v) + 0.5)) if abs(v) - math.floor(abs(v)) != 0.49999999999999994 else float(math.floor(abs(v)))
    return math.copysign(r, v)


def _rndfun(name, conc, rm):
    def f(v, w=64):
        v = fv(v, w)
        if type(v) is float:
            if v != v or v in (INF, -INF):
                return v
            return conc(v)
        if type(v) is F:
            return F(z3.fpRoundToIntegral(rm, v.e))
        return _signed_floor(v, name)
    ENV['X_' + name] = f
    return f


def _csz(f):
    return lambda v: math.copysign(float(f(v)), v)


X_floor = _rndfun('floor', _csz(math.floor), z3.RTN())
X_ceil = _rndfun('ceil', _csz(math.ceil), z3.RTP())
X_trunc = _rndfun('trunc', _csz(math.trunc), z3.RTZ())
X_round = _rndfun('round', _cround, z3.RNA())
X_rint = _rndfun('rint', lambda v: float(round(v)), z3.RNE())
ENV['X_nearbyint'] = X_rint
ENV['X_roundeven'] = X_rint


@ex
def X_fabs(v, w=64):
    v = fv(v, w)
    if type(v) is float:
        return abs(v)
    if type(v) is F:
        return F(z3.fpAbs(v.e))
    if v.lo >= 0:
        return v
    if v.hi <= 0:
        return RL.neg(v)
    return RL.neg(v) if M.E.decide(RL.cmp('lt', v, 0.0)) else v


@ex
def X_copysign(a, b, w=64):
    a, b = fv(a, w), fv(b, w)
    if type(a) is float and type(b) is float:
        return math.copysign(a, b)
    m = X_fabs(a, w)
    if type(b) is float:
        return F_neg(m) if math.copysign(1.0, b) < 0 else m
    if type(b) is F:
        return F(z3.If(z3.fpIsNegative(b.e), z3.fpNeg(fpe(m)), fpe(m)))
    return F_neg(m) if M.E.decide(RL.cmp('lt', b, 0.0)) else m


@ex
def X_sqrt(v, w=64):
    v = fv(v, w)
    if type(v) is float:
        if v != v or v < 0:
            return NAN
        r = math.sqrt(v)
        return r if w == 64 else r32(r)
    if type(v) is F:
        return F(z3.fpSqrt(RNE, v.e))
    try:
        p = RL.poly(v)
    except (RL.TooBig, Unsupported, OverflowError, RecursionError, ZeroDivisionError):
        p = None
    if p is not None and len(p) <= 1 and (not p or RL.ONE in p):
        c = float(p.get(RL.ONE, 0)) if p else 0.0
        if c >= 0:
            return math.sqrt(c)
    # sqrt of a square
    if v.op == '*' and v.args[0] is v.args[1]:
        return X_fabs(v.args[0])
    if v.lo < 0 and not M.E.in_domain(RL.cmp('le', 0.0, v), 'sqrt'):
        return NAN
    return RL.fn('sqrt', v)


def _mkmin(name, pick_lt):
    def f(a, b, w=64):
        a, b = fv(a, w), fv(b, w)
        c = fcmp('olt', a, b)
        if type(a) is F or type(b) is F:
            c2 = RL.bz(c) if type(c) is B else z3.BoolVal(bool(c))
            x, y = fpe(a, w), fpe(b, w)
            return F(z3.If(c2, x, y) if pick_lt else z3.If(c2, y, x))
        t = c if type(c) is int else M.E.decide(c)
        return (a if t else b) if pick_lt else (b if t else a)
    ENV['X_' + name] = f
    return f


X_minnum = _mkmin('minnum', True)
X_maxnum = _mkmin('maxnum', False)


@ex
def X_fmuladd(a, b, c, w=64):
    return F_fadd(F_fmul(a, b, w), c, w)


@ex
def X_powi(a, n, w=64):
    n = sx(n, 32)
    r = 1.0
    for _ in range(abs(n)):
        r = F_fmul(r, a)
    return F_fdiv(1.0, r) if n < 0 else r


def _imin(name, p):
    def f(a, b, w):
        c = icmp(p, a, b, w)
        if type(c) is int:
            return a if c else b
        return select(c, a, b, 'i', w)
    ENV['X_' + name] = f


_imin('smin', 'slt')
_imin('smax', 'sgt')
_imin('umin', 'ult')
_imin('umax', 'ugt')


@ex
def X_abs(a, p, w):
    c = icmp('slt', a, 0, w)
    n = I_sub(0, a, w)
    if type(c) is int:
        return n if c else a
    return select(c, n, a, 'i', w)


def _ovf(name, op, ext, sop):
    def f(a, b, w):
        r = op(a, b, w)
        if type(a) is int and type(b) is int:
            if ext == 's':
                x = sop(sx(a, w), sx(b, w))
                return (r, int(not -(1 << (w - 1)) <= x < (1 << (w - 1))))
            x = sop(a, b)
            return (r, int(not 0 <= x < (1 << w)))
        a, b = bv(ival(a, w), w), bv(ival(b, w), w)
        e = (z3.SignExt if ext == 's' else z3.ZeroExt)
        wide = sop(e(w, a), e(w, b))
        if ext == 's':
            lo = z3.SignExt(w, z3.Extract(w - 1, 0, wide))
        else:
            lo = z3.ZeroExt(w, z3.Extract(w - 1, 0, wide))
        return (r, mkb(wide != lo))
    ENV['X_' + name] = f


_ovf('sadd_with_overflow', I_add, 's', lambda a, b: a + b)
_ovf('uadd_with_overflow', I_add, 'u', lambda a, b: a + b)
_ovf('ssub_with_overflow', I_sub, 's', lambda a, b: a - b)
_ovf('usub_with_overflow', I_sub, 'u', lambda a, b: a - b)
_ovf('smul_with_overflow', I_mul, 's', lambda a, b: a * b)
_ovf('umul_with_overflow', I_mul, 'u', lambda a, b: a * b)


@ex
def X_usub_sat(a, b, w):
    c = icmp('ult', a, b, w)
    r = I_sub(a, b, w)
    return select(c, 0, r, 'i', w) if type(c) is not int else (0 if c else r)


@ex
def X_uadd_sat(a, b, w):
    r = I_add(a, b, w)
    c = icmp('ult', r, a, w)
    m = (1 << w) - 1
    return select(c, m, r, 'i', w) if type(c) is not int else (m if c else r)


@ex
def X_bswap(a, w):
    a = ival(a, w)
    n = w // 8
    if type(a) is int:
        return int.from_bytes(a.to_bytes(n, 'little'), 'big')
    return simp(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, a) for i in range(n)]))


@ex
def X_fshl(a, b, s, w):
    if type(s) is int and type(a) is int and type(b) is int:
        s %= w
        return ((a << s) | (b >> (w - s))) & ((1 << w) - 1) if s else a
    if type(s) is int:
        s %= w
        if s == 0:
            return a
        return I_or(I_shl(a, s, w), I_lshr(b, w - s, w), w)
    raise Unsupported('fshl symbolic shift')


@ex
def X_fshr(a, b, s, w):
    if type(s) is int:
        s %= w
        if s == 0:
            return b
        return I_or(I_shl(a, w - s, w), I_lshr(b, s, w), w)
    raise Unsupported('fshr symbolic shift')


@ex
def X_ctpop(a, w):
    if type(a) is int:
        return bin(a).count('1')
    a = ival(a, w)
    return simp(z3.Sum([z3.ZeroExt(w - 1, z3.Extract(i, i, a)) for i in range(w)]))


@ex
def X_ctlz(a, p, w):
    if type(a) is int:
        return w - a.bit_length()
    a = M.E.concretize(a, w, 'ctlz')
    return w - a.bit_length()


@ex
def X_cttz(a, p, w):
    if type(a) is not int:
        a = M.E.concretize(a, w, 'cttz')
    return w if a == 0 else (a & -a).bit_length() - 1


@ex
def X_is_fpclass(v, mask, w):
    v = fv(v)
    if type(v) is float:
        if v != v:
            k = 3
        elif v == -INF:
            k = 4
        elif v == INF:
            k = 512
        elif v == 0:
            k = 32 if math.copysign(1, v) < 0 else 64
        else:
            k = 8 if v < 0 else 256
        return int(bool(mask & k))
    if type(v) is F:
        e = v.e
        cs = []
        if mask & 3:
            cs.append(z3.fpIsNaN(e))
        if mask & 4:
            cs.append(z3.And(z3.fpIsInf(e), z3.fpIsNegative(e)))
        if mask & 512:
            cs.append(z3.And(z3.fpIsInf(e), z3.fpIsPositive(e)))
        for bit, g in ((8, z3.And(z3.fpIsNormal(e), z3.fpIsNegative(e))), (16, z3.And(z3.fpIsSubnormal(e), z3.fpIsNegative(e))),
                       (32, z3.And(z3.fpIsZero(e), z3.fpIsNegative(e))), (64, z3.And(z3.fpIsZero(e), z3.fpIsPositive(e))),
                       (128, z3.And(z3.fpIsSubnormal(e), z3.fpIsPositive(e))), (256, z3.And(z3.fpIsNormal(e), z3.fpIsPositive(e)))):
            if mask & bit:
                cs.append(g)
        return mkb(z3.Or(cs))
    finite = mask & (8 | 16 | 32 | 64 | 128 | 256)
    if finite == (8 | 16 | 32 | 64 | 128 | 256):
        return 1
    if finite == 0:
        return 0
    raise Unsupported('is.fpclass on real')


def _tr(name, conc):
    def f(v, w=64):
        v = fv(v, w)
        if type(v) is float:
            try:
                return conc(v)
            except (ValueError, OverflowError):
                return NAN
        if type(v) is F:
            raise Unsupported('bit-precise ' + name)
        return real_fn(name, v)
    ENV['X_' + name] = f
    return f


def real_fn(name, v):
    E = M.E
    if name == 'sin':
        # sin/cos are odd/even: canonicalise the sign of a constant factor
        if v.op == '*' and type(v.args[1]) is float and v.args[1] < 0:
            return RL.neg(RL.fn('sin', RL.neg(v)))
        if v.op == 'f' and v.args[0] == 'asin':
            return v.args[1]
        if v.op == 'f' and v.args[0] == 'acos':
            return X_sqrt(RL.sub(1.0, RL.mul(v.args[1], v.args[1])))
        return RL.fn('sin', v)
    if name == 'cos':
        if v.op == '*' and type(v.args[1]) is float and v.args[1] < 0:
            return RL.fn('cos', RL.neg(v))
        if v.op == 'f' and v.args[0] == 'acos':
            return v.args[1]
        if v.op == 'f' and v.args[0] == 'asin':
            return X_sqrt(RL.sub(1.0, RL.mul(v.args[1], v.args[1])))
        return RL.fn('cos', v)
    if name == 'tan':
        return real_div(real_fn('sin', v), real_fn('cos', v))
    if name in ('acos', 'asin'):
        e = RL.inv_trig(name, v)
        if e is not None:
            return e
        if v.lo < -1 and not E.in_domain(RL.cmp('le', -1.0, v), name):
            return NAN
        if v.hi > 1 and not E.in_domain(RL.cmp('le', v, 1.0), name):
            return NAN
        return RL.fn(name, v)
    if name in ('log', 'log10', 'log2'):
        if v.lo <= 0 and not E.in_domain(RL.cmp('lt', 0.0, v), name):
            return -INF
        if v.op == 'f' and v.args[0] == 'exp' and name == 'log':
            return v.args[1]
        if v.op == 'f' and v.args[0] in ('pow', 'cbrt') and name == 'log' and v.args[1].lo > 0:
            return RL.mul(real_fn('log', v.args[1]), v.args[2] if v.args[0] == 'pow' else 1 / 3)
        if name == 'log2':
            return RL.mul(RL.fn('log', v), 1 / math.log(2))
        return RL.fn(name, v)
    if name == 'exp' and v.op == 'f' and v.args[0] == 'log':
        return v.args[1]
    if name == 'exp10':
        return RL.fn('pow', 10.0, v)
    if name in ('sinh', 'cosh'):
        e1, e2 = RL.fn('exp', v), RL.fn('exp', RL.neg(v))
        return RL.mul(RL.add(e1, e2) if name == 'cosh' else RL.sub(e1, e2), 0.5)
    if name == 'erfc':
        return RL.sub(1.0, RL.fn('erf', v))
    return RL.fn(name, v)


for _n in ('sin', 'cos', 'tan', 'acos', 'asin', 'atan', 'exp', 'log', 'log10', 'log2', 'sinh', 'cosh', 'tanh', 'erf', 'erfc', 'cbrt', 'lgamma', 'tgamma', 'log1p', 'expm1'):
    def _conc(n):
        if n == 'cbrt':
            return lambda v: math.copysign(abs(v) ** (1 / 3), v)
        if n == 'log':
            return lambda v: math.log(v) if v > 0 else (-INF if v == 0 else NAN)
        if n == 'exp':
            def e(v):
                try:
                    return math.exp(v)
                except OverflowError:
                    return INF
            return e
        return getattr(math, n if n != 'tgamma' else 'gamma')
    _tr(_n, _conc(_n))


@ex
def X_atan2(y, x, w=64):
    y, x = fv(y), fv(x)
    if type(y) is float and type(x) is float:
        return math.atan2(y, x)
    if type(y) is F or type(x) is F:
        raise Unsupported('bit-precise atan2')
    return RL.fn('atan2', y, x)


@ex
def X_pow(a, b, w=64):
    a, b = fv(a), fv(b)
    if type(a) is float and type(b) is float:
        try:
            return math.pow(a, b)
        except OverflowError:
            return INF
        except ValueError:
            return INF if a == 0 else NAN
    if type(a) is F or type(b) is F:
        if type(b) is float and b == 2.0:
            return F_fmul(a, a)
        raise Unsupported('bit-precise pow')
    if type(b) is float:
        if b == int(b) and abs(b) <= 40:
            n = int(abs(b))
            r, p = 1.0, a
            while n:
                if n & 1:
                    r = RL.mul(r, p)
                n >>= 1
                if n:
                    p = RL.mul(p, p)
            return real_div(1.0, r) if b < 0 else r
        if b == 0.5:
            return X_sqrt(a)
        if b == -0.5:
            return real_div(1.0, X_sqrt(a))
        if b == 1.5:
            return RL.mul(a, X_sqrt(a))
        if b == -1.5:
            return real_div(1.0, RL.mul(a, X_sqrt(a)))
    if type(a) is R and a.lo < 0:
        if not M.E.in_domain(RL.cmp('le', 0.0, a), 'pow'):
            return NAN
    if type(a) is float and a == 1.0:
        return 1.0
    if type(a) is float and a == math.e:
        return RL.fn('exp', b)
    if type(a) is float and a == 10.0:
        return RL.fn('exp', RL.mul(b, math.log(10.0)))
    if type(a) is float and a > 0:
        return RL.fn('exp', RL.mul(b, math.log(a)))
    return RL.fn('pow', a, b)


@ex
def X_hypot(a, b, w=64):
    return X_sqrt(F_fadd(F_fmul(a, a), F_fmul(b, b)))


@ex
def X_fmod(a, b, w=64):
    return F_frem(a, b, w)


@ex
def X_fma(a, b, c, w=64):
    if any(type(x) is F for x in (a, b, c)):
        raise Unsupported('bit-precise fma')
    return F_fadd(F_fmul(a, b, w), c, w)


@ex
def X_lround(v, w=64):
    return ENV['cast_fptosi'](X_round(v, 64), 64, w)


@ex
def X_lrint(v, w=64):
    return ENV['cast_fptosi'](X_rint(v, 64), 64, w)


ENV['X_llround'] = X_lround
ENV['X_llrint'] = X_lrint


@ex
def X_ldexp(v, n, w=64):
    if type(n) is not int:
        raise Unsupported('symbolic exponent')
    return F_fmul(v, math.ldexp(1.0, n - (1 << 32) if n >> 31 else n), w)
