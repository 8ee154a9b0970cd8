"""Symbolic real terms (hash-consed DAG) with interval bounds, polynomial normal form and z3 export.

A double is either a Python float (concrete: native IEEE arithmetic, exactly what the hardware does) or an R node
(symbolic: exact real arithmetic).  Transcendental functions, square roots and divisions become fresh real
constants constrained by side axioms."""
import math
from fractions import Fraction
import z3

INF = math.inf
NAN = math.nan


class Unsupported(Exception):
    pass


class TooBig(Exception):
    pass


class R:
    __slots__ = ('op', 'args', 'id', 'lo', 'hi', '_z', '_deps', '_poly', 'side', '__weakref__')

    def __repr__(self):
        return show(self)


_table = {}
_trigargs = {}     # 'sin'/'cos' -> arguments inside the principal range of the inverse function
_nodes = []
zctx = None


def reset():
    global _patoms
    _table.clear()
    _nodes.clear()
    _patoms.clear()
    _patom_key.clear()
    _pcanon.clear()
    _unit.clear()
    _trigargs.clear()
    _bcache.clear()


def show(n, d=6):
    if not isinstance(n, R):
        return repr(n)
    if n.op == 'v':
        return n.args[0]
    if d == 0:
        return '..'
    if n.op == 'f':
        return '%s(%s)' % (n.args[0], ', '.join(show(a, d - 1) for a in n.args[1:]))
    return '(' + (' %s ' % n.op).join(show(a, d - 1) for a in n.args) + ')'


def _mk(op, args, lo, hi):
    key = (op,) + tuple(a.id if type(a) is R else ('c', a) if type(a) is float else a for a in args)
    n = _table.get(key)
    if n is not None:
        return n
    n = R()
    n.op = op
    n.args = args
    n.id = len(_nodes)
    n.lo = lo
    n.hi = hi
    n._z = None
    n._deps = None
    n._poly = None
    n.side = None
    _nodes.append(n)
    _table[key] = n
    return n


def var(name, lo=-INF, hi=INF):
    return _mk('v', (name, ('b', lo, hi)), lo, hi)


def bounds(x):
    if type(x) is R:
        return x.lo, x.hi
    return x, x


def _down(v):
    if v == -INF or v != v:
        return -INF
    return v - abs(v) * 1e-15


def _up(v):
    if v == INF or v != v:
        return INF
    return v + abs(v) * 1e-15


def add(a, b):
    ta = type(a) is float
    tb = type(b) is float
    if ta and tb:
        return a + b
    if ta:
        if a == 0.0:
            return b
        if a != a or a in (INF, -INF):
            return a
        a, b, ta, tb = b, a, tb, ta
    if tb:
        if b == 0.0:
            return a
        if b != b or b in (INF, -INF):
            return b
    elif a.id > b.id:
        a, b = b, a
    al, ah = bounds(a)
    bl, bh = bounds(b)
    return _mk('+', (a, b), _down(al + bl), _up(ah + bh))


def neg(a):
    if type(a) is float:
        return -a
    return mul(a, -1.0)


def sub(a, b):
    if type(a) is float and type(b) is float:
        return a - b
    if a is b:
        return 0.0
    if type(b) is float:
        return add(a, -b)
    if type(a) is float and a == 0.0:
        return neg(b)
    if type(a) is float and (a != a or a in (INF, -INF)):
        return a
    al, ah = bounds(a)
    bl, bh = bounds(b)
    return _mk('-', (a, b), _down(al - bh), _up(ah - bl))


def _imul(al, ah, bl, bh):
    c = []
    for x in (al, ah):
        for y in (bl, bh):
            p = 0.0 if (x == 0.0 or y == 0.0) else x * y
            c.append(p)
    return _down(min(c)), _up(max(c))


def mul(a, b):
    ta = type(a) is float
    tb = type(b) is float
    if ta and tb:
        return a * b
    if ta:
        a, b, ta, tb = b, a, tb, ta
    if tb:
        if b == 0.0:
            return 0.0
        if b == 1.0:
            return a
        if b != b:
            return b
        if b in (INF, -INF):
            if a.lo > 0:
                return b
            if a.hi < 0:
                return -b
            raise Unsupported("inf * symbolic")
        if a.op == '*' and type(a.args[1]) is float and b == -1.0:
            return mul(a.args[0], -a.args[1])
        if a.op == '-' and b == -1.0:
            return sub(a.args[1], a.args[0])
    elif a.id > b.id:
        a, b = b, a
    if a is b:
        m = max(abs(a.lo), abs(a.hi))
        lo = 0.0
        if a.lo > 0:
            lo = _down(a.lo * a.lo)
        elif a.hi < 0:
            lo = _down(a.hi * a.hi)
        return _mk('*', (a, b), lo, _up(m * m) if m < 1e150 else INF)
    al, ah = bounds(a)
    bl, bh = bounds(b)
    lo, hi = _imul(al, ah, bl, bh)
    return _mk('*', (a, b), lo, hi)


def div_nz(a, b):
    """a/b with b known non-zero (the caller has put b != 0 on the path)."""
    ta = type(a) is float
    tb = type(b) is float
    if ta and tb:
        return a / b
    if a is b:
        return 1.0
    if ta and a == 0.0:
        return 0.0
    if tb:
        if b == 1.0:
            return a
        if b == -1.0:
            return neg(a)
        if b in (INF, -INF):
            return 0.0
        if b != b:
            return b
    if ta and (a != a):
        return a
    if ta and a in (INF, -INF):
        if b.lo >= 0:
            return a
        if b.hi <= 0:
            return -a
        raise Unsupported("inf / symbolic")
    al, ah = bounds(a)
    bl, bh = bounds(b)
    if bl > 0 or bh < 0:
        lo, hi = _imul(al, ah, _down(1.0 / bh if bh not in (INF, -INF) else 0.0), _up(1.0 / bl if bl not in (INF, -INF) else 0.0))
    elif al >= 0 and bl >= 0:
        lo, hi = 0.0, INF
    else:
        lo, hi = -INF, INF
    return _mk('/', (a, b), lo, hi)


def fn(name, *args):
    """Uninterpreted/axiomatised function node."""
    if name in ('sin', 'cos') and type(args[0]) is R:
        lo, hi = bounds(args[0])
        if (-1.5707 < lo and hi < 1.5707) if name == 'sin' else (0 <= lo and hi < 3.1415):
            t = _trigargs.setdefault(name, [])
            if args[0] not in t and len(t) < 12:
                t.append(args[0])
    return _mk('f', (name,) + args, *_fnbounds(name, args))


def inv_trig(name, v):
    """e when v is sin(e) (for asin) or cos(e) (for acos) for a known angle e in the principal range."""
    t = 'sin' if name == 'asin' else 'cos'
    for e in _trigargs.get(t, ()):
        try:
            d = padd(poly(v), poly(fn(t, e)), -1)
        except Exception:
            continue
        if not d or not pclear(d):
            return e
    return None


def _fnbounds(name, args):
    if name in ('sin', 'cos'):
        return -1.0, 1.0
    if name == 'tanh':
        return -1.0, 1.0
    if name == 'erf':
        return -1.0, 1.0
    if name in ('asin', 'atan', 'acos'):
        lo, hi = bounds(args[0])
        if name != 'atan':
            lo, hi = max(lo, -1.0), min(hi, 1.0)
            if lo > hi:
                lo, hi = -1.0, 1.0
        f = getattr(math, name)
        a, b = (f(lo), f(hi)) if name != 'acos' else (f(hi), f(lo))
        a, b = a - abs(a) * 1e-15, b + abs(b) * 1e-15
        return (max(a, -1.5707963267948968), min(b, 1.5707963267948968)) if name != 'acos' else (max(a, 0.0), min(b, 3.1415926535897936))
    if name == 'atan2':
        if bounds(args[1])[0] > 0:
            return -1.5707963267948968, 1.5707963267948968
        return -3.1415926535897936, 3.1415926535897936
    lo, hi = bounds(args[0]) if args else (-INF, INF)
    if name == 'sqrt':
        return (_down(math.sqrt(lo)) if lo > 0 else 0.0), (_up(math.sqrt(hi)) if 0 <= hi < INF else INF)
    if name == 'exp':
        try:
            h = _up(math.exp(hi)) * (1 + 1e-14)
        except OverflowError:
            h = INF
        try:
            l = math.exp(lo) * (1 - 1e-14) if lo > -INF else 0.0
        except OverflowError:
            l = 0.0
        return l, h
    if name == 'log':
        return (math.log(lo) - abs(math.log(lo)) * 1e-14 - 1e-14 if lo > 0 else -INF), (math.log(hi) + abs(math.log(hi)) * 1e-14 + 1e-14 if 0 < hi < INF else INF)
    if name == 'log10':
        return (math.log10(lo) - abs(math.log10(lo)) * 1e-14 - 1e-14 if lo > 0 else -INF), (math.log10(hi) + abs(math.log10(hi)) * 1e-14 + 1e-14 if 0 < hi < INF else INF)
    if name in ('pow', 'cbrt'):
        bl = bounds(args[0])[0]
        if bl >= 0:
            return 0.0, INF
        return -INF, INF
    return -INF, INF


# ---------------------------------------------------------------------------------------------- comparisons
class B:
    """Boolean atom over reals (lt/le/eq) or a wrapped z3 Bool, plus not/and/or."""
    __slots__ = ('op', 'a', 'b', '_z', '_deps')

    def __init__(self, op, a, b=None):
        self.op = op
        self.a = a
        self.b = b
        self._z = None
        self._deps = None

    def __repr__(self):
        if self.op == 'z':
            return str(self.a)
        if self.op == 'not':
            return 'not ' + repr(self.a)
        return '%s(%s, %s)' % (self.op, show(self.a) if not isinstance(self.a, B) else self.a, show(self.b) if not isinstance(self.b, B) else self.b)


def _isnan(x):
    return type(x) is float and x != x


def cmp(op, a, b):
    """op in lt, le, eq. Returns int or B. NaN -> 0 (ordered)."""
    if type(a) is float and type(b) is float:
        return int(a < b if op == 'lt' else a <= b if op == 'le' else a == b)
    if _isnan(a) or _isnan(b):
        return 0
    if a is b:
        return 0 if op == 'lt' else 1
    al, ah = bounds(a)
    bl, bh = bounds(b)
    if op == 'lt':
        if ah < bl:
            return 1
        if al >= bh:
            return 0
    elif op == 'le':
        if ah <= bl:
            return 1
        if al > bh:
            return 0
    else:
        if ah < bl or al > bh:
            return 0
    # monotone rewrites against constants
    r = _mono(op, a, b)
    if r is not None:
        return r
    return B(op, a, b)


def _neg_of(x):
    """u if x is -u for a function node u"""
    if type(x) is R and x.op == '*':
        for k, u in (x.args, x.args[::-1]):
            if type(k) is float and k == -1.0 and type(u) is R and u.op == 'f':
                return u
    return None


def _mono(op, a, b):
    if type(b) is float and _neg_of(a) is not None:
        return cmp(op, -b, _neg_of(a))
    if type(a) is float and _neg_of(b) is not None:
        return cmp(op, _neg_of(b), -a)
    if type(b) is float and type(a) is R and a.op == 'f':
        nm, x = a.args[0], a.args[1]
        if nm == 'acos':
            if b > math.pi:
                return 1 if op != 'eq' else 0
            if b < 0:
                return 0
            return cmp(op, math.cos(b), x)
        if nm == 'asin':
            if b > math.pi / 2:
                return 1 if op != 'eq' else 0
            if b < -math.pi / 2:
                return 0
            return cmp(op, x, math.sin(b))
        if nm == 'exp':
            if b <= 0:
                return 0
            return cmp(op, x, math.log(b))
        if nm == 'log':
            if b < 700:
                return cmp(op, x, math.exp(b))
        if nm == 'log10' and b < 300:
            return cmp(op, x, 10.0 ** b)
        if nm == 'atan' and abs(b) < math.pi / 2:
            return cmp(op, x, math.tan(b))
        if nm == 'atan2' and bounds(a.args[2])[0] > 0:
            if abs(b) < math.pi / 2:
                return cmp(op, x, mul(a.args[2], math.tan(b)))
            return int(b > 0 and op != 'eq')
        if nm == 'sqrt':
            if b < 0:
                return 0
            if b == 0 or b > 1e-150:
                return cmp(op, x, b * b)
    if type(a) is float and type(b) is R and b.op == 'f':
        nm, x = b.args[0], b.args[1]
        if nm == 'acos':
            if a > math.pi:
                return 0
            if a < 0:
                return 1 if op != 'eq' else 0
            return cmp(op, x, math.cos(a))
        if nm == 'asin':
            if a > math.pi / 2:
                return 0
            if a < -math.pi / 2:
                return 1 if op != 'eq' else 0
            return cmp(op, math.sin(a), x)
        if nm == 'exp':
            if a <= 0:
                return 1 if op != 'eq' else 0
            return cmp(op, math.log(a), x)
        if nm == 'log' and a < 700:
            return cmp(op, math.exp(a), x)
        if nm == 'log10' and a < 300:
            return cmp(op, 10.0 ** a, x)
        if nm == 'atan' and abs(a) < math.pi / 2:
            return cmp(op, math.tan(a), x)
        if nm == 'atan2' and bounds(b.args[2])[0] > 0:
            if abs(a) < math.pi / 2:
                return cmp(op, mul(b.args[2], math.tan(a)), x)
            return int(a < 0 and op != 'eq')
        if nm == 'sqrt':
            if a < 0:
                return 1 if op != 'eq' else 0
            if a == 0 or a > 1e-150:
                return cmp(op, a * a, x)
    if type(a) is R and type(b) is R and op != 'eq':
        # angle comparisons: acos(x) - u against v, with u + v inside the range of the principal value
        for s, t, flip in ((a, b, False), (b, a, True)):
            f, e = s, t
            if s.op == '-' and type(s.args[0]) is R and s.args[0].op == 'f' and s.args[0].args[0] in ('acos', 'asin'):
                f, e = s.args[0], add(t, s.args[1])
            elif s.op == '+':
                for i in (0, 1):
                    w = s.args[i]
                    if type(w) is R and w.op == 'f' and w.args[0] in ('acos', 'asin'):
                        o = s.args[1 - i]
                        if type(o) is R and o.op == '*' and o.args[0] == -1.0 or type(o) is float:
                            f, e = w, sub(t, o)
                        break
            if f.op != 'f' or f.args[0] not in ('acos', 'asin') or type(e) is float:
                continue
            lo, hi = bounds(e)
            if f.args[0] == 'acos' and 0 <= lo and hi <= 3.14159:
                c = fn('cos', e)
                return cmp(op, f.args[1], c) if flip else cmp(op, c, f.args[1])
            if f.args[0] == 'asin' and -1.570796 <= lo and hi <= 1.570796:
                c = fn('sin', e)
                return cmp(op, c, f.args[1]) if flip else cmp(op, f.args[1], c)
    if type(a) is R and type(b) is R and a.op == 'f' and b.op == 'f' and a.args[0] == b.args[0]:
        nm = a.args[0]
        if nm in ('acos',):
            return cmp(op, b.args[1], a.args[1])
        if nm in ('asin', 'exp', 'log', 'log10', 'atan', 'sqrt'):
            return cmp(op, a.args[1], b.args[1])
    return None


def b_not(x):
    if type(x) is int:
        return 1 - x
    if x.op == 'not':
        return x.a
    if x.op == 'lt':
        return B('le', x.b, x.a)
    if x.op == 'le':
        return B('lt', x.b, x.a)
    if x.op == 'z':
        return B('z', z3.Not(x.a))
    return B('not', x)


def b_and(x, y):
    if type(x) is int:
        return y if x else 0
    if type(y) is int:
        return x if y else 0
    return B('and', x, y)


def b_or(x, y):
    if type(x) is int:
        return 1 if x else y
    if type(y) is int:
        return 1 if y else x
    return B('or', x, y)


def b_xor(x, y):
    if type(x) is int:
        return b_not(y) if x else y
    if type(y) is int:
        return b_not(x) if y else x
    return b_or(b_and(x, b_not(y)), b_and(b_not(x), y))


def bz(b):
    """z3 expression of a B (or int)."""
    if type(b) is int:
        return z3.BoolVal(bool(b))
    if b._z is not None:
        return b._z
    op = b.op
    if op == 'z':
        z = b.a
    elif op == 'lt':
        z = rz(b.a) < rz(b.b)
    elif op == 'le':
        z = rz(b.a) <= rz(b.b)
    elif op == 'eq':
        z = rz(b.a) == rz(b.b)
    elif op == 'not':
        z = z3.Not(bz(b.a))
    elif op == 'and':
        z = z3.And(bz(b.a), bz(b.b))
    elif op == 'or':
        z = z3.Or(bz(b.a), bz(b.b))
    b._z = z
    return z


def bdeps(b):
    if type(b) is int:
        return frozenset()
    if b._deps is not None:
        return b._deps
    if b.op == 'z':
        d = frozenset()
    elif b.op == 'not':
        d = bdeps(b.a)
    elif b.op in ('and', 'or'):
        d = bdeps(b.a) | bdeps(b.b)
    else:
        d = rdeps(b.a) | rdeps(b.b)
    b._deps = d
    return d


# ---------------------------------------------------------------------------------------------- z3 export
def fz(x):
    fr = Fraction(x)
    return z3.Q(fr.numerator, fr.denominator) if fr.denominator != 1 else z3.RealVal(fr.numerator)


def fzq(fr):
    return z3.Q(fr.numerator, fr.denominator) if fr.denominator != 1 else z3.RealVal(fr.numerator)


def rz(x):
    if type(x) is float:
        if x != x or x in (INF, -INF):
            raise Unsupported("non-finite in z3 term")
        return fz(x)
    if x._z is not None:
        return x._z
    # iterative
    st = [x]
    while st:
        n = st[-1]
        if n._z is not None:
            st.pop()
            continue
        pend = [a for a in n.args if type(a) is R and a._z is None]
        if pend and n.op != 'v':
            st.extend(pend)
            continue
        st.pop()
        a = n.args
        if n.op == 'v':
            n._z = z3.Real(a[0])
        elif n.op == '+':
            n._z = rz(a[0]) + rz(a[1])
        elif n.op == '-':
            n._z = rz(a[0]) - rz(a[1])
        elif n.op == '*':
            n._z = rz(a[0]) * rz(a[1])
        elif n.op == '/':
            if type(a[1]) is float:
                n._z = rz(a[0]) * fzq(1 / Fraction(a[1]))
            else:
                n._z = z3.Real('q!%d' % n.id)
        elif n.op == 'f':
            n._z = z3.Real('%s!%d' % (a[0], n.id))
        elif n.op == 'i2r':
            n._z = a[0]
    return x._z


def sides(n):
    """Side constraints defining node n's fresh constant."""
    if n.side is not None:
        return n.side
    z = rz(n)
    out = []
    a = n.args
    if n.op == 'v':
        if n.lo > -INF:
            out.append(z >= fz(n.lo))
        if n.hi < INF:
            out.append(z <= fz(n.hi))
        if n.id in _unit:
            out.append(z3.Sum([rz(t) * rz(t) for t in _unit[n.id]]) == 1)
    elif n.op == '/':
        if type(a[1]) is not float:
            out.append(z * rz(a[1]) == rz(a[0]))
            out.append(rz(a[1]) != 0)
    elif n.op == 'f':
        nm = a[0]
        if nm == 'sqrt':
            out.append(z >= 0)
            out.append(z * z == rz(a[1]))
        elif nm in ('sin', 'cos'):
            s = fn('sin', a[1])
            c = fn('cos', a[1])
            out.append(rz(s) * rz(s) + rz(c) * rz(c) == 1)
            out.append(z <= 1)
            out.append(z >= -1)
            if nm == 'sin':
                t = rz(a[1])
                out.append(z3.Implies(t > 0, z < t))
                out.append(z3.Implies(t < 0, z > t))
                pi_lo = z3.Q(31415926535897931, 10 ** 16)
                out.append(z3.Implies(z3.And(t > 0, t < pi_lo), z > 0))
                out.append(z3.Implies(z3.And(t < 0, t > -pi_lo), z < 0))
                out.append(z3.Implies(t == 0, z == 0))
            else:
                t = rz(a[1])
                hp = z3.Q(15707963267948966, 10 ** 16)
                out.append(z3.Implies(z3.And(t > -hp, t < hp), z > 0))
                out.append(z3.Implies(t == 0, z == 1))
                out.append(z >= 1 - t * t / 2)
        elif nm in ('acos', 'asin', 'atan', 'atan2', 'exp', 'log', 'log10', 'erf', 'tanh'):
            lo, hi = n.lo, n.hi
            if lo > -INF:
                out.append(z >= fz(lo))
            if hi < INF:
                out.append(z <= fz(hi))
            x = rz(a[1])
            if nm == 'exp':
                out.append(z > 0)
                out.append(z >= 1 + x)
                out.append(z3.Implies(x < 0, z < 1))
                out.append(z3.Implies(x == 0, z == 1))
            if nm in ('log', 'log10'):
                out.append(z3.Implies(x > 1, z > 0))
                out.append(z3.Implies(x < 1, z < 0))
                out.append(z3.Implies(x == 1, z == 0))
            if nm in ('asin', 'atan', 'erf', 'tanh'):
                out.append(z3.Implies(x > 0, z > 0))
                out.append(z3.Implies(x < 0, z < 0))
                out.append(z3.Implies(x == 0, z == 0))
            if nm == 'acos':
                hp = z3.Q(15707963267948966, 10 ** 16)
                hp2 = z3.Q(15707963267948967, 10 ** 16)
                out.append(z3.Implies(x > 0, z < hp2))
                out.append(z3.Implies(x < 0, z > hp))
                out.append(z3.Implies(x == 1, z == 0))
                out.append(z3.Implies(x < 1, z > 0))
            if nm == 'atan2':
                y, xx = x, rz(a[2])
                out.append(z3.Implies(y > 0, z > 0))
                out.append(z3.Implies(y < 0, z < 0))
                hp = z3.Q(15707963267948966, 10 ** 16)
                hp2 = z3.Q(15707963267948967, 10 ** 16)
                out.append(z3.Implies(xx > 0, z3.And(z > -hp2, z < hp2)))
                out.append(z3.Implies(z3.And(xx < 0, y >= 0), z > hp))
                out.append(z3.Implies(z3.And(xx < 0, y < 0), z < -hp))
                out.append(z3.Implies(z3.And(y == 0, xx > 0), z == 0))
        elif nm in ('pow', 'cbrt', 'fabs'):
            if n.lo >= 0:
                out.append(z >= 0)
                if bounds(a[1])[0] > 0:
                    out.append(z > 0)
        elif nm.startswith('ext:'):
            pass
    n.side = out
    return out


def rdeps(x):
    """All nodes below x that carry side constraints (vars with bounds, divisions, functions)."""
    if type(x) is not R:
        return frozenset()
    if x._deps is not None:
        return x._deps
    st = [x]
    while st:
        n = st[-1]
        if n._deps is not None:
            st.pop()
            continue
        pend = [a for a in n.args if type(a) is R and a._deps is None]
        if pend:
            st.extend(pend)
            continue
        st.pop()
        s = set()
        for a in n.args:
            if type(a) is R:
                s |= a._deps
        if n.op == 'v' or n.op == 'f' or (n.op == '/' and type(n.args[1]) is not float):
            s.add(n)
        n._deps = frozenset(s)
    return x._deps


def congruence(nodes):
    """Pairwise congruence / monotonicity axioms for function applications in `nodes` (bounded)."""
    by = {}
    for n in nodes:
        if n.op == 'f' and n.args[0] not in ('sqrt',):
            by.setdefault((n.args[0], len(n.args)), []).append(n)
    out = []
    for (nm, k), l in by.items():
        if len(l) > 6:
            l = l[:6]
        for i in range(len(l)):
            for j in range(i):
                p, q = l[i], l[j]
                eq = z3.And(*[rz(x) == rz(y) for x, y in zip(p.args[1:], q.args[1:])])
                out.append(z3.Implies(eq, rz(p) == rz(q)))
                if k == 2 and nm in ('exp', 'log', 'log10', 'asin', 'atan', 'erf', 'tanh', 'cbrt'):
                    out.append((rz(p.args[1]) < rz(q.args[1])) == (rz(p) < rz(q)))
                if k == 2 and nm == 'acos':
                    out.append((rz(p.args[1]) < rz(q.args[1])) == (rz(q) < rz(p)))
                if nm in ('sin', 'cos'):
                    dt = rz(p.args[1]) - rz(q.args[1])
                    df = rz(p) - rz(q)
                    out.append(z3.Or(z3.And(dt >= 0, df <= dt, df >= -dt), z3.And(dt <= 0, df >= dt, df <= -dt)))
                if nm == 'pow' and type(p.args[2]) is float and p.args[2] == q.args[2] and bounds(p.args[1])[0] >= 0 and bounds(q.args[1])[0] >= 0 and p.args[2] > 0:
                    out.append((rz(p.args[1]) < rz(q.args[1])) == (rz(p) < rz(q)))
                if nm == 'pow' and type(p.args[1]) is float and p.args[1] == q.args[1] and p.args[1] > 1:
                    out.append((rz(p.args[2]) < rz(q.args[2])) == (rz(p) < rz(q)))
    return out


# ---------------------------------------------------------------------------------------------- numeric evaluation
def evalf(x, env):
    """Evaluate with Python floats; env: var name -> float."""
    memo = {}

    def go(root):
        st = [root]
        while st:
            n = st[-1]
            if type(n) is float or n.id in memo:
                st.pop()
                continue
            pend = [a for a in n.args if type(a) is R and a.id not in memo]
            if pend:
                st.extend(pend)
                continue
            st.pop()
            v = [memo[a.id] if type(a) is R else a for a in n.args]
            try:
                if n.op == 'v':
                    r = env.get(n.args[0])
                    if r is None:
                        r = 0.0
                elif n.op == '+':
                    r = v[0] + v[1]
                elif n.op == '-':
                    r = v[0] - v[1]
                elif n.op == '*':
                    r = v[0] * v[1]
                elif n.op == '/':
                    r = v[0] / v[1] if v[1] != 0 else NAN
                elif n.op == 'f':
                    r = apply_native(v[0], v[1:])
                else:
                    r = NAN
            except (OverflowError, ValueError, ZeroDivisionError):
                r = NAN
            memo[n.id] = r
        return root if type(root) is float else memo[root.id]
    return go(x)


def apply_native(nm, v):
    f = {'sin': math.sin, 'cos': math.cos, 'sqrt': math.sqrt, 'acos': math.acos, 'asin': math.asin, 'atan': math.atan,
         'atan2': math.atan2, 'exp': math.exp, 'log': math.log, 'log10': math.log10, 'erf': math.erf, 'pow': math.pow,
         'tanh': math.tanh, 'tan': math.tan, 'fabs': abs}.get(nm)
    if f is None:
        if nm == 'cbrt':
            return math.copysign(abs(v[0]) ** (1 / 3), v[0])
        return NAN
    return f(*v)


def evalb(b, env):
    if type(b) is int:
        return bool(b)
    if b.op == 'lt':
        return evalf(b.a, env) < evalf(b.b, env)
    if b.op == 'le':
        return evalf(b.a, env) <= evalf(b.b, env)
    if b.op == 'eq':
        return evalf(b.a, env) == evalf(b.b, env)
    if b.op == 'not':
        return not evalb(b.a, env)
    if b.op == 'and':
        return evalb(b.a, env) and evalb(b.b, env)
    if b.op == 'or':
        return evalb(b.a, env) or evalb(b.b, env)
    return None


# ---------------------------------------------------------------------------------------------- polynomial normal form
# poly: dict monomial -> Fraction ; monomial: tuple of (atom_id, exp) sorted by atom_id, exp != 0
_patoms = []      # atom id -> ('n', node) | ('sqrt', poly) | ('sin'/'cos', key) | ('den', poly) | ('exp', ..)
_patom_key = {}
_pcanon = {}
_unit = {}        # node id of the last component of a unit vector -> tuple of all component nodes
_bcache = {}
MAXT = 12000
ONE = ()


def patom(kind, key, payload):
    k = (kind, key)
    i = _patom_key.get(k)
    if i is None:
        i = len(_patoms)
        _patoms.append((kind, payload))
        _patom_key[k] = i
    return i


def pkey(p):
    return frozenset(p.items())


def padd(p, q, s=1):
    if len(p) < len(q) and s == 1:
        p, q = q, p
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + (c if s == 1 else -c)
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        v = d.get(a, 0) + e
        if v == 0:
            d.pop(a, None)
        else:
            d[a] = v
    return tuple(sorted(d.items()))


def pmul(p, q):
    if len(p) * len(q) > MAXT * 20:
        raise TooBig()
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = mmul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
        if len(r) > MAXT:
            raise TooBig()
    return preduce(r)


def pconst(c):
    return {ONE: Fraction(c)} if c else {}


def pscale(p, c):
    return {m: v * c for m, v in p.items()} if c else {}


def redex(a):
    k = _patoms[a][0]
    return k in ('sqrt', 'sin', 'unit')


def preduce(p):
    """Apply s^2 -> arg for sqrt atoms, sin^2 -> 1-cos^2, u_n^2 -> 1 - sum u_i^2 for unit vectors (positive exponents)."""
    work = None
    for m in p:
        for a, e in m:
            if e >= 2 and redex(a):
                work = True
                break
        if work:
            break
    if not work:
        return p
    out = {}
    todo = dict(p)
    n = 0
    while todo:
        m, c = todo.popitem()
        hit = None
        for a, e in m:
            k = _patoms[a][0]
            if e >= 2 and k in ('sqrt', 'sin', 'unit'):
                hit = (a, e, k)
                break
        if hit is None:
            v = out.get(m, 0) + c
            if v == 0:
                out.pop(m, None)
            else:
                out[m] = v
            continue
        a, e, k = hit
        rest = tuple((x, y) for x, y in m if x != a)
        if e - 2:
            rest = tuple(sorted(rest + ((a, e - 2),)))
        if k == 'sqrt':
            repl = _patoms[a][1]
        elif k == 'unit':
            repl = {ONE: Fraction(1)}
            for t in _unit[_patoms[a][1].id][:-1]:
                repl[((patom('n', t.id, t), 2),)] = Fraction(-1)
        else:
            ca = patom('cos', _patoms[a][1][0], _patoms[a][1])
            repl = {ONE: Fraction(1), ((ca, 2),): Fraction(-1)}
        for m2, c2 in repl.items():
            mm = mmul(rest, m2)
            v = todo.get(mm, 0) + c * c2
            if v == 0:
                todo.pop(mm, None)
            else:
                todo[mm] = v
        n += 1
        if n > 200000 or len(todo) + len(out) > MAXT * 2:
            raise TooBig()
    return out


def pinv(p):
    """1/p as a polynomial (with negative exponents / den atoms)."""
    if len(p) == 1:
        (m, c), = p.items()
        return {tuple((a, -e) for a, e in m): 1 / c}
    lead = min(p)
    lc = p[lead]
    q = pscale(p, 1 / lc)
    a = patom('den', pkey(q), q)
    return {((a, -1),): 1 / lc}


COARSE = False   # coarse mode: sin/cos of a sum are opaque atoms (no angle addition); sound, less complete, much smaller
_pcoarse = {}


def coarse(f, *a):
    global COARSE
    COARSE = True
    try:
        return f(*a)
    finally:
        COARSE = False


def _pget(n):
    return _pcoarse.get(n.id) if COARSE else n._poly


def _pset(n, v):
    if COARSE:
        _pcoarse[n.id] = v
    else:
        n._poly = v


def poly(x):
    if type(x) is float:
        if x != x or x in (INF, -INF):
            raise TooBig()
        return pconst(Fraction(x))
    v = _pget(x)
    if v is not None:
        if v == 'big':
            raise TooBig()
        return v
    st = [x]
    while st:
        n = st[-1]
        v = _pget(n)
        if v is not None:
            if v == 'big':
                _pset(x, 'big')
                raise TooBig()
            st.pop()
            continue
        pend = [a for a in n.args if type(a) is R and _pget(a) is None]
        if pend:
            st.extend(pend)
            continue
        st.pop()
        try:
            _pset(n, _poly1(n))
        except TooBig:
            _pset(n, 'big')
            _pset(x, 'big')
            raise
    return _pget(x)


def _poly1(n):
    a = n.args
    if n.op == 'v' and n.id in _unit:
        return {((patom('unit', n.id, n), 1),): Fraction(1)}
    if n.op == 'v' or n.op == 'i2r':
        return {((patom('n', n.id, n), 1),): Fraction(1)}
    if n.op == '+':
        return padd(poly(a[0]), poly(a[1]))
    if n.op == '-':
        return padd(poly(a[0]), poly(a[1]), -1)
    if n.op == '*':
        if type(a[1]) is float:
            return pscale(poly(a[0]), Fraction(a[1]))
        return pmul(poly(a[0]), poly(a[1]))
    if n.op == '/':
        if type(a[1]) is float:
            return pscale(poly(a[0]), 1 / Fraction(a[1]))
        d = poly(a[1])
        if not d:
            raise TooBig()
        return pmul(poly(a[0]), pinv(d))
    if n.op == 'f':
        nm = a[0]
        if nm == 'sqrt':
            return psqrt(poly(a[1]))
        if nm in ('sin', 'cos'):
            return ptrig(nm, poly(a[1]))
        if nm == 'exp':
            p = poly(a[1])
            r = pconst(1)
            for m, c in p.items():
                s = 1
                if c < 0:
                    s, c = -1, -c
                r = pmul(r, {((patom('exp', (m, c), (m, c)), s),): Fraction(1)})
            return r
        # other functions: canonicalise on argument polynomials
        key = (nm,) + tuple(pkey(poly(t)) for t in a[1:])
        c = _pcanon.get(key)
        if c is None:
            c = n
            _pcanon[key] = n
        return {((patom('n', c.id, c), 1),): Fraction(1)}
    raise TooBig()


def psqrt(p):
    """square root of a polynomial; exact for perfect-square monomials of known sign, k*(1-cos^2) and constants"""
    r = _psqrt1(p)
    if r is not None:
        return r
    return {((patom('sqrt', pkey(p), p), 1),): Fraction(1)}


def _fsqrt(c):
    if c < 0:
        return None
    a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if a * a == c.numerator and b * b == c.denominator:
        return Fraction(a, b)
    return None


def _psqrt1(p):
    if not p:
        return {}
    if len(p) == 2:
        # k*m^2*(1 - cos^2) = k*m^2*sin^2
        (m1, c1), (m2, c2) = sorted(p.items(), key=lambda t: len(t[0]))
        if c1 == -c2:
            d = dict(m2)
            for a, e in m2:
                if e >= 2 and _patoms[a][0] == 'cos':
                    d2 = dict(d)
                    d2[a] -= 2
                    if not d2[a]:
                        del d2[a]
                    if d2 == dict(m1):
                        sa = patom('sin', _patoms[a][1][0], _patoms[a][1])
                        return _psqrt1({mmul(m1, ((sa, 2),)): c1})
    if len(p) != 1:
        # pull out a common monomial factor with even exponents and known sign
        mn = {}
        for j, m in enumerate(p):
            d = dict(m)
            if j == 0:
                mn = {a: e for a, e in d.items()}
            else:
                for a in list(mn):
                    mn[a] = min(mn[a], d.get(a, 0))
                for a, e in d.items():
                    if e < 0 and a not in mn:
                        mn[a] = e
        f, out = [], []
        for a, e in mn.items():
            e2 = e - (e % 2)
            if not e2:
                continue
            if (e2 // 2) % 2 and atom_bounds(a)[0] < 0:
                continue
            f.append((a, -e2))
            out.append((a, e2 // 2))
        if f:
            f = tuple(sorted(f))
            q = preduce({mmul(m, f): c for m, c in p.items()})
            return pmul({tuple(sorted(out)): Fraction(1)}, psqrt(q))
        return None
    (m, c), = p.items()
    k = _fsqrt(c)
    if k is None:
        f = Fraction(1)
        rest = c
        return None if m == ONE or any(e % 2 for _, e in m) else _sq_mono(m, None, c)
    if any(e % 2 for _, e in m):
        return None
    return _sq_mono(m, k, None)


def _sq_mono(m, k, c):
    out, sg = [], 1
    for a, e in m:
        h = e // 2
        if h % 2:
            lo, hi = atom_bounds(a)
            if hi <= 0:
                sg = -sg
            elif lo < 0:
                return None
        out.append((a, h))
    r = {tuple(out): Fraction(sg) * (k if k is not None else 1)}
    if k is None:
        r = pmul(r, {((patom('sqrt', pkey(pconst(c)), pconst(c)), 1),): Fraction(1)})
    return r


def consttrig(c):
    """sin/cos of a rational constant to 40 digits"""
    r = _ctrig.get(c)
    if r is None:
        import mpmath
        with mpmath.workdps(60):
            x = mpmath.mpf(c.numerator) / mpmath.mpf(c.denominator)
            q = 10 ** 40
            r = (Fraction(int(mpmath.nint(mpmath.sin(x) * q)), q), Fraction(int(mpmath.nint(mpmath.cos(x) * q)), q))
        _ctrig[c] = r
    return r


_ctrig = {}
_tbase = {}


def ptrig(nm, p):
    if not p:
        return {} if nm == 'sin' else pconst(1)
    items = sorted(p.items(), key=lambda t: t[0])
    if COARSE and (len(items) > 1 or ONE not in p):
        if items[0][1] < 0:
            r = ptrig(nm, pscale(p, -1))
            return pscale(r, -1) if nm == 'sin' else r
        key = pkey(p)
        return {((patom(nm, key, (key, p)), 1),): Fraction(1)}
    if ONE in p and 1 < len(items) <= 4 and abs(p[ONE]) < 1000:
        p2 = dict(p)
        c = p2.pop(ONE)
        s1, c1 = consttrig(c)
        s2, c2 = ptrig('sin', p2), ptrig('cos', p2)
        if nm == 'sin':
            return padd(pscale(s2, c1), pscale(c2, s1))
        return padd(pscale(c2, c1), pscale(s2, s1), -1)
    if len(items) > 1 and len(items) <= 4 and ONE not in p:
        m, c = items[0]
        p1 = {m: c}
        p2 = dict(items[1:])
        s1, c1, s2, c2 = ptrig('sin', p1), ptrig('cos', p1), ptrig('sin', p2), ptrig('cos', p2)
        if nm == 'sin':
            return padd(pmul(s1, c2), pmul(c1, s2))
        return padd(pmul(c1, c2), pmul(s1, s2), -1)
    if len(items) == 1 and ONE in p and abs(p[ONE]) < 1000:
        return pconst(consttrig(p[ONE])[0 if nm == 'sin' else 1])
    if len(items) == 1:
        m, c = items[0]
        # sin/cos of inverse functions
        if len(m) == 1 and m[0][1] == 1 and _patoms[m[0][0]][0] == 'n' and m != ONE:
            node = _patoms[m[0][0]][1]
            if node.op == 'f' and node.args[0] in ('acos', 'asin', 'atan2', 'atan') and c in (1, -1):
                r = _trig_inv(nm, node)
                if r is not None:
                    if c == -1 and nm == 'sin':
                        r = pscale(r, -1)
                    return r
        k = base = None
        if m != ONE:
            bases = _tbase.setdefault(m, [Fraction(1, 2)])
            for b in bases:
                if (c / b).denominator == 1 and abs(c / b) <= 12:
                    k, base = int(c / b), b
                    break
            if k is None and len(bases) < 6:
                base = abs(c) / 2
                bases.append(base)
                k = 2 if c > 0 else -2
        if k is not None:
            unit = {m: base}
            key = pkey(unit)
            sa = patom('sin', key, (key, unit))
            ca = patom('cos', key, (key, unit))
            s, cc = {((sa, 1),): Fraction(1)}, {((ca, 1),): Fraction(1)}
            if len(m) == 1 and m[0][1] == 1 and _patoms[m[0][0]][0] == 'n':
                node = _patoms[m[0][0]][1]
                if base == Fraction(1, 2) and node.op == 'f' and node.args[0] == 'acos':
                    x = poly(node.args[1])
                    s = psqrt(pscale(padd(pconst(1), x, -1), Fraction(1, 2)))
                    cc = psqrt(pscale(padd(pconst(1), x), Fraction(1, 2)))
            rs, rc = {}, pconst(1)
            for _ in range(abs(k)):
                rs, rc = padd(pmul(rs, cc), pmul(rc, s)), padd(pmul(rc, cc), pmul(rs, s), -1)
            if k < 0:
                rs = pscale(rs, -1)
            return rs if nm == 'sin' else rc
        if c < 0:
            r = ptrig(nm, {m: -c})
            return pscale(r, -1) if nm == 'sin' else r
    else:
        lead = items[0][1]
        if lead < 0:
            r = ptrig(nm, pscale(p, -1))
            return pscale(r, -1) if nm == 'sin' else r
    key = pkey(p)
    return {((patom(nm, key, (key, p)), 1),): Fraction(1)}


def _trig_inv(nm, node):
    f = node.args[0]
    if f in ('acos', 'asin'):
        x = node.args[1]
        other = fn('sqrt', sub(1.0, mul(x, x)))
        if (f == 'acos') == (nm == 'cos'):
            return poly(x)
        return poly(other)
    if f == 'atan2':
        y, x = node.args[1], node.args[2]
        r = fn('sqrt', add(mul(x, x), mul(y, y)))
        return poly(div_nz(y if nm == 'sin' else x, r))
    if f == 'atan':
        y = node.args[1]
        r = fn('sqrt', add(1.0, mul(y, y)))
        return poly(div_nz(y if nm == 'sin' else 1.0, r))
    return None


def pclear(p):
    """Multiply p by enough positive powers to clear negative exponents; returns the numerator (reduced).
    p == 0 (under non-zero denominators) iff the numerator == 0."""
    for _ in range(60):
        worst = {}
        for m in p:
            for a, e in m:
                if e < 0 and e < worst.get(a, 0):
                    worst[a] = e
        if not worst:
            return p
        # the youngest den/sqrt atom first (outermost)
        a = max(worst)
        e = -worst[a]
        kind, payload = _patoms[a]
        r = {}
        if kind == 'den':
            base = payload
        elif kind == 'sqrt':
            if e % 2:
                e += 1
            base = None
        else:
            base = None
        pw = {}
        if kind == 'den':
            pw[0] = pconst(1)
            for i in range(1, e + 1):
                pw[i] = pmul(pw[i - 1], base)
        groups = {}
        for m, c in p.items():
            ex = 0
            rest = []
            for x, y in m:
                if x == a:
                    ex = y
                else:
                    rest.append((x, y))
            groups.setdefault(ex + e, {})[tuple(rest)] = c
        for ex, g in groups.items():
            if kind == 'den':
                r = padd(r, pmul(g, pw[ex]))
            else:
                r = padd(r, pmul(g, {((a, ex),): Fraction(1)} if ex else pconst(1)))
            if len(r) > MAXT:
                raise TooBig()
        p = preduce(r)
    raise TooBig()


def trig_bounds(kind, lo, hi):
    if not (hi - lo < 6.2) or abs(lo) > 100 or abs(hi) > 100:
        return -1.0, 1.0
    f = math.sin if kind == 'sin' else math.cos
    off = math.pi / 2 if kind == 'sin' else 0.0
    a, b = f(lo), f(hi)
    l, h = min(a, b) - 1e-15, max(a, b) + 1e-15
    # extrema of cos(x - off): maxima at off + 2 k pi, minima at off + (2k+1) pi
    k0 = math.floor((lo - off) / math.pi) - 1
    for k in range(k0, k0 + 6):
        x = off + k * math.pi
        if lo - 1e-12 <= x <= hi + 1e-12:
            if k % 2 == 0:
                h = 1.0
            else:
                l = -1.0
    return max(l, -1.0), min(h, 1.0)


PB = None      # one-sided bounds on polynomials known on the current path (only set while bounding a residual, never while building normal forms)


def pb_lookup(p):
    """bounds of polynomial p from PB"""
    q = dict(p)
    c0 = q.pop(ONE, 0)
    if not PB or not q:
        return None, None
    ms = sorted(q)
    k = q[ms[0]]
    r = PB.get(tuple((m, q[m] / k) for m in ms))
    if r is None:
        return None, None
    lo, hi = (None if v is None else float(v * k + c0) for v in r)
    if k < 0:
        lo, hi = hi, lo
    return (None if lo is None else _down(lo)), (None if hi is None else _up(hi))


def pl_bounds(p):
    lo, hi = poly_bounds(p)
    if PB:
        l, h = pb_lookup(p)
        if l is not None and l > lo:
            lo = l
        if h is not None and h < hi:
            hi = h
    return lo, hi


def atom_bounds(a):
    kind, pl = _patoms[a]
    if kind in ('n', 'unit'):
        return pl.lo, pl.hi
    if kind in ('sin', 'cos'):
        r = _bcache.get(a)
        if r is None:
            lo, hi = poly_bounds(pl[1])
            r = trig_bounds(kind, lo, hi)
            _bcache[a] = r
        return r
    if kind == 'sqrt':
        lo, hi = pl_bounds(pl)
        return math.sqrt(max(lo, 0.0)), (math.sqrt(hi) if hi < INF else INF)
    if kind == 'den':
        return pl_bounds(pl)
    if kind == 'exp':
        lo, hi = mono_bounds(pl[0])
        lo, hi = _imul(lo, hi, float(pl[1]), float(pl[1]))
        lo = _down(_down(math.exp(lo))) if lo > -700 else 0.0
        hi = _up(_up(math.exp(hi))) if hi < 700 else INF
        return max(lo, 0.0), hi
    return -INF, INF


def poly_bounds(p):
    lo = hi = 0.0
    for m, c in p.items():
        l, h = mono_bounds(m)
        l, h = _imul(l, h, float(c), float(c))
        lo += l
        hi += h
    return _down(lo), _up(hi)


def mono_bounds(m):
    l, h = 1.0, 1.0
    for a, e in m:
        al, ah = atom_bounds(a)
        if e < 0:
            if al > 0:
                al, ah = (1.0 / ah if ah < INF else 0.0), 1.0 / al
            elif ah < 0:
                al, ah = 1.0 / ah, (1.0 / al if al > -INF else 0.0)
            else:
                return -INF, INF
            e = -e
        if e % 2 == 0:
            m_ = max(abs(al), abs(ah))
            al, ah = (0.0 if al <= 0 <= ah else min(abs(al), abs(ah))), m_
        try:
            al, ah = (al ** e, ah ** e) if al >= 0 or e % 2 else (ah ** e, al ** e)
        except OverflowError:
            return -INF, INF
        l, h = _imul(l, h, al, ah)
    return l, h


_atomz = {}


def patom_z(a):
    return z3.Real('atom!%d' % a)


def poly_z(p):
    """z3 polynomial over atom constants (positive exponents only)."""
    ts = []
    for m, c in p.items():
        f = [z3.Q(c.numerator, c.denominator) if c.denominator != 1 else z3.RealVal(c.numerator)]
        for a, e in m:
            f.extend([patom_z(a)] * e)
        t = f[0]
        for x in f[1:]:
            t = t * x
        ts.append(t)
    if not ts:
        return z3.RealVal(0)
    return z3.Sum(ts) if len(ts) > 1 else ts[0]


def pclear_sign(p):
    """multiply p by a positive quantity clearing negative exponents"""
    worst = {}
    for m in p:
        for a, e in m:
            if e < 0 and e < worst.get(a, 0):
                worst[a] = e
    if not worst:
        return p
    f = []
    for a, e in worst.items():
        k = -e
        lo, _ = atom_bounds(a)
        if lo < 0 and k % 2:
            k += 1
        f.append((a, k))
    f = tuple(sorted(f))
    return preduce({mmul(m, f): c for m, c in p.items()})


def atom_axioms(used):
    """z3 facts about the atoms in `used` (closed under definitions)"""
    out = []
    done = set()
    todo = list(used)
    while todo:
        a = todo.pop()
        if a in done:
            continue
        done.add(a)
        kind, pl = _patoms[a]
        z = patom_z(a)

        def use(p):
            """(z3 monomial M, z3 polynomial p*M) with M clearing negative exponents"""
            worst = {}
            for m in p:
                for x, e in m:
                    if x not in done:
                        todo.append(x)
                    if e < worst.get(x, 0):
                        worst[x] = e
            f = tuple(sorted((x, -e) for x, e in worst.items()))
            if f:
                p = preduce({mmul(m, f): c for m, c in p.items()})
                for m in p:
                    todo.extend(x for x, e in m if x not in done)
            return poly_z({f: Fraction(1)}), poly_z(p)
        lo, hi = atom_bounds(a)
        if kind == 'sqrt':
            mm_, q = use(pl)
            out.append(z >= 0)
            out.append(z * z * mm_ == q)
        elif kind == 'den':
            mm_, q = use(pl)
            out.append(z != 0)
            out.append(z * mm_ == q)
        elif kind in ('sin', 'cos'):
            o = patom('cos' if kind == 'sin' else 'sin', pl[0], pl)
            if kind == 'sin':
                out.append(z * z + patom_z(o) * patom_z(o) == 1)
            todo.append(o)
        elif kind == 'unit':
            ts = []
            for t in _unit[pl.id]:
                i = patom('unit' if t.id in _unit else 'n', t.id, t)
                ts.append(patom_z(i) * patom_z(i))
                todo.append(i)
            out.append(z3.Sum(ts) == 1)
        elif kind == 'exp':
            out.append(z > 0)
        if lo > -INF:
            out.append(z >= fz(lo))
        if hi < INF:
            out.append(z <= fz(hi))
    return out, done


def ashow(a, d=2):
    kind, pl = _patoms[a]
    if kind in ('n', 'unit'):
        return show(pl, 3)
    if d == 0:
        return '%s#%d' % (kind, a)
    if kind in ('sin', 'cos'):
        return '%s[%s]' % (kind, pshow(pl[1], d - 1))
    if kind in ('sqrt', 'den'):
        return '%s[%s]' % (kind, pshow(pl, d - 1))
    return '%s#%d' % (kind, a)


def pshow(p, d=2):
    out = []
    for m, c in list(sorted(p.items()))[:14]:
        out.append('%.6g' % float(c) + ''.join('*%s%s' % (ashow(a, d), '' if e == 1 else '^%d' % e) for a, e in m))
    return ' + '.join(out) + (' ...(%d terms)' % len(p) if len(p) > 14 else '')
