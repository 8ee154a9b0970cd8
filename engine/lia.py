"""Exact translation of bit-vector (and integer-valued floating-point) constraints into linear integer arithmetic.
A bit-vector term of width w becomes (e, lo, hi): an Int expression e congruent to the term modulo 2^w with lo <= e <= hi.
A double becomes (e, k, lo, hi): e * 2^-k exactly, |e| <= 2^53 (so IEEE operations on it are exact or rejected).
Terms outside the fragment become fresh variables (`abstract`), which keeps 'unsat' sound."""
import os

import z3

DBG = os.environ.get('VSYM_LIA')

K = {n: getattr(z3, n) for n in dir(z3) if n.startswith('Z3_OP_')}
MAXF = 1 << 53


def cmpr(o, lo, hi, l2, h2):
    """comparison decided by intervals?"""
    if o == '==':
        return False if hi < l2 or lo > h2 else (True if lo == hi == l2 == h2 else None)
    if o in ('>', '>='):
        return cmpr('<' if o == '>' else '<=', l2, h2, lo, hi)
    if o == '<':
        return True if hi < l2 else False if lo >= h2 else None
    return True if hi <= l2 else False if lo > h2 else None


class Rej(Exception):
    pass


class Lia:
    def __init__(self, ranges):
        self.ranges = ranges  # name -> (lo, hi) of 64-bit inputs
        self.bc, self.fc, self.oc = {}, {}, {}
        self.side = []
        self.n = 0
        self.abstract = 0
        self.vars = {}
        self.tc, self.tn = {}, 0

    def fresh(self, w):
        self.n += 1
        self.abstract += 1
        x = z3.Int('abs!%d' % self.n)
        self.side += [x >= 0, x < (1 << w)]
        return (x, 0, (1 << w) - 1)

    def define(self, e, lo, hi):
        """name a compound expression (keeps terms small)"""
        if z3.is_int_value(e) or (z3.is_const(e) and e.num_args() == 0):
            return e
        self.n += 1
        x = z3.Int('t!%d' % self.n)
        self.side += [x == e, x >= lo, x <= hi]
        return x

    # ---- views
    def U(self, t):
        e, lo, hi = self.bv(t)
        w = t.size()
        if lo >= 0 and hi < (1 << w):
            return e, lo, hi
        q = (lo >> w)
        if q == (hi >> w):
            return e - (q << w), lo - (q << w), hi - (q << w)
        r = self.tighten(t, e, lo, hi, w)
        if r:
            return r
        r = self.define(self.mod(e, 1 << w, lo, hi), 0, (1 << w) - 1)
        return r, 0, (1 << w) - 1

    def S(self, t):
        e, lo, hi = self.bv(t)
        w = t.size()
        h = 1 << (w - 1)
        if lo >= -h and hi < h:
            return e, lo, hi
        r = self.tighten(t, e, lo, hi, w)
        if r:
            return r
        u, lo, hi = self.U(t)
        if hi < h:
            return u, lo, hi
        if lo >= h:
            return u - (1 << w), lo - (1 << w), hi - (1 << w)
        return self.define(z3.If(u >= h, u - (1 << w), u), -h, h - 1), -h, h - 1

    def tighten(self, t, e, lo, hi, w):
        """is e provably in [0, 2^(w-1)) although its interval is wider?"""
        k = t.get_id()
        if k in self.tc:
            return self.tc[k]
        r = None
        if self.tn < 40:
            self.tn += 1
            s = z3.Solver()
            s.set('timeout', 700)
            s.add(*self.side)
            s.push()
            s.add(z3.Or(e < 0, e >= 1 << (w - 1)))
            if s.check() == z3.unsat:
                s.pop()
                b = w - 1
                for c in (6, 12, 18, 24, 31, 40):
                    if c < b:
                        s.push()
                        s.add(e >= 1 << c)
                        u = s.check() == z3.unsat
                        s.pop()
                        if u:
                            b = c
                            break
                r = (e, 0, (1 << b) - 1)
                self.bc[k] = (e, 0, (1 << b) - 1, t)
        self.tc[k] = r
        return r

    def mod(self, e, m, lo, hi):
        return e % m

    def div(self, e, m, lo, hi):
        """floor division by positive constant: named quotient"""
        if lo // m == hi // m:
            return z3.IntVal(lo // m), lo // m, hi // m
        self.n += 1
        q = z3.Int('q!%d' % self.n)
        self.side += [m * q <= e, e < m * q + m, q >= lo // m, q <= hi // m]
        return q, lo // m, hi // m

    def modc(self, e, m, lo, hi):
        if lo // m == hi // m:
            k = lo // m
            return e - k * m, lo - k * m, hi - k * m
        q, _, _ = self.div(e, m, lo, hi)
        return self.define(e - m * q, 0, m - 1), 0, m - 1

    # ---- bit-vectors
    def bv(self, t):
        k = t.get_id()
        r = self.bc.get(k)
        if r is None:
            try:
                r = self._bv(t)
                if r[2] - r[1] > (1 << (3 * t.size() + 64)):
                    raise Rej
            except Rej:
                if DBG:
                    print('LIA abstract bv', t.decl(), [str(x)[-120:].replace(chr(10),' ') for x in t.children()], flush=True)
                r = self.fresh(t.size())
            r = (self.define(r[0], r[1], r[2]), r[1], r[2])
            self.bc[k] = r + (t,)
        return r[:3]

    def _bv(self, t):
        w = t.size()
        if z3.is_bv_value(t):
            v = t.as_long()
            return (z3.IntVal(v if v < (1 << (w - 1)) or w == 1 else v - (1 << w)),) + ((v, v) if v < (1 << (w - 1)) or w == 1 else (v - (1 << w),) * 2)
        d = t.decl().kind()
        a = t.children()
        if d == K['Z3_OP_UNINTERPRETED'] and not a:
            nm = t.decl().name()
            lo, hi = self.ranges.get(nm, (0, (1 << w) - 1))
            x = z3.Int('v!' + nm)
            self.side += [x >= lo, x <= hi]
            self.vars[nm] = (x, w)
            return x, lo, hi
        if d in (K['Z3_OP_BADD'], K['Z3_OP_BMUL']):
            e, lo, hi = self.bv(a[0])
            for b in a[1:]:
                f, l2, h2 = self.bv(b)
                if d == K['Z3_OP_BADD']:
                    e, lo, hi = e + f, lo + l2, hi + h2
                else:
                    if lo != hi and l2 != h2:
                        raise Rej
                    ps = [lo * l2, lo * h2, hi * l2, hi * h2]
                    e, lo, hi = e * f, min(ps), max(ps)
            return e, lo, hi
        if d == K['Z3_OP_BSUB']:
            e, lo, hi = self.bv(a[0])
            for b in a[1:]:
                f, l2, h2 = self.bv(b)
                e, lo, hi = e - f, lo - h2, hi - l2
            return e, lo, hi
        if d == K['Z3_OP_BNEG']:
            e, lo, hi = self.bv(a[0])
            return -e, -hi, -lo
        if d == K['Z3_OP_BNOT']:
            e, lo, hi = self.bv(a[0])
            return -1 - e, -1 - hi, -1 - lo
        if d in (K['Z3_OP_BUDIV'], K['Z3_OP_BUDIV_I'], K['Z3_OP_BUREM'], K['Z3_OP_BUREM_I']):
            f, l2, h2 = self.U(a[1])
            if l2 != h2 or l2 == 0:
                raise Rej
            e, lo, hi = self.U(a[0])
            return self.div(e, l2, lo, hi) if d in (K['Z3_OP_BUDIV'], K['Z3_OP_BUDIV_I']) else self.modc(e, l2, lo, hi)
        if d in (K['Z3_OP_BSDIV'], K['Z3_OP_BSDIV_I'], K['Z3_OP_BSREM'], K['Z3_OP_BSREM_I']):
            f, l2, h2 = self.S(a[1])
            if l2 != h2 or l2 == 0:
                raise Rej
            e, lo, hi = self.S(a[0])
            isd = d in (K['Z3_OP_BSDIV'], K['Z3_OP_BSDIV_I'])
            if l2 < 0:
                l2 = -l2
                if isd:
                    e, lo, hi = -e, -hi, -lo
                    if hi <= 0:
                        q, l, h = self.div(-e, l2, -hi, -lo)
                        return -q, -h, -l
            if lo < 0 and not z3.is_bv_value(a[0]):
                r = self.tighten(a[0], e, lo, hi, w) if e is self.S(a[0])[0] else None
                if r:
                    e, lo, hi = r
            if lo >= 0:
                return self.div(e, l2, lo, hi) if isd else self.modc(e, l2, lo, hi)
            p, pl, ph = self.div(z3.If(e >= 0, e, -e), l2, 0, max(-lo, hi))
            q, ql, qh = z3.If(e >= 0, p, -p), -ph, ph
            if isd:
                return q, ql, qh
            return e - l2 * q, -(l2 - 1), l2 - 1
        if d == K['Z3_OP_ZERO_EXT']:
            return self.U(a[0])
        if d == K['Z3_OP_SIGN_EXT']:
            return self.S(a[0])
        if d == K['Z3_OP_EXTRACT']:
            hi_, lo_ = t.params()
            if lo_ == 0:
                return self.bv(a[0])
            e, lo, hi = self.U(a[0])
            return self.div(e, 1 << lo_, lo, hi)
        if d == K['Z3_OP_CONCAT']:
            e, lo, hi = self.U(a[-1])
            sh = a[-1].size()
            for b in reversed(a[:-1]):
                f, l2, h2 = self.U(b)
                e, lo, hi = e + f * (1 << sh), lo + (l2 << sh), hi + (h2 << sh)
                sh += b.size()
            return e, lo, hi
        if d in (K['Z3_OP_BSHL'], K['Z3_OP_BLSHR'], K['Z3_OP_BASHR']):
            s, l2, h2 = self.U(a[1])
            if l2 != h2:
                raise Rej
            if l2 >= w:
                if d == K['Z3_OP_BASHR']:
                    l2 = w - 1
                else:
                    return z3.IntVal(0), 0, 0
            if d == K['Z3_OP_BSHL']:
                e, lo, hi = self.bv(a[0])
                return e * (1 << l2), lo << l2, hi << l2
            e, lo, hi = self.U(a[0]) if d == K['Z3_OP_BLSHR'] else self.S(a[0])
            return self.div(e, 1 << l2, lo, hi)
        if d == K['Z3_OP_BAND'] and len(a) == 2:
            for x, y in ((a[0], a[1]), (a[1], a[0])):
                if z3.is_bv_value(y):
                    m = y.as_long()
                    if m == 0:
                        return z3.IntVal(0), 0, 0
                    l = (m & -m).bit_length() - 1
                    mm = m >> l
                    if mm & (mm + 1):
                        raise Rej
                    e, lo, hi = self.U(x)
                    if l:
                        e, lo, hi = self.div(e, 1 << l, lo, hi)
                    e, lo, hi = self.modc(e, mm + 1, lo, hi)
                    return e * (1 << l), lo << l, hi << l
            raise Rej
        if d == K['Z3_OP_BOR'] and len(a) == 2:
            for x, y in ((a[0], a[1]), (a[1], a[0])):
                e, lo, hi = self.U(x)
                f, l2, h2 = self.U(y)
                z = self.tz(y)
                if hi < (1 << z):
                    return e + f, lo + l2, hi + h2
            raise Rej
        if d == K['Z3_OP_ITE']:
            c = self.b(a[0])
            if z3.is_true(c) or z3.is_false(c):
                return self.bv(a[1] if z3.is_true(c) else a[2])
            e, lo, hi = self.bv(a[1])
            f, l2, h2 = self.bv(a[2])
            return z3.If(c, e, f), min(lo, l2), max(hi, h2)
        if d in (K['Z3_OP_FPA_TO_SBV'], K['Z3_OP_FPA_TO_UBV']):
            e, k, lo, hi = self.fp(a[1])
            if k:
                rm = a[0].decl().kind()
                if rm != K['Z3_OP_FPA_RM_TOWARD_ZERO']:
                    raise Rej
                if lo >= 0:
                    e, lo, hi = self.div(e, 1 << k, lo, hi)
                else:
                    p, pl, ph = self.div(z3.If(e >= 0, e, -e), 1 << k, 0, max(-lo, hi))
                    e, lo, hi = z3.If(e >= 0, p, -p), -ph, ph
            if d == K['Z3_OP_FPA_TO_SBV'] and not (lo >= -(1 << (w - 1)) and hi < (1 << (w - 1))):
                raise Rej
            if d == K['Z3_OP_FPA_TO_UBV'] and not (lo >= 0 and hi < (1 << w)):
                raise Rej
            return e, lo, hi
        raise Rej

    def tz(self, t):
        if z3.is_bv_value(t):
            v = t.as_long()
            return (v & -v).bit_length() - 1 if v else t.size()
        d = t.decl().kind()
        if d == K['Z3_OP_BSHL'] and z3.is_bv_value(t.arg(1)):
            return t.arg(1).as_long()
        if d == K['Z3_OP_CONCAT'] and z3.is_bv_value(t.children()[-1]) and t.children()[-1].as_long() == 0:
            return t.children()[-1].size()
        return 0

    # ---- doubles that are dyadic rationals with few bits
    def fp(self, t):
        k = t.get_id()
        r = self.fc.get(k)
        if r is None:
            try:
                r = self._fp(t)
                if max(abs(r[2]), abs(r[3])) > MAXF or r[1] > 900:
                    raise Rej
                r = (self.define(r[0], r[2], r[3]),) + r[1:]
            except Rej:
                r = False
            self.fc[k] = (r, t)
        else:
            r = r[0]
        if r is False:
            raise Rej
        return r

    def _fp(self, t):
        if t.sort().ebits() != 11 or t.sort().sbits() != 53:
            raise Rej
        if z3.is_fp_value(t):
            if t.isNaN() or t.isInf():
                raise Rej
            import ops
            n, dd = ops.fpval(t).as_integer_ratio()
            k = dd.bit_length() - 1
            return z3.IntVal(n), k, n, n
        d = t.decl().kind()
        a = t.children()
        if d in (K['Z3_OP_FPA_TO_FP'], K['Z3_OP_FPA_TO_FP_UNSIGNED']) and len(a) == 2 and z3.is_bv(a[1]):
            e, lo, hi = self.S(a[1]) if d == K['Z3_OP_FPA_TO_FP'] else self.U(a[1])
            return e, 0, lo, hi
        if d in (K['Z3_OP_FPA_ADD'], K['Z3_OP_FPA_SUB']):
            (e, k, lo, hi), (f, j, l2, h2) = self.fp(a[1]), self.fp(a[2])
            s = max(k, j)
            e, lo, hi = e * (1 << (s - k)), lo << (s - k), hi << (s - k)
            f, l2, h2 = f * (1 << (s - j)), l2 << (s - j), h2 << (s - j)
            return (e + f, s, lo + l2, hi + h2) if d == K['Z3_OP_FPA_ADD'] else (e - f, s, lo - h2, hi - l2)
        if d == K['Z3_OP_FPA_MUL']:
            (e, k, lo, hi), (f, j, l2, h2) = self.fp(a[1]), self.fp(a[2])
            if lo != hi and l2 != h2:
                raise Rej
            ps = [lo * l2, lo * h2, hi * l2, hi * h2]
            return e * f, k + j, min(ps), max(ps)
        if d == K['Z3_OP_FPA_DIV']:
            (e, k, lo, hi), (f, j, l2, h2) = self.fp(a[1]), self.fp(a[2])
            if l2 != h2 or l2 <= 0 or l2 & (l2 - 1):
                raise Rej
            s = l2.bit_length() - 1 - j
            return (e, k + s, lo, hi) if k + s >= 0 else (e * (1 << -(k + s)), 0, lo << -(k + s), hi << -(k + s))
        if d == K['Z3_OP_FPA_NEG']:
            e, k, lo, hi = self.fp(a[0])
            return -e, k, -hi, -lo
        if d == K['Z3_OP_FPA_ABS']:
            e, k, lo, hi = self.fp(a[0])
            return z3.If(e >= 0, e, -e), k, 0, max(-lo, hi)
        if d == K['Z3_OP_ITE']:
            c = self.b(a[0])
            if z3.is_true(c) or z3.is_false(c):
                return self.fp(a[1] if z3.is_true(c) else a[2])
            (e, k, lo, hi), (f, j, l2, h2) = self.fp(a[1]), self.fp(a[2])
            s = max(k, j)
            return z3.If(c, e * (1 << (s - k)), f * (1 << (s - j))), s, min(lo << (s - k), l2 << (s - j)), max(hi << (s - k), h2 << (s - j))
        if d == K['Z3_OP_FPA_ROUND_TO_INTEGRAL']:
            e, k, lo, hi = self.fp(a[1])
            if k == 0:
                return e, k, lo, hi
            rm = a[0].decl().kind()
            if rm == K['Z3_OP_FPA_RM_TOWARD_NEGATIVE'] or (rm == K['Z3_OP_FPA_RM_TOWARD_ZERO'] and lo >= 0):
                q, l, h = self.div(e, 1 << k, lo, hi)
                return q, 0, l, h
            if rm == K['Z3_OP_FPA_RM_TOWARD_POSITIVE']:
                q, l, h = self.div(-e, 1 << k, -hi, -lo)
                return -q, 0, -h, -l
        raise Rej

    def scaled(self, t):
        """c * x with a positive constant c and an exact x -> (c, e, k, lo, hi)"""
        if z3.is_fp(t) and t.num_args() == 3 and t.decl().kind() == K['Z3_OP_FPA_MUL']:
            for c, x in ((t.arg(1), t.arg(2)), (t.arg(2), t.arg(1))):
                if z3.is_fp_value(c) and not c.isNaN() and not c.isInf():
                    import ops
                    v = ops.fpval(c)
                    if v > 0:
                        try:
                            return (v,) + self.fp(x)
                        except Rej:
                            return None
        return None

    def ufcmp(self, o, a, b):
        """comparisons of rounded products c*x (rounding is monotone, equal arguments give equal results)"""
        p, q = self.scaled(a), self.scaled(b)
        if p is None and q is None:
            return None
        try:
            self.fp(a), self.fp(b)
            return None
        except Rej:
            pass
        if p and q and p[0] == q[0] and p[2] == q[2]:
            r = z3.Bool('ufeq!%d' % self.fresh_id())
            e, f = p[1], q[1]
            self.abstract += 1
            # equal arguments: equal; a < b: a' <= b'
            if o == '==':
                self.side.append(z3.Implies(e == f, r))
            elif o in ('<=', '<'):
                self.side += [z3.Implies(e == f, r == (o == '<=')), z3.Implies(e < f, r) if o == '<=' else z3.Implies(e > f, z3.Not(r))]
            else:
                self.side += [z3.Implies(e == f, r == (o == '>=')), z3.Implies(e > f, r) if o == '>=' else z3.Implies(e < f, z3.Not(r))]
            return r
        # against a constant: monotone in the integer argument, so the threshold is found by evaluating in double
        if p is None:
            return self.ufcmp({'==': '==', '<': '>', '<=': '>=', '>': '<', '>=': '<='}[o], b, a)
        if z3.is_fp_value(b) and o != '==':
            import ops
            v, k, lo, hi = p[0], p[2], p[3], p[4]
            cv = ops.fpval(b)
            sc = 2.0 ** -k

            def f(n):
                return v * (n * sc)
            # smallest n in [lo, hi+1] with f(n) >= cv (or > cv)
            strict = o in ('>', '<=')
            l, h = lo, hi + 1
            while l < h:
                m = (l + h) // 2
                if (f(m) > cv) if strict else (f(m) >= cv):
                    h = m
                else:
                    l = m + 1
            return p[1] >= l if o in ('>', '>=') else p[1] < l
        return None

    def fresh_id(self):
        self.n += 1
        return self.n

    # ---- booleans
    def b(self, t):
        k = t.get_id()
        r = self.oc.get(k)
        if r is None:
            try:
                r = self._b(t)
            except Rej:
                if DBG:
                    print('LIA abstract bool', t.decl(), [str(x)[-120:].replace(chr(10),' ') for x in t.children()], flush=True)
                self.n += 1
                self.abstract += 1
                r = z3.Bool('absb!%d' % self.n)
            self.oc[k] = (r, t)
            return r
        return r[0]

    def _b(self, t):
        if z3.is_true(t) or z3.is_false(t):
            return t
        d = t.decl().kind()
        a = t.children()
        if z3.is_and(t):
            return z3.And([self.b(x) for x in a])
        if z3.is_or(t):
            return z3.Or([self.b(x) for x in a])
        if z3.is_not(t):
            r = self.b(a[0])
            return z3.BoolVal(z3.is_false(r)) if z3.is_true(r) or z3.is_false(r) else z3.Not(r)
        if d == K['Z3_OP_IMPLIES']:
            return z3.Implies(self.b(a[0]), self.b(a[1]))
        if d == K['Z3_OP_XOR']:
            return z3.Xor(self.b(a[0]), self.b(a[1]))
        if d == K['Z3_OP_ITE']:
            return z3.If(self.b(a[0]), self.b(a[1]), self.b(a[2]))
        if d in (K['Z3_OP_EQ'], K['Z3_OP_DISTINCT']) and len(a) == 2:
            if z3.is_bool(a[0]):
                r = self.b(a[0]) == self.b(a[1])
            elif z3.is_bv(a[0]):
                w = a[0].size()
                e, lo, hi = self.bv(a[0])
                f, l2, h2 = self.bv(a[1])
                l, h = lo - h2, hi - l2
                if l > -(1 << w) and h < (1 << w):
                    r = e == f
                elif h - l > 64 << w:
                    r = self.U(a[0])[0] == self.U(a[1])[0]
                else:
                    r = z3.Or([e - f == (i << w) for i in range(-((-l) >> w), (h >> w) + 1)])
            else:
                raise Rej
            return z3.Not(r) if d == K['Z3_OP_DISTINCT'] else r
        cmpk = {'Z3_OP_ULEQ': ('U', '<='), 'Z3_OP_ULT': ('U', '<'), 'Z3_OP_UGEQ': ('U', '>='), 'Z3_OP_UGT': ('U', '>'),
                'Z3_OP_SLEQ': ('S', '<='), 'Z3_OP_SLT': ('S', '<'), 'Z3_OP_SGEQ': ('S', '>='), 'Z3_OP_SGT': ('S', '>')}
        for n, (v, o) in cmpk.items():
            if d == K[n]:
                f = self.U if v == 'U' else self.S
                (x, lo, hi), (y, l2, h2) = f(a[0]), f(a[1])
                v = cmpr(o, lo, hi, l2, h2)
                if v is not None:
                    return z3.BoolVal(v)
                return x <= y if o == '<=' else x < y if o == '<' else x >= y if o == '>=' else x > y
        fk = {'Z3_OP_FPA_EQ': '==', 'Z3_OP_FPA_LE': '<=', 'Z3_OP_FPA_LT': '<', 'Z3_OP_FPA_GE': '>=', 'Z3_OP_FPA_GT': '>'}
        for n, o in fk.items():
            if d == K[n]:
                if o == '==' or o in ('<', '<=', '>', '>='):
                    u = self.ufcmp(o, a[0], a[1])
                    if u is not None:
                        return u
                (e, k, lo, hi), (f, j, l2, h2) = self.fp(a[0]), self.fp(a[1])
                s = max(k, j)
                x, y = e * (1 << (s - k)), f * (1 << (s - j))
                v = cmpr(o, lo << (s - k), hi << (s - k), l2 << (s - j), h2 << (s - j))
                if v is not None:
                    return z3.BoolVal(v)
                return x == y if o == '==' else x <= y if o == '<=' else x < y if o == '<' else x >= y if o == '>=' else x > y
        if d == K['Z3_OP_FPA_IS_NAN'] or d == K['Z3_OP_FPA_IS_INF']:
            self.fp(a[0])
            return z3.BoolVal(False)
        raise Rej


def solve(cs, ranges, ms):
    """-> ('unsat', None) | ('sat', {name: int}) | ('unknown', None)"""
    t = Lia(ranges)
    s = z3.Solver()
    s.set('timeout', int(ms))
    bs = [t.b(c) for c in cs]
    for c in t.side + bs:
        s.add(c)
    r = s.check()
    if DBG:
        print('LIA', r, t.abstract, len(t.side), flush=True)
    if r == z3.unsat and DBG == '2':
        s2 = z3.Solver()
        s2.set('timeout', 20000)
        s2.add(*cs)
        r2 = s2.check()
        print('LIA-BV', r2, flush=True)
        if r2 == z3.sat:
            m = s2.model()
            print('WRONG', m, flush=True)
            open('/tmp/wrong.smt2', 'w').write(s2.to_smt2())
            s3 = z3.Solver(); s3.set('timeout', 10000)
            vs = [x == m.eval(z3.BitVec(n, w)).as_signed_long() for n, (x, w) in t.vars.items()]
            s3.set(unsat_core=True)
            for i, c in enumerate(t.side + bs + vs):
                s3.assert_and_track(c, 'c%d' % i)
            print(s3.check())
            print([((t.side + bs + vs)[int(str(c)[1:])]) for c in s3.unsat_core()], flush=True)
    if r == z3.unsat:
        return 'unsat', None
    if r == z3.sat and not t.abstract:
        m = s.model()
        return 'sat', {n: m.eval(x, model_completion=True).as_long() for n, (x, w) in t.vars.items()}
    return 'unknown', None


_AR = None


def arithmetic(cs):
    """do the constraints contain multiplication or division (where bit-blasting is slow)?"""
    global _AR
    if _AR is None:
        _AR = {K[n] for n in ('Z3_OP_BUDIV', 'Z3_OP_BUDIV_I', 'Z3_OP_BUREM', 'Z3_OP_BUREM_I', 'Z3_OP_BSDIV', 'Z3_OP_BSDIV_I', 'Z3_OP_BSREM', 'Z3_OP_BSREM_I', 'Z3_OP_FPA_TO_SBV', 'Z3_OP_FPA_TO_UBV', 'Z3_OP_FPA_ADD', 'Z3_OP_FPA_SUB')}
    seen, st = set(), list(cs)
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if t.num_args() and t.decl().kind() in _AR:
            return True
        st.extend(t.children())
    return False
