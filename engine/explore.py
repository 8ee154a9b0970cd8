"""Path exploration, obligation solving, counterexample replay."""
import json
import math
import os
import queue
import random
import resource
import signal
import subprocess
import sys
import time
import traceback
import zlib
from fractions import Fraction
import multiprocessing as mp
import z3
import reals as RL
from reals import R, B, Unsupported, TooBig
import interp as I
from interp import PathEnd, MemError, Bound, CxxThrow, UNDEF, sx, F

INF = math.inf
NAN = math.nan

Q_FEAS_MS = 1500
STATS_KEYS = ('queries', 'solver_s', 'decisions', 'forks', 'unknown_feas')


class OutOfTime(Exception):
    pass


class Wit:
    __slots__ = ('env', 'memo', 'idx', 'zs')

    def __init__(self, idx, env=None):
        self.idx = idx
        self.env = dict(env) if env else {}
        self.memo = {}
        self.zs = []

    def val(self, name, kind, lo, hi, zv=None):
        v = self.env.get(name)
        if v is None:
            v = draw(self.idx, name, kind, lo, hi)
            self.env[name] = v
        if zv is not None:
            if kind == 'd':
                self.zs.append((zv, z3.FPVal(v, I.FP64)))
            else:
                self.zs.append((zv, z3.BitVecVal(v, zv.size())))
        return v


    def fix(self, units):
        for names in units:
            v = [self.env.get(x) for x in names]
            if any(x is None for x in v):
                continue
            r = math.sqrt(sum(x * x for x in v))
            if abs(r - 1.0) < 1e-15:
                continue
            if r < 1e-9:
                v, r = [0.0] * (len(v) - 1) + [1.0], 1.0
            for x, y in zip(names, v):
                self.env[x] = y / r
        return self


def draw(idx, name, kind, lo, hi):
    rng = random.Random(zlib.crc32(name.encode()) * 1000003 + idx * 7919)
    if kind == 'i':
        lo, hi = int(lo), int(hi)
        if idx % 4 == 1:
            return rng.choice([lo, hi, min(max(0, lo), hi), min(max(1, lo), hi)])
        if idx % 4 == 2 and hi - lo > 600:
            return min(max(rng.randint(-3, 260), lo), hi)
        return rng.randint(lo, hi)
    l = lo if lo > -INF else -8.0
    h = hi if hi < INF else 8.0
    if lo == -INF and hi < INF:
        l = hi - 16.0
    if hi == INF and lo > -INF:
        h = lo + 16.0
    m = idx % 6
    if m == 0 or m == 3:
        return rng.uniform(l, h)
    if m == 1:
        return l + (h - l) * rng.choice([0.25, 0.5, 0.75])
    if m == 2:
        return l + (h - l) * rng.choice([0.5, 0.625, 0.375, 0.875, 0.125])
    if m == 4:
        if l > 0 and h / l > 100:
            return math.exp(rng.uniform(math.log(l), math.log(h)))
        return l + (h - l) * rng.random() ** 4
    return h - (h - l) * rng.random() ** 4


def evalr(x, w):
    """numeric value of x (float|R|F|int|BV) under witness w"""
    if type(x) is float or type(x) is int:
        return x
    if type(x) is R:
        memo = w.memo
        v = memo.get(x.id)
        if v is not None:
            return v
        st = [x]
        while st:
            n = st[-1]
            if n.id in memo:
                st.pop()
                continue
            if n.op == 'v':
                memo[n.id] = float(w.env.get(n.args[0], NAN))
                st.pop()
                continue
            pend = [a for a in n.args if type(a) is R and a.id not in memo]
            if pend:
                st.extend(pend)
                continue
            st.pop()
            v = [memo[a.id] if type(a) is R else a for a in n.args]
            try:
                if n.op == '+':
                    r = v[0] + v[1]
                elif n.op == '-':
                    r = v[0] - v[1]
                elif n.op == '*':
                    r = v[0] * v[1]
                elif n.op == '/':
                    r = v[0] / v[1] if v[1] != 0 else NAN
                elif n.op == 'f':
                    r = RL.apply_native(v[0], v[1:])
                else:
                    r = NAN
            except (OverflowError, ValueError, ZeroDivisionError):
                r = NAN
            memo[n.id] = r
        return memo[x.id]
    e = x.e if type(x) is F else x
    r = z3.simplify(z3.substitute(e, *w.zs)) if w.zs else z3.simplify(e)
    if z3.is_bv_value(r):
        return r.as_long()
    if z3.is_fp_value(r):
        import ops
        return ops.fpval(r)
    return None


def evalb(b, w):
    if type(b) is int:
        return bool(b)
    if b.op == 'z':
        r = z3.simplify(z3.substitute(b.a, *w.zs)) if w.zs else z3.simplify(b.a)
        if z3.is_true(r):
            return True
        if z3.is_false(r):
            return False
        return None
    if b.op == 'not':
        x = evalb(b.a, w)
        return None if x is None else not x
    if b.op in ('and', 'or'):
        x, y = evalb(b.a, w), evalb(b.b, w)
        if b.op == 'and':
            if x is False or y is False:
                return False
            return None if x is None or y is None else True
        if x or y:
            return True
        return None if x is None or y is None else False
    x, y = evalr(b.a, w), evalr(b.b, w)
    if x != x or y != y:
        return None
    if b.op == 'lt':
        return x < y
    if b.op == 'le':
        return x <= y
    return x == y


_PIN = {}


def bkey(b):
    if type(b) is int:
        return b
    if b.op == 'z':
        i = b.a.get_id()
        _PIN[i] = b.a            # z3 reuses the ids of freed terms
        return ('z', i)
    if b.op in ('not', 'and', 'or'):
        return (b.op, bkey(b.a), bkey(b.b) if b.b is not None else None)
    return (b.op, b.a.id if type(b.a) is R else ('c', b.a), b.b.id if type(b.b) is R else ('c', b.b))    # ids and constants must not mix


def nodes_of(bs, extra=()):
    """all R nodes reachable from the booleans / reals"""
    seen = {}
    st = []

    def push(b):
        if type(b) is R:
            st.append(b)
        elif type(b) is B:
            if b.op in ('not', 'and', 'or', 'lt', 'le', 'eq'):
                if b.a is not None:
                    push(b.a)
                if b.b is not None:
                    push(b.b)
    for b in bs:
        push(b)
    for x in extra:
        push(x)
    while st:
        n = st.pop()
        if n.id in seen:
            continue
        seen[n.id] = n
        for a in n.args:
            if type(a) is R:
                st.append(a)
    return list(seen.values())


def frac_to_float(z):
    if z3.is_rational_value(z):
        n, d = z.numerator_as_long(), z.denominator_as_long()
        try:
            return n / d
        except OverflowError:
            return INF if n > 0 else -INF
    if z3.is_algebraic_value(z):
        return frac_to_float(z.approx(20))
    return 0.0


class Path:
    def __init__(self, mach, prefix, opts, shared):
        self.m = mach
        self.prefix = prefix
        self.pos = 0
        self.log = []
        self.siblings = []
        self.cons = []
        self.pbounds = {}
        self.known = {}
        self.opts = opts
        self.sh = shared           # worker-level stats / budgets
        self.mode = mach.mode
        self.fork_bool = mach.mode == 'real'
        self.fuel = opts.get('fuel', 3000000)
        self.inputs = {}           # name -> (kind, lo, hi, value object)
        self.namecnt = {}
        self.pool = [Wit(i) for i in range(opts.get('pool', 18))]
        self.trace = []
        self.obls = []
        self.notes = {}
        self.exc_types = {}
        self.caught = []
        self.streams = {}
        self.stream_prec = {}
        self.stream_pos = {}
        self.stream_vt = None
        self.files = {}
        self.cfiles = {}
        self.open_files = {}
        self.texts, self.short_texts = [], []
        self.errno = None
        self.ticks = 0
        self.fresh = 0
        self.reached = []
        self.solver = None
        self.violations = []
        self.widx = 100
        self.units = []

    # ---------------------------------------------------------------- inputs
    def uname(self, name):
        k = self.namecnt.get(name, 0)
        self.namecnt[name] = k + 1
        return name if k == 0 else '%s#%d' % (name, k)

    def new_double(self, name, lo, hi):
        name = self.uname(name)
        lo, hi = float(lo), float(hi)
        if lo == hi:
            self.inputs[name] = ('d', lo, hi, lo)
            for w in self.pool:
                w.env[name] = lo
            return lo
        if self.mode == 'bits':
            v = z3.FP(name, I.FP64)
            self.inputs[name] = ('d', lo, hi, v)
            c = B('z', z3.And(z3.fpGEQ(v, z3.FPVal(lo, I.FP64)), z3.fpLEQ(v, z3.FPVal(hi, I.FP64))))
            self.cons.append(c)
            for w in self.pool:
                w.val(name, 'd', lo, hi, v)
            if self.solver is not None:
                self.solver.add(c.a)
            return F(v)
        v = RL.var(name, lo, hi)
        self.inputs[name] = ('d', lo, hi, v)
        for w in self.pool:
            w.val(name, 'd', lo, hi)
        return v

    def new_unit(self, name, n):
        """n components of an arbitrary unit vector (real mode: exact relation; natively: normalised)"""
        k = self.namecnt.get('unit:' + name, 0)
        self.namecnt['unit:' + name] = k + 1
        if k:
            name = '%s@%d' % (name, k)
        vs = [self.new_double('%s.u%d_%d' % (name, n, i), -1.0, 1.0) for i in range(n)]
        names = ['%s.u%d_%d' % (name, n, i) for i in range(n)]
        self.units.append(names)
        RL._unit[vs[-1].id] = tuple(vs)
        for w in self.pool:
            w.fix([names])
        return vs

    def new_int(self, name, lo, hi):
        name = self.uname(name)
        if lo == hi:
            self.inputs[name] = ('i', lo, hi, lo)
            for w in self.pool:
                w.env[name] = lo
            return lo & ((1 << 64) - 1)
        v = z3.BitVec(name, 64)
        self.inputs[name] = ('i', lo, hi, v)
        c = B('z', z3.And(v >= lo, v <= hi))
        self.cons.append(c)
        for w in self.pool:
            w.val(name, 'i', lo, hi, v)
        if self.solver is not None:
            self.solver.add(c.a)
        return v

    def choose(self, name, lo, hi):
        name = self.uname(name)
        if lo > hi:
            raise PathEnd('assume')
        k = self.entry_multi(list(range(lo, hi + 1)))
        self.inputs[name] = ('i', k, k, k)
        for w in self.pool:
            w.env[name] = k
        return k

    def entry_multi(self, vals):
        if self.pos < len(self.prefix):
            k = self.prefix[self.pos][1]
            self.log.append(self.prefix[self.pos])
            self.pos += 1
            return k
        for v in vals[1:]:
            self.siblings.append(self.log + [('v', v)])
        self.log.append(('v', vals[0]))
        self.pos += 1
        self.sh['decisions'] += 1
        self.sh['forks'] += len(vals) - 1
        return vals[0]

    def next_fresh(self):
        self.fresh += 1
        return self.fresh

    def fresh_real(self, why):
        self.note('use of an uninitialised double (treated as arbitrary)')
        return self.new_double('%s!%d' % (why, self.next_fresh()), -1e6, 1e6)

    def fresh_bv(self, why, w):
        self.note('use of an uninitialised integer (treated as arbitrary)')
        v = z3.BitVec('%s!%d' % (why, self.next_fresh()), w)
        for wt in self.pool:
            wt.zs.append((v, z3.BitVecVal(0, w)))
        return v

    def fresh_bool(self, why):
        self.note('use of an uninitialised flag (treated as arbitrary)')
        v = z3.Bool('%s!%d' % (why, self.next_fresh()))
        for wt in self.pool:
            wt.zs.append((v, z3.BoolVal(False)))
        return v

    def uninit(self, size, kind, o, off):
        return UNDEF

    def note(self, s):
        self.notes[s] = self.notes.get(s, 0) + 1

    # ---------------------------------------------------------------- solver
    def sliced(self, bs):
        """constraints sharing inputs with bs (transitively)"""
        need = set()
        for b in bs:
            need |= self.bd(b)
        out = []
        rest = list(self.cons)
        ch = True
        while ch:
            ch = False
            nr = []
            for c in rest:
                d = self.bd(c)
                if not d or d & need:
                    out.append(c)
                    if not d <= need:
                        need |= d
                        ch = True
                else:
                    nr.append(c)
            rest = nr
        return out

    def bd(self, b):
        if type(b) is B and b.op == 'z':
            if b._deps is None:
                s = set()
                seen = set()
                st = [b.a]
                while st:
                    e = st.pop()
                    i = e.get_id()
                    if i in seen:
                        continue
                    seen.add(i)
                    if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        s.add(e.decl().name())
                    st.extend(e.children())
                b._deps = frozenset(s)
            return b._deps
        if type(b) is B and b.op in ('and', 'or'):
            return self.bd(b.a) | self.bd(b.b)
        if type(b) is B and b.op == 'not':
            return self.bd(b.a)
        return RL.bdeps(b)

    def check(self, bs, ms, tactic=None, want_model=True, full=False):
        """satisfiability of path constraints + bs. -> ('sat', Wit|None) | ('unsat', None) | ('unknown', None)"""
        self.sh['queries'] += 1
        t0 = time.time()
        try:
            if time.time() > self.sh['deadline']:
                return ('unknown', None)
            cs = (list(self.cons) if full else self.sliced(bs)) + list(bs)
            if self.mode == 'bits':
                zs = [RL.bz(c) for c in cs]
                import lia
                ar = lia.arithmetic(zs)
                r = z3.unknown
                for step in ('lia', 'bv') if ar else ('bv', 'lia'):
                    if step == 'bv':
                        s = z3.Solver()
                        s.set('timeout', int(min(ms, 2000)))
                        s.add(*zs)
                        r = s.check()
                    else:
                        r2, m2 = lia.solve(zs, {n: (v[1], v[2]) for n, v in self.inputs.items() if v[0] == 'i'}, ms)
                        if r2 == 'unsat':
                            self.sh['lia'] = self.sh.get('lia', 0) + 1
                            return ('unsat', None)
                        if r2 == 'sat' and not want_model:
                            return ('sat', None)
                        for n, v in (m2 or {}).items():
                            if n in self.inputs:
                                zs.append(z3.BitVec(n, 64) == v)
                    if r != z3.unknown:
                        break
                if r != z3.unknown:
                    if r == z3.unsat:
                        return ('unsat', None)
                    return ('sat', self.wit_from_model(s.model(), bs) if want_model else None)
                s = z3.Solver()
                s.set('timeout', int(ms))
                for c in zs:
                    s.add(c)
            else:
                if tactic:
                    s = z3.Tactic(tactic).solver()
                else:
                    s = z3.Solver()
                s.set('timeout', int(ms))
                ns = nodes_of(cs)
                for c in cs:
                    s.add(RL.bz(c))
                nl = 0
                for n in ns:
                    for ax in RL.sides(n):
                        s.add(ax)
                if len(ns) < 4000:
                    for ax in RL.congruence(ns):
                        s.add(ax)
            r = s.check()
            if r == z3.unsat:
                return ('unsat', None)
            if r == z3.sat:
                if not want_model:
                    return ('sat', None)
                return ('sat', self.wit_from_model(s.model(), bs))
            return ('unknown', None)
        except (Unsupported, z3.Z3Exception) as e:
            self.note('solver: ' + str(e)[:80])
            return ('unknown', None)
        finally:
            self.sh['solver_s'] += time.time() - t0

    def wit_from_model(self, mdl, bs):
        vals = {d.name(): mdl[d] for d in mdl.decls() if d.arity() == 0}
        base = self.pool[0] if self.pool else Wit(3)
        for trial in range(2):
            self.widx += 1
            w = Wit(self.widx)
            for name, (kind, lo, hi, obj) in self.inputs.items():
                z = vals.get(name)
                if type(obj) is float or type(obj) is int:
                    w.env[name] = obj
                    continue
                if z is None:
                    b = base.env.get(name)
                    w.val(name, kind, lo, hi, obj if isinstance(obj, z3.ExprRef) else None) if b is None else w.env.__setitem__(name, b)
                    if b is not None and isinstance(obj, z3.ExprRef):
                        w.val(name, kind, lo, hi, obj)
                    continue
                if isinstance(obj, z3.ExprRef):
                    if kind == 'i':
                        v = z.as_signed_long()
                    else:
                        import ops
                        v = ops.fpval(z) if z3.is_fp_value(z) else 0.0
                    w.env[name] = v
                    w.val(name, kind, lo, hi, obj)
                else:
                    v = frac_to_float(z)
                    w.env[name] = min(max(v, lo), hi)
            w.fix(self.units)
            for name, z in vals.items():
                if '!' in name and name.startswith('uninit') and name not in self.inputs:
                    try:
                        if z3.is_bv_value(z):
                            w.zs.append((z3.BitVec(name, z.size()), z))
                    except Exception:
                        pass
            ok = all(evalb(c, w) is not False for c in self.cons) and all(evalb(b, w) is not False for b in bs)
            if ok:
                return w
            return w if trial else w
        return None

    def ok_wit(self, w, bs=()):
        return all(evalb(c, w) is True for c in self.cons) and all(evalb(b, w) is True for b in bs)

    # ---------------------------------------------------------------- branching
    def add(self, c):
        self.cons.append(c)
        if self.mode == 'real':
            self.note_bound(c)
        self.known[bkey(c)] = 1
        self.known[bkey(RL.b_not(c))] = 0
        self.pool = [w for w in self.pool if evalb(c, w) is True]

    def affine(self, c):
        """comparison as (key, k, bound side): q op value with q the scaled non-constant part of the normal form"""
        if type(c) is not B or c.op not in ('lt', 'le', 'eq'):
            return None
        try:
            p = RL.padd(RL.poly(c.a), RL.poly(c.b), -1)      # p < 0
        except (TooBig, Unsupported, OverflowError, RecursionError, ZeroDivisionError):
            return None
        if len(p) > 400:
            return None
        p = dict(p)
        c0 = p.pop(RL.ONE, 0)
        if not p:
            return None
        ms = sorted(p)
        k = p[ms[0]]
        key = tuple((m, p[m] / k) for m in ms)
        return key, (-c0 / k), ('eq' if c.op == 'eq' else 'hi' if k > 0 else 'lo')

    def note_bound(self, c):
        r = self.affine(c)
        if r is None:
            return
        key, v, side = r
        lo, hi = self.pbounds.get(key, (None, None))
        if side in ('hi', 'eq') and (hi is None or v < hi):
            hi = v
        if side in ('lo', 'eq') and (lo is None or v > lo):
            lo = v
        self.pbounds[key] = (lo, hi)

    def refuted(self, c):
        """c contradicts an earlier one-sided bound on the same polynomial"""
        if self.mode != 'real' or not self.pbounds:
            return False
        r = self.affine(c)
        if r is None:
            return False
        key, v, side = r
        b = self.pbounds.get(key)
        if b is None:
            return False
        return (side in ('hi', 'eq') and b[0] is not None and v < b[0]) or (side in ('lo', 'eq') and b[1] is not None and v > b[1])

    def path_bounds(self, p):
        """range of a normal form from the path's one-sided bounds on the same polynomial"""
        lo, hi = -math.inf, math.inf
        if self.pbounds and len(p) <= 400:
            p = dict(p)
            c0 = p.pop(RL.ONE, 0)
            if p:
                ms = sorted(p)
                k = p[ms[0]]
                b = self.pbounds.get(tuple((m, p[m] / k) for m in ms))
                if b is not None:
                    e = [None if x is None else k * x + c0 for x in b]
                    if k < 0:
                        e.reverse()
                    lo = lo if e[0] is None else e[0]
                    hi = hi if e[1] is None else e[1]
        return lo, hi

    def decide(self, c):
        if type(c) is int:
            return c
        if c.op == 'and':
            return self.decide(c.a) and self.decide(c.b)
        if c.op == 'or':
            return self.decide(c.a) or self.decide(c.b)
        if c.op == 'not' and c.a.op in ('and', 'or', 'not'):
            return 0 if self.decide(c.a) else 1
        k = self.known.get(bkey(c))
        if k is not None:
            return k
        if self.pos < len(self.prefix):
            e = self.prefix[self.pos]
            self.pos += 1
            self.log.append(e)
            if e[0] == 'b':
                self.add(c if e[1] else RL.b_not(c))
            else:               # forced
                self.known[bkey(c)] = e[1]
                self.known[bkey(RL.b_not(c))] = 1 - e[1]
            return e[1]
        self.sh['decisions'] += 1
        n = RL.b_not(c)
        st = sf = None
        for w in self.pool:
            v = evalb(c, w)
            if v is True:
                st = 'sat'
            elif v is False:
                sf = 'sat'
            if st and sf:
                break
        if st is None and sf == 'sat' and self.mode == 'real' and c.op in ('lt', 'le') and self.poly_le(n):
            st = 'unsat'
        if sf is None and st == 'sat' and self.mode == 'real' and c.op in ('lt', 'le') and self.poly_le(c):
            sf = 'unsat'
        if st is None and self.refuted(c):
            st = 'unsat'
        if sf is None and st != 'unsat' and self.refuted(n):
            sf = 'unsat'
        if st is None:
            st, w = self.check([c], self.feas_ms())
            if w is not None:
                if self.ok_wit(w, [c]):
                    self.pool.append(w)
        if sf is None and st != 'unsat':
            sf, w = self.check([n], self.feas_ms())
            if w is not None and self.ok_wit(w, [n]):
                self.pool.append(w)
        elif sf is None:
            sf = 'assumed'
        if self.mode == 'real':
            for side in (0, 1):
                g, other, mine = (c, sf, st) if side == 0 else (n, st, sf)
                if other == 'sat' and mine not in ('unsat', 'assumed') and not any(evalb(g, w) is True for w in self.pool):
                    if self.nf_unsat([g], 900):
                        if side == 0:
                            st = 'unsat'
                        else:
                            sf = 'unsat'
                    elif self.nfwit is not None:
                        self.pool.append(self.nfwit)
        if st == 'unknown' or sf == 'unknown':
            self.sh['unknown_feas'] += 1
        if st == 'unsat' and sf == 'unsat':
            raise PathEnd('infeasible')
        if st == 'unsat' or sf == 'unsat':
            v = 0 if st == 'unsat' else 1
            self.log.append(('f', v))
            self.pos += 1
            self.known[bkey(c)] = v
            self.known[bkey(n)] = 1 - v
            return v
        # fork: prefer the side backed by a witness
        v = 1
        if st == 'unknown' and sf == 'sat':
            v = 0
        self.sh['forks'] += 1
        self.siblings.append(self.log + [('b', 1 - v)])
        self.log.append(('b', v))
        self.pos += 1
        self.add(c if v else n)
        return v

    def feas_ms(self):
        left = self.sh['deadline'] - time.time()
        if left < 0:
            raise OutOfTime()
        return Q_FEAS_MS if self.mode == 'real' else 20000

    def in_domain(self, c, what):
        """c: the argument is inside the function's domain. Returns True if so (forks when both possible)."""
        if type(c) is int:
            return bool(c)
        k = self.known.get(bkey(c))
        if k is not None:
            return bool(k)
        if self.pos < len(self.prefix):
            return bool(self.decide(c))
        n = RL.b_not(c)
        if any(evalb(n, w) is True and self.margin(n, w) for w in self.pool):
            return bool(self.decide(c))
        r, w = self.check([n], self.feas_ms())
        if r == 'sat' and w is not None and self.ok_wit(w, [n]) and self.margin(n, w):
            self.pool.append(w)
            return bool(self.decide(c))
        if r == 'unsat':
            self.log.append(('f', 1))
        else:
            self.note('domain of %s assumed (solver %s)' % (what, r))
            self.log.append(('b', 1))
            self.cons.append(c)
        self.pos += 1
        self.known[bkey(c)] = 1
        self.known[bkey(n)] = 0
        return True

    def margin(self, b, w):
        if b.op in ('lt', 'le'):
            x, y = evalr(b.a, w), evalr(b.b, w)
            return y - x > 1e-9 * max(1.0, abs(x), abs(y))
        return True

    def zero_den(self, b):
        """denominator b may be zero? policy: 'assume' (record, add b != 0) or 'fork'"""
        c = RL.cmp('eq', b, 0.0)
        if type(c) is int:
            return bool(c)
        k = self.known.get(bkey(c))
        if k is not None:
            return bool(k)
        if self.opts.get('divzero') == 'fork':
            return bool(self.decide(c))
        self.note('division: zero denominator excluded')
        self.cons.append(RL.b_not(c))
        self.known[bkey(c)] = 0
        self.known[bkey(RL.b_not(c))] = 1
        return False

    def concretize(self, v, w, what, limit=None):
        """fork over the feasible values of a symbolic integer"""
        import ops
        v = ops.ival(v, w)
        if type(v) is int:
            return v
        v = ops.simp(v)
        if type(v) is int:
            return v
        if self.pos < len(self.prefix):
            k = self.prefix[self.pos][1]
            self.log.append(self.prefix[self.pos])
            self.pos += 1
            self.add(B('z', v == k))
            return k
        limit = limit or self.opts.get('concretize', 70)
        cs = self.sliced([B('z', v == 0)]) if True else self.cons
        s = z3.Solver()
        s.set('timeout', 30000)
        for c in cs:
            s.add(RL.bz(c))
        vals = []
        t0 = time.time()
        while True:
            self.sh['queries'] += 1
            r = s.check()
            if r == z3.unsat:
                break
            if r != z3.sat:
                raise Bound('solver gave up enumerating %s' % what)
            k = s.model().eval(v, model_completion=True).as_long()
            vals.append(k)
            if len(vals) > limit:
                raise Bound('more than %d values for %s' % (limit, what))
            s.add(v != k)
        self.sh['solver_s'] += time.time() - t0
        if not vals:
            raise PathEnd('infeasible')
        vals.sort()
        k = self.entry_multi(vals)
        self.add(B('z', v == k))
        return k

    def concretize_real(self, v, what, mode='trunc'):
        """fork over the integer part of a symbolic real"""
        limit = self.opts.get('real_ints', 400)
        lo, hi = v.lo, v.hi
        if self.pos < len(self.prefix):
            k = self.prefix[self.pos][1]
            self.log.append(self.prefix[self.pos])
            self.pos += 1
            for c in self.int_cons(v, k, mode):
                if type(c) is B:
                    self.add(c)
            return k
        if lo == -INF or hi == INF or hi - lo > limit:
            # tighten with the solver / pool
            lo, hi = self.tighten(v, lo, hi)
        if lo == -INF or hi == INF or hi - lo > limit:
            raise Bound('%s of a real with range [%g,%g]' % (what, lo, hi))
        kl = math.floor(lo) if mode == 'floor' else math.trunc(lo)
        kh = math.floor(hi) if mode == 'floor' else math.trunc(hi)
        vals = []
        seen = set()
        for w in self.pool:
            x = evalr(v, w)
            if x == x:
                seen.add(math.floor(x) if mode == 'floor' else math.trunc(x))
        for k in range(kl, kh + 1):
            if k in seen:
                vals.append(k)
                continue
            cs = self.int_cons(v, k, mode)
            if any(c == 0 for c in cs if type(c) is int):
                continue
            cs = [c for c in cs if type(c) is B]
            r, w = self.check(cs, self.feas_ms()) if cs else ('sat', None)
            if r != 'unsat':
                vals.append(k)
                if w is not None and self.ok_wit(w, cs):
                    self.pool.append(w)
        if not vals:
            raise PathEnd('infeasible')
        k = self.entry_multi(vals)
        for c in self.int_cons(v, k, mode):
            if type(c) is B:
                self.add(c)
        return k

    def int_cons(self, v, k, mode):
        k = float(k)
        if mode == 'floor':
            return [RL.cmp('le', k, v), RL.cmp('lt', v, k + 1.0)]
        if k > 0:
            return [RL.cmp('le', k, v), RL.cmp('lt', v, k + 1.0)]
        if k < 0:
            return [RL.cmp('lt', k - 1.0, v), RL.cmp('le', v, k)]
        return [RL.cmp('lt', -1.0, v), RL.cmp('lt', v, 1.0)]

    def tighten(self, v, lo, hi):
        xs = [evalr(v, w) for w in self.pool]
        xs = [x for x in xs if x == x]
        if not xs:
            return lo, hi
        a, b = min(xs), max(xs)
        step = max(4.0, b - a)
        for _ in range(3):
            c = RL.cmp('le', b + step, v)
            if type(c) is int or self.check([c], self.feas_ms(), want_model=False)[0] == 'unsat':
                hi = min(hi, b + step)
                break
            step *= 4
        step = max(4.0, b - a)
        for _ in range(3):
            c = RL.cmp('le', v, a - step)
            if type(c) is int or self.check([c], self.feas_ms(), want_model=False)[0] == 'unsat':
                lo = max(lo, a - step)
                break
            step *= 4
        return lo, hi

    # ---------------------------------------------------------------- harness assertions
    def assume(self, c):
        if type(c) is not int and not isinstance(c, B):
            import ops
            c = ops.boolify(c)
        if type(c) is int:
            if not c & 1:
                raise PathEnd('assume')
            return
        if c.op == 'and':
            self.assume(c.a)
            self.assume(c.b)
            return
        k = self.known.get(bkey(c))
        if k == 1:
            return
        if k == 0:
            raise PathEnd('assume')
        self.add(c)
        if not self.pool and self.pos >= len(self.prefix):
            self.refill()

    def refill(self):
        for k in range(400):
            self.widx += 1
            w = Wit(self.widx)
            for name, (kind, lo, hi, obj) in self.inputs.items():
                if type(obj) in (float, int):
                    w.env[name] = obj
                else:
                    w.val(name, kind, lo, hi, obj if isinstance(obj, z3.ExprRef) else None)
            w.fix(self.units)
            if self.ok_wit(w):
                self.pool.append(w)
                if len(self.pool) >= 4:
                    return
        if self.pool:
            return
        if not self.cons:
            return
        r, w = self.check([self.cons[-1]], 2000, full=True)
        if r != 'unsat' and self.mode == 'real' and not (w is not None and self.ok_wit(w)) and self.nf_unsat([], 3000, full=True):
            r = 'unsat'
        if r == 'unsat':
            raise PathEnd('infeasible')
        if not self.pool and w is not None and self.ok_wit(w):
            self.pool.append(w)

    def live(self):
        return self.pos >= len(self.prefix)

    def reach(self, label):
        self.trace.append(('R', label))
        if self.live():
            self.reached.append(label)

    def assert_(self, c, label):
        import ops
        c = ops.boolify(c) if not isinstance(c, B) else c
        self.trace.append(('A', label, c))
        if self.live():
            self.obligation(label, c, None)

    def assert_close(self, a, b, tol, label):
        import ops
        a, b, tol = ops.fv(a), ops.fv(b), ops.fv(tol)
        self.trace.append(('C', label, a, b, tol))
        if self.live():
            self.obligation(label, None, (a, b, tol))

    def assert_le(self, a, b, label):
        import ops
        a, b = ops.fv(a), ops.fv(b)
        c = ops.fcmp('ole', a, b)
        self.trace.append(('L', label, a, b, c))
        if self.live():
            self.obligation(label, c, None, le=(a, b))

    def obligation(self, label, cond, close, le=None):
        t0 = time.time()
        if self.siblings and self.sh.get('emit'):
            self.sh['emit'](self.siblings)      # other workers can start on them while this path proves its obligations
            self.siblings = []
        st, how = 'undecided', ''
        try:
            if close is not None:
                st, how = self.prove_close(label, *close)
            else:
                st, how = self.prove_bool(label, cond, le)
        except OutOfTime:
            st, how = 'undecided', 'out of time'
        self.obls.append((label, st, how, time.time() - t0))

    # a candidate witness for a failing assertion: confirm on the native build
    def candidate(self, w, label, how):
        if w is None:
            return False
        key = (self.opts['entry'], label)
        tries = self.sh['tries']
        if tries.get(key, 0) >= 12:
            return False
        tries[key] = tries.get(key, 0) + 1
        env = {n: w.env.get(n) for n in self.inputs}
        res = native_run(self.opts['native'], self.opts['entry'], env, self.inputs)
        if res is None:
            return False
        if label in res['fails']:
            self.violations.append({'label': label, 'env': jsonable(env), 'how': how, 'native': res['raw'][-2000:], 'entry': self.opts['entry']})
            return True
        return False

    def prove_bool(self, label, c, le=None):
        if type(c) is int:
            if c & 1:
                return 'proved', 'evaluated'
            w = self.some_wit()
            if w is not None and self.candidate(w, label, 'path'):
                return 'violated', 'path'
            r, w = self.check([RL.B('z', z3.BoolVal(True))] if not self.cons else [self.cons[-1]], 8000, full=True)
            if r == 'unsat':
                return 'proved', 'infeasible path'
            if w is not None and self.candidate(w, label, 'path'):
                return 'violated', 'path'
            return 'undecided', 'false on a path not reproduced natively'
        if c.op == 'and':
            a = self.prove_bool(label, c.a)
            if a[0] == 'violated':
                return a
            b = self.prove_bool(label, c.b)
            if b[0] != 'proved':
                return b
            return a
        if self.known.get(bkey(c)) == 1:
            return 'proved', 'on path'
        n = RL.b_not(c)
        for w in self.pool:
            if evalb(n, w) is True and (self.mode == 'bits' or self.robust(n, w)):
                if self.candidate(w, label, 'witness'):
                    return 'violated', 'witness'
        if c.op in ('le', 'lt') and self.mode == 'real':
            r = self.poly_le(c)
            if r:
                return 'proved', r
        ms = self.opts.get('obl_ms', 15000)
        if self.mode == 'bits':
            r, w = self.check([n], self.opts.get('bits_ms', 120000))
            if r == 'unsat':
                return 'proved', 'z3-bv'
            if r == 'sat':
                if self.candidate(w, label, 'solver model'):
                    return 'violated', 'solver model'
                r, w = self.check([n], self.opts.get('bits_ms', 120000), full=True)
                if r == 'unsat':
                    return 'proved', 'z3-bv'
                if w is not None and self.candidate(w, label, 'solver model'):
                    return 'violated', 'solver model'
                return 'undecided', 'model not reproduced'
            return 'undecided', 'solver timeout'
        return self.prove_neg(label, [n], ms)

    def prove_neg(self, label, ns, ms):
        """unsat of path & all(ns)? ladder of engines"""
        spurious = 0
        if self.nf_unsat(ns, ms * 0.5):
            return 'proved', 'normal form + z3 NRA'
        if self.nfwit is not None and self.candidate(self.nfwit, label, 'solver model'):
            return 'violated', 'solver model'
        for tac, t in ((None, ms / 5), ('qfnra-nlsat', ms / 3), (None, ms / 2)):
            r, w = self.check(ns, t, tac)
            if r == 'unsat':
                return 'proved', 'z3' + ('' if tac is None else '-nlsat')
            if r == 'sat' and w is not None:
                if self.ok_wit(w, ns) and self.candidate(w, label, 'solver model'):
                    return 'violated', 'solver model'
                spurious += 1
                if spurious >= 2:
                    break
        w = self.search(ns)
        if w is not None and self.candidate(w, label, 'search'):
            return 'violated', 'search'
        return 'undecided', 'solver'

    def robust(self, n, w):
        """numeric violation beyond rounding noise"""
        if n.op in ('lt', 'le'):
            x, y = evalr(n.a, w), evalr(n.b, w)
            return y - x > 1e-12 * max(abs(x), abs(y))
        return True

    def some_wit(self):
        if self.pool:
            return self.pool[0]
        try:
            self.refill()
        except PathEnd:
            return None
        return self.pool[0] if self.pool else None

    def search(self, ns, n=400):
        """numeric search for a point on the path violating the assertion (candidate only; replay decides)"""
        base = self.pool[:6]
        rng = random.Random(12345)
        for k in range(n):
            self.widx += 1
            w = Wit(self.widx)
            for name, (kind, lo, hi, obj) in self.inputs.items():
                if type(obj) in (float, int):
                    w.env[name] = obj
                    continue
                if base and rng.random() < 0.6:
                    w.env[name] = base[k % len(base)].env.get(name)
                    if kind == 'd' and lo > -INF and hi < INF and rng.random() < 0.3:
                        w.env[name] = min(max(w.env[name] + (hi - lo) * rng.gauss(0, 0.05), lo), hi)
                w.val(name, kind, lo, hi, obj if isinstance(obj, z3.ExprRef) else None)
            w.fix(self.units)
            if all(evalb(b, w) is True for b in ns) and self.ok_wit(w):
                return w
        return None

    # ---------------------------------------------------------------- real obligations
    def prove_close(self, label, a, b, tol):
        if type(a) is float and type(b) is float and type(tol) is float:
            if a == b or abs(a - b) <= tol or (a != a and b != b):
                return 'proved', 'evaluated'
            w = self.some_wit()
            if w is not None and self.candidate(w, label, 'path'):
                return 'violated', 'path'
            r, w = self.check([self.cons[-1]] if self.cons else [], 8000, full=True)
            if r == 'unsat':
                return 'proved', 'infeasible path'
            if w is not None and self.candidate(w, label, 'path'):
                return 'violated', 'path'
            return 'undecided', 'false on a path not reproduced natively'
        if type(a) is F or type(b) is F:
            import ops
            d = ops.X_fabs(ops.F_fsub(a, b)) if False else ops.ENV['X_fabs'](ops.F_fsub(a, b))
            return self.prove_bool(label, ops.fcmp('ole', d, tol))
        if a is b:
            return 'proved', 'identical terms'
        nonfin = [x for x in (a, b) if type(x) is float and (x != x or x in (INF, -INF))]
        if nonfin:
            w = self.some_wit()
            if w is not None and self.candidate(w, label, 'non-finite'):
                return 'violated', 'path'
            return 'undecided', 'non-finite value not reproduced'
        d = RL.sub(a, b)
        if type(tol) is float:
            lo, hi = RL.bounds(d)
            if -tol <= lo and hi <= tol:
                return 'proved', 'interval'
        for w in self.pool:
            x, y, t = evalr(a, w), evalr(b, w), evalr(tol, w)
            if x == x and y == y and abs(x - y) > t:
                if self.candidate(w, label, 'witness'):
                    return 'violated', 'witness'
            elif x != x or y != y:
                pass
        if type(tol) is float:
            r = self.poly_close(a, b, tol)
            if r:
                return 'proved', r
        ms = self.opts.get('obl_ms', 15000)
        up = RL.cmp('lt', tol, d)
        dn = RL.cmp('lt', d, RL.neg(tol))
        hows = []
        for c in (up, dn):
            if type(c) is int:
                if c == 0:
                    continue
                return 'undecided', 'interval'
            st, how = self.prove_neg(label, [c], ms)
            if st != 'proved':
                return st, how
            hows.append(how)
        return 'proved', hows[0] if hows else 'interval'

    def poly_close(self, a, b, tol):
        try:
            if not RL.coarse(lambda: RL.padd(RL.poly(a), RL.poly(b), -1)):
                return self.confirm_zero()
        except (TooBig, Unsupported, OverflowError, RecursionError, ZeroDivisionError):
            pass
        try:
            p = RL.padd(RL.poly(a), RL.poly(b), -1)
            if not p:
                return self.confirm_zero()
            lo, hi = RL.poly_bounds(p)
            b = self.path_bounds(p)
            lo, hi = max(lo, b[0]), min(hi, b[1])
            if -tol <= lo and hi <= tol:
                return self.confirm_lin(p, tol, b) or None
            q = RL.pclear(p)
            if not q:
                return self.confirm_zero()
            # numerator tiny relative to the denominators: p = q / D, D = prod of cleared atoms
            r = self.ratio_bound(p, q, tol)
            if r:
                return r
            if os.environ.get('VSYM_DBG'):
                print('    DBG %s: %s' % (self.opts['entry'], RL.pshow(q)))
                for c in self.cons[-8:]:
                    print('        on path:', c)
            return None
        except (TooBig, Unsupported, OverflowError, RecursionError, ZeroDivisionError) as e:
            if os.environ.get('VSYM_DBG'):
                print('    DBG %s: %r' % (self.opts['entry'], e))
                if os.environ['VSYM_DBG'] == '2':
                    traceback.print_exc()
            return None

    def nf_cons(self, b):
        """z3 formula of a comparison over normal-form atoms (None if too big)"""
        if type(b) is int:
            return z3.BoolVal(bool(b)), set()
        if b.op in ('and', 'or'):
            x, y = self.nf_cons(b.a), self.nf_cons(b.b)
            if x is None or y is None:
                return None
            return (z3.And if b.op == 'and' else z3.Or)(x[0], y[0]), x[1] | y[1]
        if b.op == 'not':
            x = self.nf_cons(b.a)
            return None if x is None else (z3.Not(x[0]), x[1])
        if b.op == 'z':
            return None
        try:
            p = RL.pclear_sign(RL.padd(RL.poly(b.b), RL.poly(b.a), -1))
        except (TooBig, Unsupported, OverflowError, RecursionError, ZeroDivisionError):
            return None
        if len(p) > 1500:
            return None
        used = {x for m in p for x, e in m}
        z = RL.poly_z(p)
        return (z > 0 if b.op == 'lt' else z >= 0 if b.op == 'le' else z == 0), used

    def nf_unsat(self, goals, ms, full=False):
        """normal-form rendering of path constraints + goals is unsatisfiable (dropping constraints is sound)"""
        fs, used = [], set()
        self.nfwit = None
        for g in goals:
            r = self.nf_cons(g)
            if r is None:
                return False
            fs.append(r[0])
            used |= r[1]
        cs = []
        for c in (self.cons if full else self.sliced(goals)):
            r = self.nf_cons(c)
            if r is not None:
                cs.append(r[0])
                used |= r[1]
        ax, _ = RL.atom_axioms(used)
        for mk, t in ((lambda: z3.Tactic('qfnra-nlsat').solver(), ms * 0.6), (z3.Solver, ms * 0.4)):
            self.sh['queries'] += 1
            t0 = time.time()
            try:
                s = mk()
                s.set('timeout', int(t))
                for f in fs + cs + ax:
                    s.add(f)
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
            self.sh['solver_s'] += time.time() - t0
            if r == z3.unsat:
                return True
            if r == z3.sat:
                self.nf_model(s.model(), used, goals)
                return False
        return False

    def nf_model(self, mdl, used, goals):
        """turn a model over normal-form atoms into an input witness for the path (kept only if it checks out)"""
        vals = {}
        for a in list(used):
            kind, pl = RL._patoms[a]
            if kind in ('n', 'unit') and pl.op == 'v':
                z = mdl.eval(RL.patom_z(a))
                if z3.is_rational_value(z) or z3.is_algebraic_value(z):
                    vals[pl.args[0]] = frac_to_float(z)
        base = self.pool[0] if self.pool else None
        self.widx += 1
        w = Wit(self.widx)
        for name, (kind, lo, hi, obj) in self.inputs.items():
            if type(obj) is float or type(obj) is int:
                w.env[name] = obj
            elif name in vals:
                w.env[name] = min(max(vals[name], lo), hi)
            elif base is not None and base.env.get(name) is not None and not isinstance(obj, z3.ExprRef):
                w.env[name] = base.env[name]
            else:
                w.val(name, kind, lo, hi, obj if isinstance(obj, z3.ExprRef) else None)
        w.fix(self.units)
        self.nfwit = w if self.ok_wit(w, goals) else None
        if self.nfwit is not None and not goals:
            self.pool.append(w)

    def ratio_bound(self, p, q, tol):
        RL.PB = self.pbounds
        try:
            return self.ratio_bound1(p, q, tol)
        finally:
            RL.PB = None

    def ratio_bound1(self, p, q, tol):
        if len(q) > 4000:
            return None
        cmax = max(abs(c) for c in q.values())
        c0 = max(abs(c) for c in p.values())
        if cmax > c0 * Fraction(1, 10 ** 6):
            return None
        # worst exponents cleared
        worst = {}
        cur = p
        D = 1.0
        for m in p:
            for at, e in m:
                if e < 0:
                    worst[at] = min(worst.get(at, 0), e)
        # |x| <= sqrt(P / c) for a cleared denominator P = c x^2 + (other even, positive terms)
        dom, K, rng, sq = {}, {}, {}, {}
        for at, e in list(worst.items()):
            kind, P = RL._patoms[at]
            if kind not in ('den', 'sqrt') or not all(c > 0 and all(x % 2 == 0 for _, x in m) for m, c in P.items()):
                continue
            lo, hi = RL.pl_bounds(P)
            if lo <= 0:
                continue
            key = RL.pkey(P)
            if kind == 'sqrt':
                sq[at] = key
            else:
                s_at = RL._patom_key.get(('sqrt', key))
                if s_at is not None:
                    sq[s_at] = key
            rng[key] = (math.sqrt(lo), math.sqrt(hi))
            K[key] = K.get(key, 0) - e * (1 if kind == 'sqrt' else 2)
            for m, c in P.items():
                if len(m) == 1 and m[0][1] == 2:
                    dom.setdefault(m[0][0], (key, float(c) ** -0.5))
            del worst[at]
        for at, e in worst.items():
            lo, hi = RL.atom_bounds(at)
            mn = lo if lo > 0 else (-hi if hi < 0 else 0.0)
            if mn <= 0:
                return None
            D *= mn ** (-e)
        if K:
            tot, parts = 0.0, []
            for m, c in q.items():
                v, ex = abs(float(c)), {k: -e for k, e in K.items()}
                for a, e in m:
                    if a in sq:
                        ex[sq[a]] += e
                    elif a in dom and e > 0:
                        ex[dom[a][0]] += e
                        v *= dom[a][1] ** e
                    else:
                        l, h = RL.mono_bounds(((a, e),))
                        v *= max(abs(l), abs(h))
                for k, e in ex.items():
                    v *= max(rng[k][0] ** e, rng[k][1] ** e)
                tot += v
                parts.append(v / D * 1.000001)
            if tot <= tol * D * 0.99:
                return self.confirm_parts(parts, tol)
            return None
        lo, hi = RL.poly_bounds(q)
        if max(abs(lo), abs(hi)) <= tol * D * 0.99:
            return self.confirm_parts([max(abs(lo), abs(hi)) / D], tol)
        return None

    def confirm_parts(self, parts, tol):
        """z3 (linear arithmetic): residual terms, each within its own bound, cannot add up beyond tol"""
        self.sh['queries'] += 1
        t0 = time.time()
        s = z3.SolverFor('QF_LRA')
        s.set('timeout', 10000)
        if len(parts) > 600:
            parts = sorted(parts, reverse=True)
            parts = parts[:599] + [sum(parts[599:]) * 1.000001]
        ts = []
        for k, v in enumerate(parts):
            x = z3.Real('term!%d' % k)
            s.add(x >= RL.fz(-v), x <= RL.fz(v))
            ts.append(x)
        sm = z3.Sum(ts)
        s.add(z3.Or(sm > RL.fz(tol), sm < -RL.fz(tol)))
        r = s.check()
        self.sh['solver_s'] += time.time() - t0
        return 'normal form + z3 LRA residual bound' if r == z3.unsat else None

    def confirm_zero(self):
        self.sh['queries'] += 1
        s = z3.Solver()
        s.add(z3.RealVal(0) != 0)
        return 'normal form zero' if s.check() == z3.unsat else None

    def confirm_lin(self, p, tol, bnd=(-math.inf, math.inf)):
        """z3 (linear arithmetic): monomials as bounded constants, |sum| <= tol"""
        if len(p) > 600:
            return 'normal form, residual bounded (interval)'
        self.sh['queries'] += 1
        t0 = time.time()
        s = z3.SolverFor('QF_LRA')
        s.set('timeout', 10000)
        ts = []
        for k, (m, c) in enumerate(p.items()):
            if not m:
                ts.append(RL.fzq(c))
                continue
            x = z3.Real('mono!%d' % k)
            l, h = RL.mono_bounds(m)
            s.add(x >= RL.fz(l), x <= RL.fz(h))
            ts.append(RL.fzq(c) * x)
        sm = z3.Sum(ts)
        s.add(z3.Or(sm > RL.fz(tol), sm < -RL.fz(tol)))
        for lim, lower in ((bnd[0], True), (bnd[1], False)):      # the path's own bound on this polynomial
            if abs(lim) != math.inf:
                s.add(sm >= RL.fzq(lim) if lower else sm <= RL.fzq(lim))
        r = s.check()
        self.sh['solver_s'] += time.time() - t0
        return 'normal form + z3 LRA residual bound' if r == z3.unsat else None

    def confirm_path(self, p, lo, op):
        """z3 (linear arithmetic over monomials): a path condition bounding the same polynomial below entails p >= 0 (or > 0)"""
        self.sh['queries'] += 1
        t0 = time.time()
        s = z3.SolverFor('QF_LRA')
        s.set('timeout', 10000)
        sm = z3.Sum([RL.fzq(c) * z3.Real('mono!%d' % k) if m else RL.fzq(c) for k, (m, c) in enumerate(p.items())])
        s.add(sm >= RL.fzq(lo), sm < 0 if op == 'le' else sm <= 0)
        r = s.check()
        self.sh['solver_s'] += time.time() - t0
        return r == z3.unsat

    def poly_le(self, c):
        try:
            p = RL.padd(RL.poly(c.b), RL.poly(c.a), -1)
            lo, hi = RL.poly_bounds(p)
            if lo > 0 or (lo >= 0 and c.op == 'le'):
                return 'normal form bound'
            if not p and c.op == 'le':
                return self.confirm_zero()
            b = self.path_bounds(p)[0]
            if (b > 0 or (b >= 0 and c.op == 'le')) and self.confirm_path(p, b, c.op):
                return 'normal form + z3 LRA path bound'
            q = RL.pclear(p)
            if not q and c.op == 'le':
                return self.confirm_zero()
        except (TooBig, Unsupported, OverflowError, RecursionError, ZeroDivisionError):
            pass
        return None


def jsonable(env):
    return {k: (v.hex() if isinstance(v, float) else v) for k, v in env.items()}


# -------------------------------------------------------------------------------------------- native replay
def write_inputs(path, env):
    with open(path, 'w') as f:
        for k, v in env.items():
            if v is None:
                continue
            if isinstance(v, float):
                f.write('d %s %s\n' % (k.replace(' ', '_'), v.hex() if v == v and v not in (INF, -INF) else repr(v)))
            else:
                f.write('i %s %d\n' % (k.replace(' ', '_'), v))


def _nolimit():
    resource.setrlimit(resource.RLIMIT_AS, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))


def native_run(native, entry, env, inputs=None, timeout=20):
    if not native or not os.path.exists(native):
        return None
    p = '/tmp/vsym_in_%d.txt' % os.getpid()
    e2 = dict(env)
    if inputs:
        for k, (kind, lo, hi, obj) in inputs.items():
            if kind == 'd' and e2.get(k) is not None:
                e2[k] = float(e2[k])
    write_inputs(p, e2)
    try:
        r = subprocess.run([native, entry, p], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, preexec_fn=_nolimit,
                           env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=0'))
    except subprocess.TimeoutExpired:
        return {'fails': {'timeout'}, 'lines': [], 'raw': 'TIMEOUT', 'rc': -1}
    finally:
        try:
            os.remove(p)
        except OSError:
            pass
    out = r.stdout.decode('latin1')
    err = r.stderr.decode('latin1')
    lines = []
    fails = set()
    for l in out.split('\n'):
        if not l.startswith('@'):
            continue
        f = l[1:].split('\t')
        lines.append(f)
        if f[0] in 'ACL' and f[-1] == '0':
            fails.add(f[1])
    san = None
    if 'AddressSanitizer' in err or 'runtime error' in err:
        san = err[err.find('AddressSanitizer') if 'AddressSanitizer' in err else err.find('runtime error'):][:300]
        fails.add('memory')
    if r.returncode < 0 or (r.returncode in (134, 139, 136)):
        fails.add('memory')
        fails.add('crash')
    if not any(f[0] in ('END', 'THROW', 'EXIT', 'ASSUME') for f in lines):
        fails.add('abnormal end')
    return {'fails': fails, 'lines': lines, 'raw': (out[-1500:] + '\n' + err[-1500:]), 'rc': r.returncode, 'san': san}


def cosim(path, res, w):
    """compare native output lines with the symbolic trace evaluated at w. -> 'match' | 'diverge' | 'mismatch: ..'"""
    lines = [f for f in res['lines'] if f[0] in ('R', 'A', 'C', 'L')]
    tr = path.trace
    if len(lines) != len(tr):
        return 'diverge: %d/%d %s' % (len(lines), len(tr), res['raw'][-300:] if os.environ.get('VSYM_TRACE') else '')
    for f, t in zip(lines, tr):
        if f[0] != t[0] or f[1] != t[1]:
            return 'diverge'
        if t[0] in 'CL':
            for fs, sv in ((f[2], t[2]), (f[3], t[3])):
                nv = float.fromhex(fs) if 'x' in fs else float(fs)
                v = evalr(sv, w)
                if v is None or (v != v and nv != nv):
                    continue
                if v == nv:
                    continue
                tol = t[4] if t[0] == 'C' and type(t[4]) is float else 0.0
                if not abs(v - nv) <= max(1e-6 * max(abs(v), abs(nv), 1e-3), min(tol, 1e300)):
                    return 'mismatch: %s native %r model %r' % (t[1], nv, v)
        elif t[0] == 'A':
            v = evalb(t[2], w) if not isinstance(t[2], int) else bool(t[2])
            if v is not None and int(v) != int(f[-1]):
                return 'mismatch: %s native %s model %r' % (t[1], f[-1], v)
    return 'match'


# -------------------------------------------------------------------------------------------- worker
def run_path(mach, entry, prefix, opts, sh):
    """-> result dict"""
    opts = dict(opts, entry=entry)
    if len(RL._nodes) > 1500000:
        RL.reset()
    P = Path(mach, prefix, opts, sh)
    mach.reset_path(P)
    t0 = time.time()
    f0 = mach.fuel[0]
    status = 'done'
    detail = ''
    code = None
    try:
        mach.call(entry)
        if P.caught:
            pass
    except PathEnd as e:
        status = e.why
        code = e.code
    except CxxThrow as e:
        status = 'exception'
        detail = str(mach.models.ti_name(e.tinfo))
    except MemError as e:
        status = 'memory'
        detail = str(e)
    except Bound as e:
        status = 'bound'
        detail = str(e)
    except Unsupported as e:
        status = 'unsupported'
        detail = str(e) + ' @ ' + where()
    except OutOfTime:
        status = 'time'
    except z3.Z3Exception as e:
        status = 'unsupported'
        detail = 'z3: ' + str(e)[:200] + ' @ ' + where()
    except RecursionError:
        status = 'bound'
        detail = 'recursion'
    except MemoryError:
        status = 'bound'
        detail = 'memory limit'
    except (TypeError, AttributeError, KeyError, IndexError, ValueError, OverflowError, ZeroDivisionError) as e:
        status = 'unsupported'
        detail = 'engine: %s: %s @ %s' % (type(e).__name__, str(e)[:200], where())
        if os.environ.get('VSYM_TRACE'):
            traceback.print_exc()
    if status in ('memory', 'abort', 'pure virtual call', 'assert-failed', 'exception', 'unreachable', 'exit'):
        label = {'memory': 'memory', 'abort': 'crash', 'pure virtual call': 'crash', 'assert-failed': 'crash',
                 'exception': 'uncaught exception', 'unreachable': 'unreachable', 'exit': 'program exit'}[status]
        bad = True
        st, how = 'undecided', 'not reproduced'
        r = None
        if bad:
            def attempt(w):
                env = {n: w.env.get(n) for n in P.inputs}
                res = native_run(opts['native'], entry, env, P.inputs)
                if res is None:
                    return False
                hit = (label in res['fails'] or (label in ('unreachable', 'crash', 'memory') and ({'memory', 'crash'} & res['fails']))
                       or (label == 'uncaught exception' and any(f[0] == 'THROW' for f in res['lines']))
                       or (label == 'program exit' and any(f[0] == 'EXIT' for f in res['lines'])))
                if hit:
                    P.violations.append({'label': label, 'env': jsonable(env), 'how': status + ': ' + detail, 'native': res['raw'][-2000:], 'entry': entry})
                return hit
            try:
                ws = P.pool[:3] or ([P.some_wit()] if P.some_wit() else [])
                if any(attempt(w) for w in ws):
                    st, how = 'violated', status
                elif not ws:
                    if P.mode == 'real' and P.nf_unsat([], 6000, full=True):
                        st, how = 'proved', 'infeasible path'
                    else:
                        r, w = P.check([P.cons[-1]] if P.cons else [], 5000, full=True)
                        if r == 'unsat':
                            st, how = 'proved', 'infeasible path'
                        elif w is not None and attempt(w):
                            st, how = 'violated', status
            except PathEnd:
                st, how = 'proved', 'infeasible path'
            except OutOfTime:
                pass
        P.obls.append((label, st, how + ((' ' + detail[:160]) if detail else ''), 0.0))
    cos = None
    if status in ('done', 'end') and sh['cosim_left'] > 0 and not P.violations:
        try:
            w = P.pool[0] if P.pool else None
            if w is None and P.cons:
                P.refill()
                w = P.pool[0] if P.pool else None
            elif w is None:
                w = Wit(0)
        except (PathEnd, OutOfTime):
            w = None
        if w is not None:
            sh['cosim_left'] -= 1
            env = {n: w.env.get(n) for n in P.inputs}
            res = native_run(opts['native'], entry, env, P.inputs)
            if res is not None:
                cos = cosim(P, res, w)
                if res['fails'] and cos != 'diverge':
                    # the native run fails although the exact model holds: rounding beyond the stated tolerance
                    bad = res['fails']
                    labs = {o[0] for o in P.obls}
                    for b in bad:
                        cos = 'native-fail: ' + b
    return {'status': status, 'detail': detail, 'siblings': P.siblings, 'obls': P.obls, 'viol': P.violations, 'notes': P.notes,
            'reached': P.reached, 'cosim': cos, 'steps': f0 - mach.fuel[0], 'inputs': {k: (v[0], v[1], v[2]) for k, v in P.inputs.items()},
            'depth': len(P.log), 'time': time.time() - t0, 'prefix': prefix,
            'sample': jsonable({n: P.pool[0].env.get(n) for n in P.inputs}) if P.pool else None}


def where():
    tb = sys.exc_info()[2]
    out = []
    for f in traceback.extract_tb(tb):
        if f.filename.startswith('<_Z') or f.filename.startswith('<chk') or f.filename.startswith('<thr'):
            out.append(f.filename[1:-1])
    return ' < '.join(reversed(out[-4:]))[:300]


def worker(mach, opts, tq, rq, wid):
    sys.setrecursionlimit(60000)
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    try:
        resource.setrlimit(resource.RLIMIT_AS, (opts.get('mem_gb', 8) << 30, resource.RLIM_INFINITY))
    except ValueError:
        pass
    z3.set_param('memory_max_size', 3000)
    sh = {'tries': {}, 'deadline': opts['deadline']}
    while True:
        t = tq.get()
        if t is None:
            break
        tid, entry, prefix, cosim_ok = t
        for k in STATS_KEYS:
            sh[k] = 0
        sh['cosim_left'] = 1 if cosim_ok else 0
        enc0 = set(mach.encoded)
        sh['emit'] = lambda sib: rq.put((None, (entry, list(sib))))
        try:
            r = run_path(mach, entry, prefix, opts, sh)
        except BaseException as e:
            r = {'status': 'unsupported', 'detail': 'worker: %r' % e, 'siblings': [], 'obls': [], 'viol': [], 'notes': {}, 'reached': [],
                 'cosim': None, 'steps': 0, 'inputs': {}, 'depth': 0, 'time': 0, 'prefix': prefix, 'sample': None}
            if os.environ.get('VSYM_TRACE'):
                traceback.print_exc()
        r['tid'] = tid
        r['entry'] = entry
        r['stats'] = {k: sh[k] for k in STATS_KEYS}
        r['encoded'] = list(mach.encoded - enc0)
        rq.put((wid, r))


def explore(mach, entries, opts, nproc=8, log=None):
    """Explore all entries. -> list of results, leftovers"""
    ctx = mp.get_context('fork')
    rq = ctx.Queue()
    results = []
    backlog = {e: [[]] for e in entries}
    order = list(entries)
    ncos = {e: 0 for e in entries}
    npath = {e: 0 for e in entries}
    maxpaths = opts.get('max_paths', 4000)
    nproc = min(nproc, opts.get('nproc', 8))
    tqs, procs, busy = {}, {}, {}

    def spawn(wid):
        tqs[wid] = ctx.Queue()
        procs[wid] = ctx.Process(target=_worker_thread, args=(mach, opts, tqs[wid], rq, wid), daemon=True)
        procs[wid].start()
        busy[wid] = None

    for i in range(nproc):
        spawn(i)
    nextw = nproc
    tid = 0
    rr = 0
    leftover = 0
    lost = []
    hard = opts.get('path_s', 240)
    while True:
        # dispatch
        now = time.time()
        for wid in list(procs):
            if busy[wid] is not None:
                continue
            if now > opts['deadline']:
                continue
            pick = None
            for k in range(len(order)):
                e = order[(rr + k) % len(order)]
                if backlog[e] and npath[e] < maxpaths:
                    pick = e
                    rr = (rr + k + 1) % len(order)
                    break
            if pick is None:
                break
            pfx = backlog[pick].pop()
            npath[pick] += 1
            tid += 1
            co = ncos[pick] < opts.get('cosim', 12)
            if co:
                ncos[pick] += 1
            busy[wid] = (tid, pick, pfx, now)
            tqs[wid].put((tid, pick, pfx, co))
        if all(b is None for b in busy.values()):
            break
        try:
            wid, r = rq.get(timeout=1.0)
            if wid is None:
                backlog[r[0]].extend(r[1])
                continue
            results.append(r)
            busy[wid] = None
            backlog[r['entry']].extend(r['siblings'])
            if log:
                log(r)
            if opts.get('stop') and opts['stop'](r):
                # a confirmed new violation decides the property: do not start further paths, give running ones 5 s
                opts['deadline'] = min(opts['deadline'], time.time() - 25)
        except queue.Empty:
            pass
        now = time.time()
        for wid in list(procs):
            b = busy[wid]
            if b is None:
                continue
            dead = not procs[wid].is_alive()
            if dead or now - b[3] > hard or now > opts['deadline'] + 30:
                if not dead:
                    os.kill(procs[wid].pid, signal.SIGKILL)
                procs[wid].join(5)
                lost.append((b[1], b[2], 'worker died' if dead else 'hard time limit'))
                del procs[wid], busy[wid], tqs[wid]
                if now < opts['deadline']:
                    spawn(nextw)
                    nextw += 1
        if not procs:
            break
    for wid in procs:
        tqs[wid].put(None)
    for wid in procs:
        procs[wid].join(2)
        if procs[wid].is_alive():
            os.kill(procs[wid].pid, signal.SIGKILL)
    left = {e: len(b) for e, b in backlog.items() if b}
    return results, left, lost


def _worker_thread(*a):
    import threading
    threading.stack_size(512 << 20)
    t = threading.Thread(target=worker, args=a)
    t.start()
    t.join()
