"""LLVM bitcode -> Python translation with symbolic values, plus the memory model and the runtime models.

Value domains
  integer iN    : Python int (canonical unsigned) | z3 BitVec(N) | for i1 also reals.B
  double        : Python float | reals.R (real mode) | F (bits mode, z3 FP)
  pointer       : Python int  (object id << 32) + PAD + offset
  aggregates    : tuple
"""
import math
import re
import struct
import sys
import z3
import llvmc as L
import reals as RL
from reals import R, B, Unsupported

PAD = 0x100000
M32 = 0xffffffff
M64 = (1 << 64) - 1
INF = math.inf
NAN = math.nan


class F:
    """bit-precise floating value (z3 FP)"""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e


RNE = z3.RNE()
FP64 = z3.Float64()
FP32 = z3.Float32()


class PathEnd(Exception):
    def __init__(self, why, code=None):
        self.why = why
        self.code = code


class MemError(Exception):
    pass


class Bound(Exception):
    pass


class CxxThrow(Exception):
    def __init__(self, ptr, tinfo):
        self.ptr = ptr
        self.tinfo = tinfo


class Obj:
    __slots__ = ('size', 'cells', 'base', 'freed', 'name', 'kind', 'ro')

    def __init__(self, size, name='', kind='heap', base=None):
        self.size = size
        self.cells = {}
        self.base = base        # None: uninitialised; bytes: initial contents; 0: zeros
        self.freed = False
        self.name = name
        self.kind = kind
        self.ro = False


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


def sx(v, w):
    """signed interpretation of canonical unsigned int"""
    return v - (1 << w) if v >> (w - 1) else v


def f2i(v):
    return struct.unpack('<Q', struct.pack('<d', v))[0]


def i2f(v):
    return struct.unpack('<d', struct.pack('<Q', v))[0]


def r32(v):
    if v != v or v in (INF, -INF):
        return v
    try:
        return struct.unpack('<f', struct.pack('<f', v))[0]
    except OverflowError:
        return math.copysign(INF, v)


class Machine:
    """Module-wide (path independent) part."""

    def __init__(self, path, mode='real'):
        self.mod = L.Module(path)
        self.mode = mode
        self.addr_of = {}       # global name -> address
        self.obj_name = {}      # obj id -> (kind, name)
        self.next_static = 1
        self.code = {}          # function name -> python callable
        self.fn_by_id = {}
        self.encoded = set()    # functions executed
        self.src_lines = 0
        self.template = {}
        self.E = None           # current path
        self.objs = {}
        self.next_obj = 0
        for n in list(self.mod.functions) + list(self.mod.globals):
            i = self.next_static
            self.next_static += 1
            self.addr_of[n] = (i << 32) + PAD
            self.obj_name[i] = n
        self.first_dyn = self.next_static + 16
        self.template_next = self.first_dyn
        self._const_cache = {}
        self._attr_byval = L.L.LLVMGetEnumAttributeKindForName(b"byval", 5)
        L.L.LLVMGetEnumAttributeAtIndex.restype = L.P
        L.L.LLVMGetEnumAttributeAtIndex.argtypes = [L.P, L.U, L.U]
        L.L.LLVMGetTypeAttributeValue.restype = L.P
        L.L.LLVMGetTypeAttributeValue.argtypes = [L.P]
        import models
        self.models = models
        models.install(self)
        self._mkenv()

    # ------------------------------------------------------------------ memory
    def reset_path(self, E):
        self.E = E
        self.objs = {}
        self.next_obj = self.template_next
        self.fuel[0] = E.fuel

    def freeze_template(self):
        self.template = self.objs
        self.template_next = self.next_obj
        self.objs = {}

    def getobj(self, oid):
        o = self.objs.get(oid)
        if o is not None:
            return o
        t = self.template.get(oid)
        if t is not None:
            if t.ro or t.freed:
                self.objs[oid] = t
                return t
            o = Obj(t.size, t.name, t.kind, t.base)
            o.cells = dict(t.cells)
            self.objs[oid] = o
            return o
        n = self.obj_name.get(oid)
        if n is None:
            return None
        o = self._load_global(n)
        self.objs[oid] = o
        return o

    def _load_global(self, n):
        g = self.mod.globals.get(n)
        if g is None:
            return Obj(0, n, 'func')
        t = self.mod.ty(L.GlobalGetValueType(g))
        init = L.GetInitializer(g) if not L.IsDeclaration(g) else None
        if init is None:
            o = Obj(max(t.size, 4096), n, 'extern', 0)
            return o
        o = Obj(t.size, n, 'global', 0)
        self._init_const(o, 0, init, t)
        o.ro = bool(L.IsGlobalConstant(g))
        return o

    def _init_const(self, o, off, v, t):
        vk = L.VK[L.GetValueKind(v)]
        if vk == 'cazero' or vk == 'cnull' or vk in ('undef', 'poison'):
            return
        if vk in ('carray', 'cdarray', 'cdvector', 'cvector'):
            et = t.elem
            if vk == 'cdarray' and L.IsConstantString(v):
                n = L.C.c_size_t()
                p = L.GetAsString(v, L.C.byref(n))
                s = L.C.string_at(p, n.value)
                for i, c in enumerate(s):
                    if c:
                        o.cells[off + i] = (1, c)
                return
            for i in range(t.n):
                self._init_const(o, off + i * et.size, L.GetAggregateElement(v, i), et)
            return
        if vk == 'cstruct':
            for i in range(t.n):
                self._init_const(o, off + t.offs[i], L.GetAggregateElement(v, i), t.elems[i])
            return
        o.cells[off] = (t.size, self.const(v))

    def alloc(self, size, name='heap', kind='heap', base=None):
        i = self.next_obj
        self.next_obj = i + 1
        o = Obj(size, name, kind, base)
        self.objs[i] = o
        return (i << 32) + PAD

    def deref(self, a, size, what):
        if type(a) is not int:
            a = self.E.concretize(a, 64, 'pointer')
        oid = a >> 32
        off = (a & M32) - PAD
        o = self.getobj(oid)
        if o is None:
            if oid == 0:
                raise MemError('%s of %d bytes through null pointer' % (what, size))
            raise MemError('%s of %d bytes through invalid pointer (dead stack object or wild)' % (what, size))
        if o.freed:
            raise MemError('%s of freed memory' % what)
        if off < 0 or off + size > o.size:
            raise MemError('%s out of bounds: offset %d size %d in %s object of %d bytes (%s)' % (what, off, size, o.kind, o.size, o.name))
        return o, off

    def byte_at(self, o, off):
        """value (int | BV8 | UNDEF) of one byte"""
        for k in range(off, max(off - 17, -1), -1):
            c = o.cells.get(k)
            if c is not None:
                if k + c[0] > off:
                    return self.val_byte(c[1], c[0], off - k)
                break
        b = o.base
        if b is None:
            return UNDEF
        if b == 0:
            return 0
        return b[off]

    def val_byte(self, v, size, i):
        if type(v) is float:
            v = f2i(v) if size == 8 else struct.unpack('<I', struct.pack('<f', v))[0]
        if type(v) is int:
            return (v >> (8 * i)) & 255
        if v is UNDEF:
            return UNDEF
        if isinstance(v, F):
            v = z3.fpToIEEEBV(v.e)
        if isinstance(v, B):
            v = z3.If(RL.bz(v), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
            return v if i == 0 else 0
        if isinstance(v, z3.BitVecRef):
            if v.size() < size * 8:
                v = z3.ZeroExt(size * 8 - v.size(), v)
            return z3.Extract(8 * i + 7, 8 * i, v)
        raise Unsupported('byte access to symbolic real value')

    def load(self, a, size, kind):
        o, off = self.deref(a, size, 'read')
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            return self.conv(c[1], size, kind)
        # assembled
        bs = [self.byte_at(o, off + i) for i in range(size)]
        if any(b is UNDEF for b in bs):
            if all(b is UNDEF for b in bs):
                return self.undef(size, kind, o, off)
            bs = [0 if b is UNDEF else b for b in bs]
        if all(type(b) is int for b in bs):
            v = 0
            for i, b in enumerate(bs):
                v |= b << (8 * i)
        else:
            bv = [z3.BitVecVal(b, 8) if type(b) is int else b for b in bs]
            v = bv[0] if size == 1 else z3.simplify(z3.Concat(*reversed(bv)))
        return self.conv(v, size, kind)

    def undef(self, size, kind, o, off):
        if kind == 'd' or kind == 'f':
            return self.E.uninit(size, kind, o, off)
        return UNDEF if size > 1 or True else 0

    def conv(self, v, size, kind):
        tv = type(v)
        if kind == 'd':
            if tv is float or tv is R or tv is F:
                return v
            if tv is int:
                return i2f(v)
            if v is UNDEF:
                return self.E.uninit(size, kind, None, 0)
            if isinstance(v, z3.BitVecRef) and self.mode == 'bits':
                return F(z3.simplify(z3.fpBVToFP(v, FP64)))
            raise Unsupported('symbolic bits read as double')
        if kind == 'f':
            if tv is float or tv is R or tv is F:
                return v
            if tv is int:
                return struct.unpack('<f', struct.pack('<I', v))[0]
            if v is UNDEF:
                return self.E.uninit(size, kind, None, 0)
            if isinstance(v, z3.BitVecRef) and self.mode == 'bits':
                return F(z3.simplify(z3.fpBVToFP(v, FP32)))
            raise Unsupported('symbolic bits read as float')
        if kind == 'b':      # i1
            if tv is int:
                return v & 1
            if isinstance(v, z3.BitVecRef):
                return B('z', z3.Extract(0, 0, v) == 1)
            return v
        # integers / pointers
        if tv is float:
            return f2i(v) if size == 8 else struct.unpack('<I', struct.pack('<f', v))[0]
        if tv is F:
            return z3.fpToIEEEBV(v.e)
        if tv is B and size == 1:
            return z3.If(RL.bz(v), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
        if isinstance(v, z3.BitVecRef) and kind == 'i' and v.size() < size * 8:
            return z3.ZeroExt(size * 8 - v.size(), v)
        return v

    def store(self, a, size, v):
        o, off = self.deref(a, size, 'write')
        if o.ro:
            raise MemError('write to constant %s' % o.name)
        c = o.cells.get(off)
        if c is None or c[0] != size:
            self.clear(o, off, size)
        o.cells[off] = (size, v)

    def clear(self, o, off, size):
        """remove cells overlapping [off, off+size), keeping the uncovered bytes"""
        cells = o.cells
        end = off + size
        if size > 64 and len(cells) < size:
            ks = [k for k in cells if k < end and k + cells[k][0] > off]
        else:
            ks = [k for k in range(max(off - 16, 0), end) if k in cells and k + cells[k][0] > off]
        for k in ks:
            s, v = cells.pop(k)
            if k < off:
                for i in range(k, off):
                    b = self.val_byte(v, s, i - k)
                    if b is not UNDEF:
                        cells[i] = (1, b)
            if k + s > end:
                for i in range(end, k + s):
                    b = self.val_byte(v, s, i - k)
                    if b is not UNDEF:
                        cells[i] = (1, b)

    def memcpy(self, d, s, n):
        if type(n) is not int:
            n = self.E.concretize(n, 64, 'memcpy size')
        if n == 0:
            return
        so, soff = self.deref(s, n, 'read')
        do, doff = self.deref(d, n, 'write')
        if do.ro:
            raise MemError('write to constant %s' % do.name)
        sc = so.cells
        out = []
        i = soff
        end = soff + n
        # leading partial cell
        items = None
        if len(sc) < n // 8 + 4:
            ks = sorted(k for k in sc if k < end and k + sc[k][0] > soff)
        else:
            ks = [k for k in range(max(soff - 16, 0), end) if k in sc and k + sc[k][0] > soff]
        base = so.base
        pos = soff
        for k in ks:
            sz, v = sc[k]
            if k > pos:
                self._gap(out, base, pos, k, soff)
            if k >= soff and k + sz <= end:
                out.append((k - soff, sz, v))
            else:
                for j in range(max(k, soff), min(k + sz, end)):
                    b = self.val_byte(v, sz, j - k)
                    out.append((j - soff, 1, b))
            pos = k + sz
        if pos < end:
            self._gap(out, base, pos, end, soff)
        self.clear(do, doff, n)
        dc = do.cells
        for k, sz, v in out:
            dc[doff + k] = (sz, v)

    def _gap(self, out, base, a, b, soff):
        while a < b:
            s = 8 if b - a >= 8 and (a % 8 == 0) else 1
            if base is None:
                v = UNDEF
            elif base == 0:
                v = 0
            else:
                v = int.from_bytes(base[a:a + s], 'little')
            out.append((a - soff, s, v))
            a += s

    def memset(self, d, c, n):
        if type(n) is not int:
            n = self.E.concretize(n, 64, 'memset size')
        if n == 0:
            return
        o, off = self.deref(d, n, 'write')
        self.clear(o, off, n)
        if type(c) is int:
            c &= 255
            w = int.from_bytes(bytes([c]) * 8, 'little')
            i = off
            end = off + n
            while i < end:
                if i % 8 == 0 and end - i >= 8:
                    o.cells[i] = (8, w)
                    i += 8
                else:
                    o.cells[i] = (1, c)
                    i += 1
        else:
            if isinstance(c, z3.BitVecRef) and c.size() > 8:
                c = z3.Extract(7, 0, c)
            for i in range(n):
                o.cells[off + i] = (1, c)

    def cstr(self, a, limit=100000):
        out = bytearray()
        o, off = self.deref(a, 1, 'read')
        while True:
            if off >= o.size:
                raise MemError('read out of bounds: unterminated string')
            b = self.byte_at(o, off)
            if type(b) is not int:
                if b is UNDEF:
                    raise Unsupported('undefined byte in string')
                b = self.E.concretize(b, 8, 'string byte')
            if b == 0:
                return bytes(out)
            out.append(b)
            off += 1
            if len(out) > limit:
                raise Unsupported('string too long')

    def rd_bytes(self, a, n):
        if n == 0:
            return b''
        o, off = self.deref(a, n, 'read')
        out = bytearray()
        for i in range(n):
            b = self.byte_at(o, off + i)
            if type(b) is not int:
                raise Unsupported('symbolic byte where concrete needed')
            out.append(b)
        return bytes(out)

    def wr_bytes(self, a, bs):
        if not bs:
            return
        o, off = self.deref(a, len(bs), 'write')
        self.clear(o, off, len(bs))
        for i, b in enumerate(bs):
            o.cells[off + i] = (1, b)

    def rd_string(self, a):
        """std::string at a -> bytes"""
        p = self.load(a, 8, 'p')
        n = self.load(a + 8, 8, 'i')
        if type(n) is not int:
            n = self.E.concretize(n, 64, 'string length')
        return self.rd_bytes(p, n)

    def mk_string(self, a, bs):
        """construct std::string at a"""
        n = len(bs)
        if n < 16:
            p = a + 16
        else:
            p = self.alloc(n + 1, 'string')
            self.store(a + 16, 8, n)
        self.store(a, 8, p)
        self.store(a + 8, 8, n)
        self.wr_bytes(p, bs + b'\0')

    # ------------------------------------------------------------------ constants
    def const(self, v):
        r = self._const_cache.get(v)
        if r is None:
            r = self._const(v)
            self._const_cache[v] = r
        return r

    def _const(self, v):
        vk = L.VK[L.GetValueKind(v)]
        t = self.mod.typeof(v)
        if vk == 'cint':
            if t.w <= 64:
                return L.ConstIntGetZExtValue(v)
            s = L.pstr(v).split()[-1]
            n = {'true': 1, 'false': 0}.get(s)
            return (int(s) if n is None else n) & ((1 << t.w) - 1)
        if vk == 'cfp':
            li = L.I()
            return L.ConstRealGetDouble(v, L.C.byref(li))
        if vk == 'cnull':
            return 0
        if vk in ('undef', 'poison', 'cazero'):
            return self.zero(t)
        if vk in ('function', 'gvar'):
            return self.addr_of[L.vname(v)]
        if vk == 'galias':
            return self.const(L.AliasGetAliasee(v))
        if vk in ('cstruct', 'carray', 'cdarray', 'cvector', 'cdvector'):
            return tuple(self.const(L.GetAggregateElement(v, i)) for i in range(t.n))
        if vk == 'cexpr':
            op = L.OPC[L.GetConstOpcode(v)]
            if op in ('bitcast', 'inttoptr', 'ptrtoint', 'addrspacecast'):
                return self.const(L.GetOperand(v, 0))
            if op == 'gep':
                base = self.const(L.GetOperand(v, 0))
                t0 = self.mod.ty(L.GetGEPSourceElementType(v))
                off, cur = 0, t0
                for i in range(1, L.GetNumOperands(v)):
                    o = L.GetOperand(v, i)
                    ix = sx(self.const(o), self.mod.typeof(o).w)
                    if i == 1:
                        off += ix * t0.size
                    elif cur.k == 'struct':
                        off += cur.offs[ix]
                        cur = cur.elems[ix]
                    else:
                        cur = cur.elem
                        off += ix * cur.size
                return (base + off) & M64
            a = [self.const(L.GetOperand(v, i)) for i in range(L.GetNumOperands(v))]
            m = (1 << t.w) - 1
            if op == 'sub':
                return (a[0] - a[1]) & m
            if op == 'add':
                return (a[0] + a[1]) & m
            if op == 'trunc':
                return a[0] & m
            raise Unsupported('constant expr ' + op)
        raise Unsupported('constant kind ' + vk + ' ' + L.pstr(v))

    def zero(self, t):
        if t.k == 'double' or t.k == 'float':
            return 0.0
        if t.k in ('struct',):
            return tuple(self.zero(e) for e in t.elems)
        if t.k in ('array', 'vector'):
            return tuple(self.zero(t.elem) for _ in range(t.n))
        return 0

    # ------------------------------------------------------------------ translation
    def _mkenv(self):
        self.fuel = [10 ** 9]
        import ops
        self.ops = ops
        ops.bind(self)
        env = dict(ops.ENV)
        env.update(INF=INF, NAN=NAN, CxxThrow=CxxThrow, FUEL=self.fuel, Bound=Bound, M64=M64, sx=sx, MACH=self)
        self.env = env

    def resolve_addr(self, a):
        if type(a) is not int:
            a = self.E.concretize(a, 64, 'function pointer')
        oid = a >> 32
        if (a & M32) != PAD:
            raise MemError('call through invalid function pointer')
        n = self.obj_name.get(oid)
        if n is None or n not in self.mod.functions:
            raise MemError('call through invalid function pointer')
        return self.func(n)

    def func(self, name):
        f = self.code.get(name)
        if f is not None:
            return f
        m = self.models.lookup(name)
        if m is not None:
            self.code[name] = m
            return m
        fref = self.mod.functions.get(name)
        if fref is None:
            raise Unsupported('unknown function ' + name)
        if L.IsDeclaration(fref):
            def missing(*a, _n=name):
                raise Unsupported('call to external function ' + _n)
            self.code[name] = missing
            return missing
        f = Translator(self, name, fref).compile()
        self.code[name] = f
        self.encoded.add(name)
        return f

    def call(self, name, *args):
        return self.func(name)(*args)


def lit(c):
    if type(c) is float:
        if c != c:
            return 'NAN'
        if c == INF:
            return 'INF'
        if c == -INF:
            return '(-INF)'
        return repr(c)
    if type(c) is tuple:
        return '(' + ''.join(lit(x) + ',' for x in c) + ')'
    return repr(c)


def kind_of(t):
    if t.k == 'double':
        return 'd'
    if t.k == 'float':
        return 'f'
    if t.k == 'ptr':
        return 'p'
    if t.k == 'int':
        return 'b' if t.w == 1 else 'i'
    return None


class Translator:
    def __init__(self, mach, name, fref):
        self.m = mach
        self.name = name
        self.f = fref
        self.regs = {}
        self.lines = []

    def reg(self, v):
        r = self.regs.get(v)
        if r is None:
            r = 'r%d' % len(self.regs)
            self.regs[v] = r
        return r

    def isconst(self, v):
        return L.VK[L.GetValueKind(v)] not in ('arg', 'inst', 'bb', 'metadata', 'asm')

    def op(self, v):
        if L.VK[L.GetValueKind(v)] in ('arg', 'inst'):
            return self.reg(v)
        return lit(self.m.const(v))

    def compile(self):
        m = self.m
        f = self.f
        np = L.CountParams(f)
        params = [L.GetParam(f, i) for i in range(np)]
        pn = [self.reg(p) for p in params]
        bbs = []
        b = L.GetFirstBasicBlock(f)
        while b:
            bbs.append(b)
            b = L.GetNextBasicBlock(b)
        self.bbid = {b: i for i, b in enumerate(bbs)}
        self.allocas = []
        blocks = []
        phis = {}
        insts = {}
        for b in bbs:
            li = []
            i = L.GetFirstInstruction(b)
            while i:
                li.append(i)
                i = L.GetNextInstruction(i)
            insts[b] = li
        # phi moves per edge
        self.edge = {}
        for b in bbs:
            ph = [i for i in insts[b] if L.OPC[L.GetInstructionOpcode(i)] == 'phi']
            for p in ph:
                for k in range(L.CountIncoming(p)):
                    src = L.GetIncomingBlock(p, k)
                    self.edge.setdefault((src, b), {})[p] = L.GetIncomingValue(p, k)
        for b in bbs:
            out = []
            self.cur = b
            for i in insts[b]:
                self.inst(i, out)
            blocks.append(out)
        src = ['def fn(%s):' % ', '.join(pn)]
        for i, p in enumerate(params):
            at = L.L.LLVMGetEnumAttributeAtIndex(f, i + 1, m._attr_byval)
            if at:
                t = m.mod.ty(L.L.LLVMGetTypeAttributeValue(at))
                src.append('  %s = byval(%s, %d)' % (pn[i], pn[i], t.size))
        n = len(blocks)
        if n == 1:
            for l in blocks[0]:
                src.append('  ' + l)
        else:
            src.append('  b = 0')
            src.append('  while True:')
            self.emit_tree(src, blocks, 0, n, '    ')
        text = '\n'.join(src)
        env = m.env
        loc = {}
        try:
            exec(compile(text, '<%s>' % self.name, 'exec'), env, loc)
        except SyntaxError:
            sys.stderr.write(text)
            raise
        m.src_lines += len(src)
        fn = loc['fn']
        return fn

    def emit_tree(self, src, blocks, lo, hi, ind):
        if hi - lo == 1:
            for l in blocks[lo]:
                src.append(ind + l)
            return
        if hi - lo <= 3:
            for k in range(lo, hi):
                src.append(ind + ('if' if k == lo else 'elif') + ' b == %d:' % k if k < hi - 1 else ind + 'else:')
                for l in blocks[k]:
                    src.append(ind + '  ' + l)
            return
        mid = (lo + hi) // 2
        src.append(ind + 'if b < %d:' % mid)
        self.emit_tree(src, blocks, lo, mid, ind + ' ')
        src.append(ind + 'else:')
        self.emit_tree(src, blocks, mid, hi, ind + ' ')

    def jump(self, dst, out, ind=''):
        mv = self.edge.get((self.cur, dst))
        if mv:
            ps = list(mv)
            out.append(ind + '%s = %s' % (', '.join(self.reg(p) for p in ps), ', '.join(self.op(mv[p]) for p in ps)))
        d = self.bbid[dst]
        if d <= self.bbid[self.cur]:
            out.append(ind + 'FUEL[0] -= 1')
            out.append(ind + 'if FUEL[0] < 0: raise Bound("fuel")')
        out.append(ind + 'b = %d' % d)

    def inst(self, i, out):
        m = self.m
        op = L.OPC[L.GetInstructionOpcode(i)]
        t = m.mod.typeof(i)
        nm = self.reg(i) if t.k != 'void' else None
        O = lambda k: self.op(L.GetOperand(i, k))
        OT = lambda k: m.mod.typeof(L.GetOperand(i, k))
        if op == 'phi':
            return
        if op == 'ret':
            fr = ''
            if self.allocas:
                out.append('freestack(%s)' % ', '.join(self.allocas))
            out.append('return ' + (O(0) if L.GetNumOperands(i) else 'None'))
            return
        if op == 'br':
            if L.GetNumOperands(i) == 1:
                self.jump(L.ValueAsBasicBlock(L.GetOperand(i, 0)), out)
                if len(self.bbid) > 1:
                    out.append('continue')
                return
            c = self.op(L.GetCondition(i))
            T = L.GetSuccessor(i, 0)
            Fb = L.GetSuccessor(i, 1)
            out.append('if (%s if type(%s) is int else decide(%s)):' % (c, c, c))
            self.jump(T, out, '  ')
            out.append('else:')
            self.jump(Fb, out, '  ')
            out.append('continue')
            return
        if op == 'switch':
            v = O(0)
            w = OT(0).w
            n = L.GetNumOperands(i)
            cases = [(m.const(L.GetOperand(i, k)), L.ValueAsBasicBlock(L.GetOperand(i, k + 1))) for k in range(2, n, 2)]
            dflt = L.GetSwitchDefaultDest(i)
            vals = '(' + ''.join('%d,' % c for c, _ in cases) + ')'
            out.append('sw = %s if type(%s) is int else switch(%s, %d, %s)' % (v, v, v, w, vals))
            first = True
            for c, bb in cases:
                out.append('%s sw == %d:' % ('if' if first else 'elif', c))
                first = False
                self.jump(bb, out, '  ')
            if first:
                self.jump(dflt, out)
            else:
                out.append('else:')
                self.jump(dflt, out, '  ')
            out.append('continue')
            return
        if op == 'unreachable':
            out.append('unreachable()')
            return
        if op in ('call', 'invoke'):
            self.call(i, op, t, nm, out)
            return
        if op == 'resume':
            out.append('raise resume(%s)' % O(0))
            return
        if op == 'landingpad':
            cl = []
            for k in range(L.GetNumClauses(i)):
                c = L.GetClause(i, k)
                ct = m.mod.typeof(c)
                if ct.k == 'array':
                    cl.append(('filter',))
                else:
                    cl.append(m.const(c))
            out.append('%s = landingpad(exc, %r, %d)' % (nm, tuple(cl), L.IsCleanup(i)))
            return
        if op == 'alloca':
            at = m.mod.ty(L.GetAllocatedType(i))
            cnt = O(0)
            out.append('%s = alloca(%d * %s)' % (nm, at.size, cnt))
            self.allocas.append(nm)
            return
        if op == 'load':
            self.load(nm, O(0), t, out)
            return
        if op == 'store':
            vt = OT(0)
            self.store(O(0), O(1), vt, out)
            return
        if op == 'gep':
            self.gep(i, nm, out)
            return
        w = t.w
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            if t.k == 'vector':
                out.append('%s = vecop(I_%s, %s, %s, %d)' % (nm, op, O(0), O(1), t.elem.w))
                return
            a, b = O(0), O(1)
            ca, cb = self.isconst(L.GetOperand(i, 0)), self.isconst(L.GetOperand(i, 1))
            mask = (1 << w) - 1
            if op in ('add', 'sub', 'mul', 'and', 'or', 'xor') and w > 1:
                py = {'add': '+', 'sub': '-', 'mul': '*', 'and': '&', 'or': '|', 'xor': '^'}[op]
                ex = '(%s %s %s)' % (a, py, b)
                if op in ('add', 'sub', 'mul'):
                    ex = '(%s & %d)' % (ex, mask)
                cond = ' and '.join('type(%s) is int' % x for x, c in ((a, ca), (b, cb)) if not c) or 'True'
                out.append('%s = %s if %s else I_%s(%s, %s, %d)' % (nm, ex, cond, op, a, b, w))
            else:
                out.append('%s = I_%s(%s, %s, %d)' % (nm, op, a, b, w))
            return
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            a, b = O(0), O(1)
            if t.k == 'vector':
                out.append('%s = vecop(F_%s, %s, %s, %d)' % (nm, op, a, b, t.elem.w))
                return
            if t.k == 'x86_fp80':
                out.append('%s = F_%s(%s, %s, 64)' % (nm, op, a, b))
                return
            if op in ('fadd', 'fsub', 'fmul') and w == 64:
                py = {'fadd': '+', 'fsub': '-', 'fmul': '*'}[op]
                out.append('%s = %s %s %s if type(%s) is type(%s) is float else F_%s(%s, %s, 64)' % (nm, a, py, b, a, b, op, a, b))
            else:
                out.append('%s = F_%s(%s, %s, %d)' % (nm, op, a, b, w))
            return
        if op == 'fneg':
            if t.k == 'vector':
                out.append('%s = tuple(F_neg(x) for x in %s)' % (nm, O(0)))
            else:
                out.append('%s = F_neg(%s)' % (nm, O(0)))
            return
        if op == 'icmp':
            p = L.ICMP[L.GetICmpPredicate(i)]
            a, b = O(0), O(1)
            ot = OT(0)
            if ot.k == 'vector':
                out.append('%s = tuple(icmp(%r, x, y, %d) for x, y in zip(%s, %s))' % (nm, p, ot.elem.w, a, b))
                return
            ow = ot.w or 64
            ca, cb = self.isconst(L.GetOperand(i, 0)), self.isconst(L.GetOperand(i, 1))
            cond = ' and '.join('type(%s) is int' % x for x, c in ((a, ca), (b, cb)) if not c) or 'True'
            py = {'eq': '==', 'ne': '!=', 'ugt': '>', 'uge': '>=', 'ult': '<', 'ule': '<=', 'sgt': '>', 'sge': '>=', 'slt': '<', 'sle': '<='}[p]
            if p[0] == 's':
                S = 1 << (ow - 1)
                ex = '((%s ^ %d) %s (%s ^ %d))' % (a, S, py, b, S)
            else:
                ex = '(%s %s %s)' % (a, py, b)
            out.append('%s = (1 if %s else 0) if %s else icmp(%r, %s, %s, %d)' % (nm, ex, cond, p, a, b, ow))
            return
        if op == 'fcmp':
            p = L.FCMP[L.GetFCmpPredicate(i)]
            if OT(0).k == 'vector':
                out.append('%s = tuple(fcmp(%r, x, y) for x, y in zip(%s, %s))' % (nm, p, O(0), O(1)))
                return
            out.append('%s = fcmp(%r, %s, %s)' % (nm, p, O(0), O(1)))
            return
        if op == 'select':
            c, a, b = O(0), O(1), O(2)
            if OT(0).k == 'vector':
                out.append('%s = tuple(select(c, x, y, %r, %d) for c, x, y in zip(%s, %s, %s))' % (nm, kind_of(t.elem), t.elem.w, c, a, b))
                return
            out.append('%s = (%s if %s else %s) if type(%s) is int else select(%s, %s, %s, %r, %d)' % (nm, a, c, b, c, c, a, b, kind_of(t), t.w))
            return
        if op in ('zext', 'sext', 'trunc', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'fptrunc', 'fpext', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze', 'addrspacecast'):
            a = O(0)
            ft = OT(0)
            if t.k == 'vector' and op != 'freeze' and op != 'bitcast':
                out.append('%s = tuple(cast_%s(x, %d, %d) for x in %s)' % (nm, op, ft.elem.w, t.elem.w, a))
                return
            if op == 'zext':
                out.append('%s = %s if type(%s) is int else cast_zext(%s, %d, %d)' % (nm, a, a, a, ft.w, w))
            elif op in ('freeze', 'addrspacecast'):
                out.append('%s = %s' % (nm, a))
            elif op in ('ptrtoint', 'inttoptr'):
                out.append('%s = %s' % (nm, a))
            elif op == 'bitcast':
                out.append('%s = cast_bitcast(%s, %r, %r, %d)' % (nm, a, ft.k, t.k, t.size))
            else:
                out.append('%s = cast_%s(%s, %d, %d)' % (nm, op, a, ft.w, w))
            return
        if op == 'extractvalue':
            n = L.GetNumIndices(i)
            ix = L.GetIndices(i)
            out.append('%s = %s%s' % (nm, O(0), ''.join('[%d]' % ix[k] for k in range(n))))
            return
        if op == 'insertvalue':
            n = L.GetNumIndices(i)
            ix = L.GetIndices(i)
            out.append('%s = insertvalue(%s, %s, (%s))' % (nm, O(0), O(1), ''.join('%d,' % ix[k] for k in range(n))))
            return
        if op == 'extractelement':
            out.append('%s = %s[%s]' % (nm, O(0), O(1)))
            return
        if op == 'insertelement':
            out.append('%s = insertvalue(%s, %s, (%s,))' % (nm, O(0), O(1), O(2)))
            return
        if op == 'shufflevector':
            n = L.GetNumMaskElements(i)
            mk = tuple(L.GetMaskValue(i, k) for k in range(n))
            out.append('%s = shuffle(%s, %s, %r)' % (nm, O(0), O(1), mk))
            return
        if op == 'fence':
            return
        if op == 'atomicrmw':
            bop = L.GetAtomicRMWBinOp(i)
            out.append('%s = atomicrmw(%d, %s, %s, %d, %d)' % (nm, bop, O(0), O(1), t.size, w))
            return
        out.append('raise Unsupported(%r)' % ('instruction ' + L.pstr(i)[:150]))

    def load(self, nm, a, t, out):
        k = kind_of(t)
        if k is None:
            if t.k in ('struct', 'array', 'vector'):
                out.append('%s = loadagg(%s, %r)' % (nm, a, self.aggdesc(t)))
                return
            if t.k == 'x86_fp80':
                out.append('%s = load(%s, 16, "d")' % (nm, a))
                return
            raise Unsupported('load of ' + t.k)
        if k == 'd':
            out.append('%s = ld_d(%s)' % (nm, a))
        elif k == 'p':
            out.append('%s = ld_p(%s)' % (nm, a))
        else:
            out.append('%s = load(%s, %d, %r)' % (nm, a, t.size, k))

    def aggdesc(self, t):
        k = kind_of(t)
        if k:
            return (k, t.size, t.w)
        if t.k == 'struct':
            return ('s', tuple((o, self.aggdesc(e)) for o, e in zip(t.offs, t.elems)))
        return ('s', tuple((j * t.elem.size, self.aggdesc(t.elem)) for j in range(t.n)))

    def store(self, v, a, t, out):
        k = kind_of(t)
        if k is None:
            if t.k == 'x86_fp80':
                out.append('store(%s, 16, %s)' % (a, v))
                return
            out.append('storeagg(%s, %s, %r)' % (a, v, self.aggdesc(t)))
            return
        out.append('store(%s, %d, %s)' % (a, t.size, v))

    def gep(self, i, nm, out):
        m = self.m
        base = self.op(L.GetOperand(i, 0))
        t0 = m.mod.ty(L.GetGEPSourceElementType(i))
        cur = t0
        off = 0
        terms = []
        for k in range(1, L.GetNumOperands(i)):
            o = L.GetOperand(i, k)
            w = m.mod.typeof(o).w
            if k > 1 and cur.k == 'struct':
                ix = m.const(o)
                off += cur.offs[ix]
                cur = cur.elems[ix]
                continue
            if k == 1:
                scale = t0.size
            else:
                cur = cur.elem
                scale = cur.size
            if self.isconst(o):
                off += sx(m.const(o), w) * scale
            else:
                terms.append((self.op(o), w, scale))
        if L.GetNumOperands(i) and m.mod.typeof(i).k == 'vector':
            raise Unsupported('vector gep')
        if not terms:
            if off >= 0:
                out.append('%s = %s + %d' % (nm, base, off))
            else:
                out.append('%s = (%s - %d) & M64' % (nm, base, -off))
        else:
            ex = base if off == 0 else '%s + %d' % (base, off) if off > 0 else '%s - %d' % (base, -off)
            for r, w, s in terms:
                if w == 64:
                    ex += ' + %s * %d' % (r, s)
                else:
                    ex += ' + sext64(%s, %d) * %d' % (r, w, s)
            out.append('%s = (%s) & M64' % (nm, ex))

    def call(self, i, op, t, nm, out):
        m = self.m
        callee = L.GetCalledValue(i)
        n = L.GetNumArgOperands(i)
        vk = L.VK[L.GetValueKind(callee)]
        name = None
        args = []
        for k in range(n):
            a = L.GetOperand(i, k)
            if L.VK[L.GetValueKind(a)] == 'metadata':
                args.append('None')
            else:
                args.append(self.op(a))
        if vk == 'asm':
            out.append('raise Unsupported("inline asm")' if True else '')
            return
        if vk == 'galias':
            callee = L.AliasGetAliasee(callee)
            vk = L.VK[L.GetValueKind(callee)]
        if vk == 'function':
            name = L.vname(callee)
            if name.startswith('llvm.'):
                if not self.intrinsic(name, i, args, t, nm, out):
                    pass
                if op == 'invoke':
                    self.jump(L.GetNormalDest(i), out)
                    out.append('continue')
                return
            ex = 'call_%s(%s)' % (self.bindname(name), ', '.join(args))
        else:
            ex = 'callptr(%s, %s)' % (self.op(callee), ', '.join(args)) if args else 'callptr(%s)' % self.op(callee)
        asg = '%s = %s' % (nm, ex) if nm else ex
        if op == 'call':
            out.append(asg)
            return
        out.append('try:')
        out.append('  ' + asg)
        out.append('except CxxThrow as e:')
        out.append('  exc = e')
        self.jump(L.GetUnwindDest(i), out, '  ')
        out.append('else:')
        self.jump(L.GetNormalDest(i), out, '  ')
        out.append('continue')

    def bindname(self, name):
        """late-bound callee: env slot holding a stub that resolves on first use"""
        m = self.m
        slot = m.slots.get(name) if hasattr(m, 'slots') else None
        if not hasattr(m, 'slots'):
            m.slots = {}
        if slot is None:
            slot = len(m.slots)
            m.slots[name] = slot
            key = 'call_%d' % slot
            env = m.env

            def stub(*a):
                f = m.func(name)
                env[key] = f
                return f(*a)
            env[key] = stub
        return str(slot)

    def intrinsic(self, name, i, args, t, nm, out):
        base = name[5:]
        if base.startswith(('lifetime.', 'dbg.', 'assume', 'invariant.', 'experimental.noalias', 'donothing', 'prefetch', 'stackrestore', 'va_')):
            return True
        if base.startswith('stacksave'):
            out.append('%s = 0' % nm)
            return True
        if base.startswith(('memcpy', 'memmove')):
            out.append('memcpy(%s, %s, %s)' % tuple(args[:3]))
            return True
        if base.startswith('memset'):
            out.append('memset(%s, %s, %s)' % tuple(args[:3]))
            return True
        if base.startswith('eh.typeid.for'):
            out.append('%s = typeid(%s)' % (nm, args[0]))
            return True
        if base.startswith('expect'):
            out.append('%s = %s' % (nm, args[0]))
            return True
        if base.startswith('is.constant'):
            out.append('%s = 0' % nm)
            return True
        if base.startswith('objectsize'):
            out.append('%s = %d' % (nm, (1 << t.w) - 1))
            return True
        if base.startswith('trap') or base.startswith('ubsantrap'):
            out.append('unreachable()')
            return True
        parts = base.split('.')
        f = '.'.join(parts[:-1]) if re.match(r'^(i\d+|f\d+|p\d+|v\d+\w+)$', parts[-1]) else base
        parts2 = f.split('.')
        while re.match(r'^(i\d+|f\d+|p\d+|v\d+\w+)$', parts2[-1]):
            parts2.pop()
        f = '.'.join(parts2)
        key = 'X_' + f.replace('.', '_')
        if key not in m_ops_env(self.m):
            out.append('raise Unsupported(%r)' % ('intrinsic ' + name))
            return True
        if t.k == 'vector':
            out.append('%s = tuple(%s(*x, %d) for x in zip(%s))' % (nm, key, t.elem.w, ', '.join(args)))
            return True
        w = t.w
        if t.k == 'struct':
            w = t.elems[0].w
        ex = '%s(%s, %d)' % (key, ', '.join(args), w)
        out.append('%s = %s' % (nm, ex) if nm else ex)
        return True


def m_ops_env(m):
    return m.env
