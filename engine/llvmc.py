"""Thin ctypes wrapper over the LLVM-C API (libLLVM 18): reads linked bitcode."""
import ctypes as C
import os

_CANDS = ["/usr/lib/llvm-18/lib/libLLVM-18.so", "/usr/lib/llvm-18/lib/libLLVM.so.1",
          "/usr/lib/x86_64-linux-gnu/libLLVM-18.so", "libLLVM-18.so", "libLLVM.so.18.1"]
L = None
for _c in _CANDS:
    try:
        L = C.CDLL(_c)
        break
    except OSError:
        continue
if L is None:
    raise RuntimeError("libLLVM-18 not found")

P = C.c_void_p


def _f(name, res, *args):
    fn = getattr(L, name)
    fn.restype = res
    fn.argtypes = list(args)
    return fn


U = C.c_uint
I = C.c_int
S = C.c_char_p
PS = C.POINTER(C.c_size_t)

ContextCreate = _f("LLVMContextCreate", P)
CreateMemoryBufferWithContentsOfFile = _f("LLVMCreateMemoryBufferWithContentsOfFile", I, S, C.POINTER(P), C.POINTER(S))
ParseIRInContext = _f("LLVMParseIRInContext", I, P, P, C.POINTER(P), C.POINTER(S))
GetFirstFunction = _f("LLVMGetFirstFunction", P, P)
GetNextFunction = _f("LLVMGetNextFunction", P, P)
GetFirstGlobal = _f("LLVMGetFirstGlobal", P, P)
GetNextGlobal = _f("LLVMGetNextGlobal", P, P)
GetFirstGlobalAlias = _f("LLVMGetFirstGlobalAlias", P, P)
GetNextGlobalAlias = _f("LLVMGetNextGlobalAlias", P, P)
AliasGetAliasee = _f("LLVMAliasGetAliasee", P, P)
GetValueName2 = _f("LLVMGetValueName2", S, P, PS)
IsDeclaration = _f("LLVMIsDeclaration", I, P)
GetInitializer = _f("LLVMGetInitializer", P, P)
IsGlobalConstant = _f("LLVMIsGlobalConstant", I, P)
GlobalGetValueType = _f("LLVMGlobalGetValueType", P, P)
CountParams = _f("LLVMCountParams", U, P)
GetParam = _f("LLVMGetParam", P, P, U)
GetFirstBasicBlock = _f("LLVMGetFirstBasicBlock", P, P)
GetNextBasicBlock = _f("LLVMGetNextBasicBlock", P, P)
GetFirstInstruction = _f("LLVMGetFirstInstruction", P, P)
GetNextInstruction = _f("LLVMGetNextInstruction", P, P)
GetInstructionOpcode = _f("LLVMGetInstructionOpcode", I, P)
GetNumOperands = _f("LLVMGetNumOperands", I, P)
GetOperand = _f("LLVMGetOperand", P, P, U)
TypeOf = _f("LLVMTypeOf", P, P)
GetTypeKind = _f("LLVMGetTypeKind", I, P)
GetIntTypeWidth = _f("LLVMGetIntTypeWidth", U, P)
CountStructElementTypes = _f("LLVMCountStructElementTypes", U, P)
StructGetTypeAtIndex = _f("LLVMStructGetTypeAtIndex", P, P, U)
GetElementType = _f("LLVMGetElementType", P, P)
GetArrayLength2 = _f("LLVMGetArrayLength2", C.c_uint64, P)
GetVectorSize = _f("LLVMGetVectorSize", U, P)
GetReturnType = _f("LLVMGetReturnType", P, P)
GetModuleDataLayout = _f("LLVMGetModuleDataLayout", P, P)
ABISizeOfType = _f("LLVMABISizeOfType", C.c_ulonglong, P, P)
StoreSizeOfType = _f("LLVMStoreSizeOfType", C.c_ulonglong, P, P)
OffsetOfElement = _f("LLVMOffsetOfElement", C.c_ulonglong, P, P, U)
GetValueKind = _f("LLVMGetValueKind", I, P)
ConstIntGetZExtValue = _f("LLVMConstIntGetZExtValue", C.c_ulonglong, P)
ConstRealGetDouble = _f("LLVMConstRealGetDouble", C.c_double, P, C.POINTER(I))
GetAggregateElement = _f("LLVMGetAggregateElement", P, P, U)
GetConstOpcode = _f("LLVMGetConstOpcode", I, P)
IsConstantString = _f("LLVMIsConstantString", I, P)
GetAsString = _f("LLVMGetAsString", P, P, PS)
GetICmpPredicate = _f("LLVMGetICmpPredicate", I, P)
GetFCmpPredicate = _f("LLVMGetFCmpPredicate", I, P)
CountIncoming = _f("LLVMCountIncoming", U, P)
GetIncomingValue = _f("LLVMGetIncomingValue", P, P, U)
GetIncomingBlock = _f("LLVMGetIncomingBlock", P, P, U)
GetGEPSourceElementType = _f("LLVMGetGEPSourceElementType", P, P)
GetNumIndices = _f("LLVMGetNumIndices", U, P)
GetIndices = _f("LLVMGetIndices", C.POINTER(U), P)
GetAllocatedType = _f("LLVMGetAllocatedType", P, P)
GetCalledValue = _f("LLVMGetCalledValue", P, P)
GetCalledFunctionType = _f("LLVMGetCalledFunctionType", P, P)
GetNumArgOperands = _f("LLVMGetNumArgOperands", U, P)
GetNormalDest = _f("LLVMGetNormalDest", P, P)
GetUnwindDest = _f("LLVMGetUnwindDest", P, P)
GetNumClauses = _f("LLVMGetNumClauses", U, P)
GetClause = _f("LLVMGetClause", P, P, U)
IsCleanup = _f("LLVMIsCleanup", I, P)
ValueAsBasicBlock = _f("LLVMValueAsBasicBlock", P, P)
GetSwitchDefaultDest = _f("LLVMGetSwitchDefaultDest", P, P)
IsConditional = _f("LLVMIsConditional", I, P)
GetNumSuccessors = _f("LLVMGetNumSuccessors", U, P)
GetSuccessor = _f("LLVMGetSuccessor", P, P, U)
GetCondition = _f("LLVMGetCondition", P, P)
PrintValueToString = _f("LLVMPrintValueToString", P, P)
PrintTypeToString = _f("LLVMPrintTypeToString", P, P)
GetNumMaskElements = _f("LLVMGetNumMaskElements", U, P)
GetMaskValue = _f("LLVMGetMaskValue", I, P, U)
GetAtomicRMWBinOp = _f("LLVMGetAtomicRMWBinOp", I, P)
IsGlobalValue = _f("LLVMIsAGlobalValue", P, P)

OPC = {1: 'ret', 2: 'br', 3: 'switch', 5: 'invoke', 7: 'unreachable', 66: 'fneg', 8: 'add', 9: 'fadd', 10: 'sub',
       11: 'fsub', 12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv', 16: 'fdiv', 17: 'urem', 18: 'srem', 19: 'frem',
       20: 'shl', 21: 'lshr', 22: 'ashr', 23: 'and', 24: 'or', 25: 'xor', 26: 'alloca', 27: 'load', 28: 'store',
       29: 'gep', 30: 'trunc', 31: 'zext', 32: 'sext', 33: 'fptoui', 34: 'fptosi', 35: 'uitofp', 36: 'sitofp',
       37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint', 40: 'inttoptr', 41: 'bitcast', 42: 'icmp', 43: 'fcmp', 44: 'phi',
       45: 'call', 46: 'select', 49: 'vaarg', 50: 'extractelement', 51: 'insertelement', 52: 'shufflevector',
       53: 'extractvalue', 54: 'insertvalue', 68: 'freeze', 55: 'fence', 56: 'cmpxchg', 57: 'atomicrmw',
       58: 'resume', 59: 'landingpad', 60: 'addrspacecast'}
ICMP = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}
FCMP = {0: 'false', 1: 'oeq', 2: 'ogt', 3: 'oge', 4: 'olt', 5: 'ole', 6: 'one', 7: 'ord', 8: 'uno', 9: 'ueq',
        10: 'ugt', 11: 'uge', 12: 'ult', 13: 'ule', 14: 'une', 15: 'true'}
# type kinds
TK = {0: 'void', 1: 'half', 2: 'float', 3: 'double', 4: 'x86_fp80', 5: 'fp128', 7: 'label', 8: 'int', 9: 'func',
      10: 'struct', 11: 'array', 12: 'ptr', 13: 'vector', 14: 'metadata', 16: 'token'}
# value kinds
VK = {0: 'arg', 1: 'bb', 2: 'memuse', 3: 'memdef', 4: 'memphi', 5: 'function', 6: 'galias', 7: 'gifunc', 8: 'gvar',
      9: 'blockaddr', 10: 'cexpr', 11: 'carray', 12: 'cstruct', 13: 'cvector', 14: 'undef', 15: 'cazero',
      16: 'cdarray', 17: 'cdvector', 18: 'cint', 19: 'cfp', 20: 'cnull', 21: 'ctokennone', 22: 'metadata',
      23: 'asm', 24: 'inst', 25: 'poison'}


def vname(v):
    n = C.c_size_t()
    s = GetValueName2(v, C.byref(n))
    return s[:n.value].decode('latin1') if s else ''


def pstr(v):
    p = PrintValueToString(v)
    return C.cast(p, S).value.decode('latin1')


def tstr(t):
    p = PrintTypeToString(t)
    return C.cast(p, S).value.decode('latin1')


class Ty:
    __slots__ = ('k', 'w', 'size', 'elems', 'offs', 'elem', 'n', 'ref', 'fnret')

    def __repr__(self):
        return tstr(self.ref)


class Module:
    def __init__(self, path):
        self.ctx = ContextCreate()
        buf = P()
        err = S()
        if CreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(err)):
            raise RuntimeError("cannot read %s: %s" % (path, err.value))
        mod = P()
        if ParseIRInContext(self.ctx, buf, C.byref(mod), C.byref(err)):
            raise RuntimeError("IR parse error %s" % err.value)
        self.mod = mod
        self.dl = GetModuleDataLayout(mod)
        self.tcache = {}
        self.functions = {}
        self.globals = {}
        self.aliases = {}
        f = GetFirstFunction(mod)
        while f:
            self.functions[vname(f)] = f
            f = GetNextFunction(f)
        g = GetFirstGlobal(mod)
        while g:
            self.globals[vname(g)] = g
            g = GetNextGlobal(g)
        a = GetFirstGlobalAlias(mod)
        while a:
            self.aliases[vname(a)] = AliasGetAliasee(a)
            a = GetNextGlobalAlias(a)

    def ty(self, t):
        r = self.tcache.get(t)
        if r is not None:
            return r
        r = Ty()
        self.tcache[t] = r
        r.ref = t
        r.k = TK.get(GetTypeKind(t), 'other')
        r.w = 0
        r.size = 0
        r.elems = r.offs = r.elem = None
        r.n = 0
        k = r.k
        if k == 'int':
            r.w = GetIntTypeWidth(t)
            r.size = StoreSizeOfType(self.dl, t)
        elif k in ('float', 'double', 'ptr', 'x86_fp80', 'half', 'fp128'):
            r.size = ABISizeOfType(self.dl, t)
            r.w = r.size * 8
        elif k == 'struct':
            n = CountStructElementTypes(t)
            r.n = n
            r.elems = [self.ty(StructGetTypeAtIndex(t, i)) for i in range(n)]
            try:
                r.size = ABISizeOfType(self.dl, t)
                r.offs = [OffsetOfElement(self.dl, t, i) for i in range(n)]
            except Exception:
                pass
        elif k == 'array':
            r.elem = self.ty(GetElementType(t))
            r.n = GetArrayLength2(t)
            r.size = ABISizeOfType(self.dl, t)
        elif k == 'vector':
            r.elem = self.ty(GetElementType(t))
            r.n = GetVectorSize(t)
            r.size = ABISizeOfType(self.dl, t)
        return r

    def typeof(self, v):
        return self.ty(TypeOf(v))
