"""LLVM bitcode reader (ctypes over the LLVM-C API of the installed LLVM 18).

Turns a linked module into plain Python objects.  Nothing is executed: this is
only the front end of the analyses in this directory.
"""
import ctypes as C
import glob

_CANDS = (['/usr/lib/llvm-18/lib/libLLVM-18.so', '/usr/lib/llvm-18/lib/libLLVM.so']
          + glob.glob('/usr/lib/x86_64-linux-gnu/libLLVM*18*.so*'))


def _load():
    err = None
    for c in _CANDS:
        try:
            return C.CDLL(c)
        except OSError as e:
            err = e
    raise RuntimeError('cannot load libLLVM 18: %s' % err)


L = _load()
_P = C.c_void_p


def _f(name, res, *args):
    fn = getattr(L, name)
    fn.restype = res
    fn.argtypes = list(args)
    return fn


CreateBuf = _f('LLVMCreateMemoryBufferWithContentsOfFile', C.c_int, C.c_char_p, C.POINTER(_P), C.POINTER(C.c_char_p))
ContextCreate = _f('LLVMContextCreate', _P)
ParseBC = _f('LLVMParseBitcodeInContext2', C.c_int, _P, _P, C.POINTER(_P))
FirstFn = _f('LLVMGetFirstFunction', _P, _P)
NextFn = _f('LLVMGetNextFunction', _P, _P)
FirstGlobal = _f('LLVMGetFirstGlobal', _P, _P)
NextGlobal = _f('LLVMGetNextGlobal', _P, _P)
FirstBB = _f('LLVMGetFirstBasicBlock', _P, _P)
NextBB = _f('LLVMGetNextBasicBlock', _P, _P)
FirstInst = _f('LLVMGetFirstInstruction', _P, _P)
NextInst = _f('LLVMGetNextInstruction', _P, _P)
Opcode = _f('LLVMGetInstructionOpcode', C.c_int, _P)
NumOps = _f('LLVMGetNumOperands', C.c_int, _P)
Op = _f('LLVMGetOperand', _P, _P, C.c_uint)
TypeOf = _f('LLVMTypeOf', _P, _P)
TypeKind = _f('LLVMGetTypeKind', C.c_int, _P)
IntW = _f('LLVMGetIntTypeWidth', C.c_uint, _P)
ICmpPred = _f('LLVMGetICmpPredicate', C.c_int, _P)
FCmpPred = _f('LLVMGetFCmpPredicate', C.c_int, _P)
CountIncoming = _f('LLVMCountIncoming', C.c_uint, _P)
IncVal = _f('LLVMGetIncomingValue', _P, _P, C.c_uint)
IncBB = _f('LLVMGetIncomingBlock', _P, _P, C.c_uint)
CalledValue = _f('LLVMGetCalledValue', _P, _P)
NumArgOps = _f('LLVMGetNumArgOperands', C.c_uint, _P)
GEPSrcTy = _f('LLVMGetGEPSourceElementType', _P, _P)
NSW = _f('LLVMGetNSW', C.c_int, _P)
NUW = _f('LLVMGetNUW', C.c_int, _P)
NumIdx = _f('LLVMGetNumIndices', C.c_uint, _P)
Idx = _f('LLVMGetIndices', C.POINTER(C.c_uint), _P)
ValueKind = _f('LLVMGetValueKind', C.c_int, _P)
ConstZ = _f('LLVMConstIntGetZExtValue', C.c_ulonglong, _P)
ConstReal = _f('LLVMConstRealGetDouble', C.c_double, _P, C.POINTER(C.c_int))
AggElem = _f('LLVMGetAggregateElement', _P, _P, C.c_uint)
Initializer = _f('LLVMGetInitializer', _P, _P)
DataLayout = _f('LLVMGetModuleDataLayout', _P, _P)
ABISize = _f('LLVMABISizeOfType', C.c_ulonglong, _P, _P)
OffsetOf = _f('LLVMOffsetOfElement', C.c_ulonglong, _P, _P, C.c_uint)
DbgLine = _f('LLVMGetDebugLocLine', C.c_uint, _P)
DbgFile = _f('LLVMGetDebugLocFilename', C.c_char_p, _P, C.POINTER(C.c_uint))
IsGlobalConst = _f('LLVMIsGlobalConstant', C.c_int, _P)
GlobalValueType = _f('LLVMGlobalGetValueType', _P, _P)
Linkage = _f('LLVMGetLinkage', C.c_int, _P)
ConstOpcode = _f('LLVMGetConstOpcode', C.c_int, _P)
IsDecl = _f('LLVMIsDeclaration', C.c_int, _P)
ValName = _f('LLVMGetValueName2', C.c_void_p, _P, C.POINTER(C.c_size_t))
StructElems = _f('LLVMCountStructElementTypes', C.c_uint, _P)
StructElemAt = _f('LLVMStructGetTypeAtIndex', _P, _P, C.c_uint)
ElemTy = _f('LLVMGetElementType', _P, _P)
ArrLen = _f('LLVMGetArrayLength2', C.c_uint64, _P)
AllocTy = _f('LLVMGetAllocatedType', _P, _P)
NumSucc = _f('LLVMGetNumSuccessors', C.c_uint, _P)
Succ = _f('LLVMGetSuccessor', _P, _P, C.c_uint)
IsCond = _f('LLVMIsConditional', C.c_int, _P)
Cond = _f('LLVMGetCondition', _P, _P)
CountParams = _f('LLVMCountParams', C.c_uint, _P)
Param = _f('LLVMGetParam', _P, _P, C.c_uint)
ParamTypes = _f('LLVMGetReturnType', _P, _P)
FnIsVarArg = _f('LLVMIsFunctionVarArg', C.c_int, _P)
AttrKind = _f('LLVMGetEnumAttributeKindForName', C.c_uint, C.c_char_p, C.c_size_t)
GetAttr = _f('LLVMGetEnumAttributeAtIndex', _P, _P, C.c_uint, C.c_uint)
GetCSAttr = _f('LLVMGetCallSiteEnumAttribute', _P, _P, C.c_uint, C.c_uint)
TypeAttrVal = _f('LLVMGetTypeAttributeValue', _P, _P)
GetSubprogram = _f('LLVMGetSubprogram', _P, _P)
SPLine = _f('LLVMDISubprogramGetLine', C.c_uint, _P)
DIScopeFile = _f('LLVMDIScopeGetFile', _P, _P)
DIFileName = _f('LLVMDIFileGetFilename', C.c_char_p, _P, C.POINTER(C.c_uint))
ThreadLocal = _f('LLVMIsThreadLocal', C.c_int, _P)
Volatile = _f('LLVMGetVolatile', C.c_int, _P)

OPC = {1: 'ret', 2: 'br', 3: 'switch', 4: 'indirectbr', 5: 'invoke', 7: 'unreachable', 66: 'fneg',
       8: 'add', 9: 'fadd', 10: 'sub', 11: 'fsub', 12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv',
       16: 'fdiv', 17: 'urem', 18: 'srem', 19: 'frem', 20: 'shl', 21: 'lshr', 22: 'ashr', 23: 'and',
       24: 'or', 25: 'xor', 26: 'alloca', 27: 'load', 28: 'store', 29: 'getelementptr', 30: 'trunc',
       31: 'zext', 32: 'sext', 33: 'fptoui', 34: 'fptosi', 35: 'uitofp', 36: 'sitofp', 37: 'fptrunc',
       38: 'fpext', 39: 'ptrtoint', 40: 'inttoptr', 41: 'bitcast', 60: 'addrspacecast', 42: 'icmp',
       43: 'fcmp', 44: 'phi', 45: 'call', 46: 'select', 49: 'va_arg', 50: 'extractelement',
       51: 'insertelement', 52: 'shufflevector', 53: 'extractvalue', 54: 'insertvalue', 55: 'fence',
       56: 'cmpxchg', 57: 'atomicrmw', 68: 'freeze'}
ICMP = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}
FCMP = {0: 'false', 1: 'oeq', 2: 'ogt', 3: 'oge', 4: 'olt', 5: 'ole', 6: 'one', 7: 'ord', 8: 'uno', 9: 'ueq',
        10: 'ugt', 11: 'uge', 12: 'ult', 13: 'ule', 14: 'une', 15: 'true'}
# type kinds
TK_VOID, TK_HALF, TK_FLOAT, TK_DOUBLE, TK_X86 = 0, 1, 2, 3, 4
TK_INT, TK_FUNC, TK_STRUCT, TK_ARR, TK_PTR, TK_VEC, TK_META = 8, 9, 10, 11, 12, 13, 14
# value kinds
VK = ['arg', 'bb', 'memuse', 'memdef', 'memphi', 'function', 'galias', 'gifunc', 'gvar', 'blockaddr', 'cexpr',
      'carray', 'cstruct', 'cvector', 'undef', 'azero', 'cdarray', 'cdvector', 'cint', 'cfp', 'null', 'tokennone',
      'metadata', 'asm', 'inst', 'poison', 'targetnone']


class Ty:
    """kind: void int float double ptr struct array func other"""
    __slots__ = ('kind', 'width', 'size', 'elems', 'offs', 'elem', 'n', '_h')

    def __repr__(self):
        if self.kind == 'int':
            return 'i%d' % self.width
        if self.kind == 'struct':
            return '{%s}' % ','.join(map(repr, self.elems))
        if self.kind == 'array':
            return '[%d x %r]' % (self.n, self.elem)
        return self.kind


class Instr:
    __slots__ = ('op', 'ty', 'ops', 'x', 'id', 'file', 'line', 'blk')

    def __repr__(self):
        return '%%%s = %s %r %r %r' % (self.id, self.op, self.ty, self.ops, self.x)


class Block:
    __slots__ = ('id', 'instrs', 'succs', 'preds', 'phis')


class Func:
    def __init__(self):
        self._body = None


class Global:
    pass


class Module:
    def __init__(self, path):
        buf = _P()
        msg = C.c_char_p()
        if CreateBuf(path.encode(), C.byref(buf), C.byref(msg)):
            raise RuntimeError('read %s: %s' % (path, msg.value))
        self.ctx = ContextCreate()
        m = _P()
        if ParseBC(self.ctx, buf, C.byref(m)):
            raise RuntimeError('parse %s' % path)
        self.m = m
        self.dl = DataLayout(m)
        self.types = {}
        self.byval_k = AttrKind(b'byval', 5)
        self.sret_k = AttrKind(b'sret', 4)
        self.noret_k = AttrKind(b'noreturn', 8)
        self.funcs = {}
        self.fn_by_ref = {}
        self.globals = {}
        self.gl_by_ref = {}
        f = FirstFn(m)
        while f:
            fn = Func()
            fn.ref = f
            fn.name = self.name(f)
            fn.decl = bool(IsDecl(f))
            fn.internal = Linkage(f) in (8, 9)
            fn.noreturn = bool(GetAttr(f, 0xFFFFFFFF, self.noret_k))
            fn.nparams = CountParams(f)
            fty = GlobalValueType(f)
            fn.retty = self.ty(ParamTypes(fty))
            fn.vararg = bool(FnIsVarArg(fty))
            fn.mod = self
            sp = GetSubprogram(f)
            fn.line = SPLine(sp) if sp else 0
            fn.file = ''
            if sp:
                n = C.c_uint()
                s = DIFileName(DIScopeFile(sp), C.byref(n))
                fn.file = s[:n.value].decode() if s else ''
            self.funcs[fn.name] = fn
            self.fn_by_ref[f] = fn
            f = NextFn(f)
        g = FirstGlobal(m)
        while g:
            gl = Global()
            gl.ref = g
            gl.name = self.name(g)
            gl.const = bool(IsGlobalConst(g))
            gl.ty = self.ty(GlobalValueType(g))
            gl.tls = bool(ThreadLocal(g))
            gl.internal = Linkage(g) in (8, 9)
            init = Initializer(g)
            gl.has_init = bool(init)
            gl._init = init
            gl.mod = self
            self.globals[gl.name] = gl
            self.gl_by_ref[g] = gl
            g = NextGlobal(g)

    def name(self, v):
        n = C.c_size_t()
        p = ValName(v, C.byref(n))
        return C.string_at(p, n.value).decode() if p else ''

    def ty(self, t):
        r = self.types.get(t)
        if r is not None:
            return r
        r = Ty()
        self.types[t] = r
        k = TypeKind(t)
        r.width = r.size = r.n = 0
        r.elems = r.offs = r.elem = None
        if k == TK_VOID:
            r.kind = 'void'
        elif k == TK_INT:
            r.kind = 'int'
            r.width = IntW(t)
            r.size = ABISize(self.dl, t)
        elif k == TK_FLOAT:
            r.kind = 'float'
            r.size = 4
            r.width = 32
        elif k == TK_DOUBLE:
            r.kind = 'double'
            r.size = 8
            r.width = 64
        elif k == TK_PTR:
            r.kind = 'ptr'
            r.size = 8
            r.width = 64
        elif k == TK_STRUCT:
            r.kind = 'struct'
            n = StructElems(t)
            r.elems = [self.ty(StructElemAt(t, i)) for i in range(n)]
            try:
                r.offs = [OffsetOf(self.dl, t, i) for i in range(n)]
                r.size = ABISize(self.dl, t)
            except Exception:
                r.offs = []
        elif k == TK_ARR:
            r.kind = 'array'
            r.elem = self.ty(ElemTy(t))
            r.n = ArrLen(t)
            r.size = r.elem.size * r.n
        elif k == TK_VEC:
            r.kind = 'vector'
            r.elem = self.ty(ElemTy(t))
            r.size = ABISize(self.dl, t)
        elif k == TK_FUNC:
            r.kind = 'func'
        else:
            r.kind = 'other%d' % k
        return r

    # ---- constants -> ('int',w,v) ('fp',kind,v) ('null',) ('global',G) ('func',F)
    #      ('undef',ty) ('zero',ty) ('agg',ty,[..]) ('gep',srcty,ops)
    def const(self, v):
        k = VK[ValueKind(v)]
        t = self.ty(TypeOf(v))
        if k == 'cint':
            return ('int', t.width, ConstZ(v) & ((1 << t.width) - 1))
        if k == 'cfp':
            lo = C.c_int()
            return ('fp', t.kind, ConstReal(v, C.byref(lo)))
        if k == 'null':
            return ('null',)
        if k == 'gvar':
            return ('global', self.gl_by_ref[v])
        if k == 'function':
            return ('func', self.fn_by_ref[v])
        if k in ('undef', 'poison'):
            return ('undef', t)
        if k == 'azero':
            return ('zero', t)
        if k in ('carray', 'cstruct', 'cvector', 'cdarray', 'cdvector'):
            n = len(t.elems) if t.kind == 'struct' else t.n
            return ('agg', t, [self.const(AggElem(v, i)) for i in range(n)])
        if k == 'cexpr':
            op = OPC.get(ConstOpcode(v), '?')
            ops = [self.const(Op(v, i)) for i in range(NumOps(v))]
            if op == 'getelementptr':
                return ('gep', self.ty(GEPSrcTy(v)), ops)
            return ('cexpr', op, t, ops)
        raise RuntimeError('const kind %s' % k)

    def init(self, g):
        if not g.has_init:
            return None
        return self.const(g._init)

    def body(self, fn):
        if fn._body is not None:
            return fn._body
        blocks = []
        bid = {}
        vid = {}
        fn.params = []
        for i in range(fn.nparams):
            p = Param(fn.ref, i)
            vid[p] = ('a', i)
            a = GetAttr(fn.ref, i + 1, self.byval_k)
            s = GetAttr(fn.ref, i + 1, self.sret_k)
            fn.params.append((self.ty(TypeOf(p)), self.ty(TypeAttrVal(a)) if a else None,
                              self.ty(TypeAttrVal(s)) if s else None))
        b = FirstBB(fn.ref)
        raw = []
        while b:
            blk = Block()
            blk.id = len(blocks)
            bid[b] = blk.id
            blocks.append(blk)
            ins = []
            i = FirstInst(b)
            while i:
                vid[i] = ('i', len(vid))
                ins.append(i)
                i = NextInst(i)
            raw.append(ins)
            b = NextBB(b)
        for blk, ins in zip(blocks, raw):
            blk.instrs = []
            blk.phis = []
            blk.preds = []
            blk.succs = []
            for i in ins:
                o = Instr()
                o.op = OPC.get(Opcode(i), 'op%d' % Opcode(i))
                o.ty = self.ty(TypeOf(i))
                o.id = vid[i]
                o.blk = blk.id
                o.x = None
                o.line = DbgLine(i)
                o.file = None
                if o.line:
                    n = C.c_uint()
                    s = DbgFile(i, C.byref(n))
                    o.file = s[:n.value].decode() if s else None
                op = o.op
                if op == 'phi':
                    o.ops = [self.opnd(IncVal(i, j), vid) for j in range(CountIncoming(i))]
                    o.x = [bid[IncBB(i, j)] for j in range(CountIncoming(i))]
                    blk.phis.append(o)
                    continue
                if op == 'br':
                    if IsCond(i):
                        o.ops = [self.opnd(Cond(i), vid)]
                    else:
                        o.ops = []
                    o.x = [bid[Succ(i, j)] for j in range(NumSucc(i))]
                    blk.succs = list(o.x)
                elif op == 'switch':
                    n = NumOps(i)
                    o.ops = [self.opnd(Op(i, 0), vid)]
                    cases = []
                    for j in range(2, n, 2):
                        cases.append((ConstZ(Op(i, j)), bid[Op(i, j + 1)]))
                    o.x = (bid[Op(i, 1)], cases)
                    blk.succs = [o.x[0]] + [c[1] for c in cases]
                elif op == 'call':
                    cv = CalledValue(i)
                    na = NumArgOps(i)
                    byval = []
                    for j in range(na):
                        a = GetCSAttr(i, j + 1, self.byval_k)
                        byval.append(self.ty(TypeAttrVal(a)) if a else None)
                    ops = []
                    for j in range(na):
                        a = Op(i, j)
                        if ValueKind(a) == VK.index('metadata'):
                            ops.append(('meta',))
                        else:
                            ops.append(self.opnd(a, vid))
                    o.ops = ops
                    if ValueKind(cv) == VK.index('function'):
                        callee = ('func', self.fn_by_ref[cv])
                        if callee[1].name.startswith('llvm.dbg') or callee[1].name.startswith('llvm.lifetime'):
                            continue
                    elif ValueKind(cv) == VK.index('asm'):
                        callee = ('asm',)
                    else:
                        callee = self.opnd(cv, vid)
                    o.x = (callee, byval)
                else:
                    o.ops = [self.opnd(Op(i, j), vid) for j in range(NumOps(i))]
                    if op == 'icmp':
                        o.x = ICMP[ICmpPred(i)]
                    elif op == 'fcmp':
                        o.x = FCMP[FCmpPred(i)]
                    elif op == 'getelementptr':
                        o.x = self.ty(GEPSrcTy(i))
                    elif op in ('add', 'sub', 'mul', 'shl'):
                        o.x = (bool(NSW(i)), bool(NUW(i)))
                    elif op == 'alloca':
                        o.x = self.ty(AllocTy(i))
                    elif op in ('extractvalue', 'insertvalue'):
                        p = Idx(i)
                        o.x = [p[j] for j in range(NumIdx(i))]
                    elif op == 'store':
                        o.x = self.ty(TypeOf(Op(i, 0)))
                    if op in ('load', 'store') and Volatile(i):
                        pass
                blk.instrs.append(o)
        for blk in blocks:
            for s in blk.succs:
                if blk.id not in blocks[s].preds:
                    blocks[s].preds.append(blk.id)
        fn._body = blocks
        return blocks

    def opnd(self, v, vid):
        r = vid.get(v)
        if r is not None:
            return ('v', r)
        return ('c', self.const(v))
