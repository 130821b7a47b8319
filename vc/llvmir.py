"""Reads LLVM-18 bitcode through the LLVM C API (ctypes) into plain Python objects."""
import ctypes as C, re

_L = C.CDLL("/usr/lib/llvm-18/lib/libLLVM-18.so")
V = C.c_void_p
def _f(name, res, *args):
    f = getattr(_L, name); f.restype = res; f.argtypes = list(args); return f
i32, u64, cs = C.c_int, C.c_uint64, C.c_char_p
u32 = C.c_uint

CtxCreate = _f("LLVMContextCreate", V)
MemBuf = _f("LLVMCreateMemoryBufferWithContentsOfFile", i32, cs, C.POINTER(V), C.POINTER(cs))
ParseBC = _f("LLVMParseBitcodeInContext2", i32, V, V, C.POINTER(V))
DL = _f("LLVMGetModuleDataLayout", V, V)
ABISize = _f("LLVMABISizeOfType", u64, V, V)
StoreSize = _f("LLVMStoreSizeOfType", u64, V, V)
OffElem = _f("LLVMOffsetOfElement", u64, V, V, u32)
FirstFn = _f("LLVMGetFirstFunction", V, V); NextFn = _f("LLVMGetNextFunction", V, V)
FirstG = _f("LLVMGetFirstGlobal", V, V); NextG = _f("LLVMGetNextGlobal", V, V)
FirstAl = _f("LLVMGetFirstGlobalAlias", V, V); NextAl = _f("LLVMGetNextGlobalAlias", V, V); Aliasee = _f("LLVMAliasGetAliasee", V, V)
ValName = _f("LLVMGetValueName2", V, V, C.POINTER(C.c_size_t))
FirstBB = _f("LLVMGetFirstBasicBlock", V, V); NextBB = _f("LLVMGetNextBasicBlock", V, V)
FirstI = _f("LLVMGetFirstInstruction", V, V); NextI = _f("LLVMGetNextInstruction", V, V)
Opc = _f("LLVMGetInstructionOpcode", i32, V)
TypeOf = _f("LLVMTypeOf", V, V)
TKind = _f("LLVMGetTypeKind", i32, V)
IntW = _f("LLVMGetIntTypeWidth", u32, V)
NOps = _f("LLVMGetNumOperands", i32, V); Op = _f("LLVMGetOperand", V, V, u32)
VKind = _f("LLVMGetValueKind", i32, V)
ZExt = _f("LLVMConstIntGetZExtValue", u64, V)
PrintV = _f("LLVMPrintValueToString", V, V)
PrintT = _f("LLVMPrintTypeToString", V, V)
ICmpP = _f("LLVMGetICmpPredicate", i32, V); FCmpP = _f("LLVMGetFCmpPredicate", i32, V)
GEPSrc = _f("LLVMGetGEPSourceElementType", V, V)
AllocT = _f("LLVMGetAllocatedType", V, V)
CountInc = _f("LLVMCountIncoming", u32, V); IncV = _f("LLVMGetIncomingValue", V, V, u32); IncB = _f("LLVMGetIncomingBlock", V, V, u32)
NSucc = _f("LLVMGetNumSuccessors", u32, V); Succ = _f("LLVMGetSuccessor", V, V, u32)
IsCond = _f("LLVMIsConditional", i32, V); Cond = _f("LLVMGetCondition", V, V)
NIdx = _f("LLVMGetNumIndices", u32, V); Idx = _f("LLVMGetIndices", C.POINTER(u32), V)
NMask = _f("LLVMGetNumMaskElements", u32, V); Mask = _f("LLVMGetMaskValue", i32, V, u32)
Called = _f("LLVMGetCalledValue", V, V); NArgs = _f("LLVMGetNumArgOperands", u32, V)
StructN = _f("LLVMCountStructElementTypes", u32, V); StructT = _f("LLVMStructGetTypeAtIndex", V, V, u32)
ArrN = _f("LLVMGetArrayLength2", u64, V); VecN = _f("LLVMGetVectorSize", u32, V); ElemT = _f("LLVMGetElementType", V, V)
GInit = _f("LLVMGetInitializer", V, V); GConst = _f("LLVMIsGlobalConstant", i32, V); GValT = _f("LLVMGlobalGetValueType", V, V)
IsDecl = _f("LLVMIsDeclaration", i32, V)
CParams = _f("LLVMCountParams", u32, V); Param = _f("LLVMGetParam", V, V, u32)
RealD = _f("LLVMConstRealGetDouble", C.c_double, V, C.POINTER(i32))
CDSElem = _f("LLVMGetElementAsConstant", V, V, u32)
AggElem = _f("LLVMGetAggregateElement", V, V, u32)
DbgLine = _f("LLVMGetDebugLocLine", u32, V); DbgFile = _f("LLVMGetDebugLocFilename", V, V, C.POINTER(u32))
RMW = _f("LLVMGetAtomicRMWBinOp", i32, V)
NUW = _f("LLVMGetNUW", i32, V); NSW = _f("LLVMGetNSW", i32, V)
COpc = _f("LLVMGetConstOpcode", i32, V)
RetT = _f("LLVMGetReturnType", V, V)
BBVal = _f("LLVMBasicBlockAsValue", V, V)
DispMsg = _f("LLVMDisposeMessage", None, V)
GetAttrEnum = _f("LLVMGetEnumAttributeAtIndex", V, V, u32, u32)
AttrKind = _f("LLVMGetEnumAttributeKindForName", u32, cs, C.c_size_t)

OPC = {1:'ret',2:'br',3:'switch',4:'indirectbr',5:'invoke',7:'unreachable',8:'add',9:'fadd',10:'sub',11:'fsub',12:'mul',13:'fmul',
 14:'udiv',15:'sdiv',16:'fdiv',17:'urem',18:'srem',19:'frem',20:'shl',21:'lshr',22:'ashr',23:'and',24:'or',25:'xor',26:'alloca',
 27:'load',28:'store',29:'gep',30:'trunc',31:'zext',32:'sext',33:'fptoui',34:'fptosi',35:'uitofp',36:'sitofp',37:'fptrunc',
 38:'fpext',39:'ptrtoint',40:'inttoptr',41:'bitcast',60:'addrspacecast',42:'icmp',43:'fcmp',44:'phi',45:'call',46:'select',
 50:'extractelement',51:'insertelement',52:'shufflevector',53:'extractvalue',54:'insertvalue',55:'fence',56:'cmpxchg',57:'atomicrmw',
 66:'fneg',67:'callbr',68:'freeze'}
ICMP = {32:'eq',33:'ne',34:'ugt',35:'uge',36:'ult',37:'ule',38:'sgt',39:'sge',40:'slt',41:'sle'}
FCMP = ['false','oeq','ogt','oge','olt','ole','one','ord','uno','ueq','ugt','uge','ult','ule','une','true']
# value kinds
VK_ARG,VK_BB,VK_FN,VK_ALIAS,VK_GVAR,VK_CEXPR = 0,1,5,6,8,10
(VK_CARR,VK_CSTRUCT,VK_CVEC,VK_UNDEF,VK_AGGZERO,VK_CDARR,VK_CDVEC,VK_INT,VK_FP,VK_NULL,VK_NONE) = (11,12,13,14,15,16,17,18,19,20,21)

def cstr(p):
    s = C.cast(p, cs).value.decode('utf-8', 'replace'); DispMsg(p); return s

class Inst:
    __slots__ = ('op','id','ty','ops','x','line','file','tys')
    def __repr__(self): return f"%{self.id}={self.op} {self.ops} {self.x}"
class Block:
    __slots__ = ('idx','insts','succs','preds','name')
class Func:
    def __init__(self): self.blocks=[]; self.name=''; self.nparams=0
class Global:
    __slots__ = ('name','ty','init','const','v','_init')

class Module:
    def __init__(self, path):
        self.ctx = CtxCreate()
        buf = V(); msg = cs()
        if MemBuf(path.encode(), C.byref(buf), C.byref(msg)): raise Exception(f"cannot read {path}")
        m = V()
        if ParseBC(self.ctx, buf, C.byref(m)): raise Exception(f"cannot parse {path}")
        self.m = m; self.dl = DL(m)
        self.tcache = {}; self.fns = {}; self.decls = set(); self.globals = {}; self._parsed = {}
        self._byptr = {}
        self.noret_kind = AttrKind(b"noreturn", 8)
        self.noreturn = set()
        f = FirstFn(m)
        while f:
            n = self.name(f)
            if IsDecl(f): self.decls.add(n)
            else: self.fns[n] = f
            if GetAttrEnum(f, 0xFFFFFFFF, self.noret_kind): self.noreturn.add(n)
            f = NextFn(f)
        g = FirstG(m)
        while g:
            o = Global(); o.name = self.name(g); o.v = g; o.const = bool(GConst(g)); o.ty = self.type(GValT(g)); o._init = None
            self.globals[o.name] = o; g = NextG(g)
        self.aliases = {}
        a = FirstAl(m)
        while a:
            self.aliases[self.name(a)] = Aliasee(a); a = NextAl(a)

    def name(self, v):
        n = C.c_size_t(); p = ValName(v, C.byref(n))
        return C.string_at(p, n.value).decode('utf-8', 'replace') if n.value else ''

    def type(self, t):
        r = self.tcache.get(t)
        if r is not None: return r
        k = TKind(t)
        if k == 0: r = ('void',)
        elif k == 2: r = ('float',)
        elif k == 3: r = ('double',)
        elif k == 8: r = ('int', IntW(t))
        elif k == 12: r = ('ptr',)
        elif k == 10:
            n = StructN(t)
            el = tuple(self.type(StructT(t, i)) for i in range(n))
            offs = tuple(OffElem(self.dl, t, i) for i in range(n))
            r = ('struct', el, offs, ABISize(self.dl, t))
        elif k == 11: r = ('arr', ArrN(t), self.type(ElemT(t)))
        elif k == 13: r = ('vec', VecN(t), self.type(ElemT(t)))
        elif k == 9: r = ('fn',)
        elif k == 7: r = ('label',)
        elif k == 14: r = ('metadata',)
        elif k == 16: r = ('token',)
        elif k == 4: r = ('x86_fp80',)
        else: r = ('other', k)
        self.tcache[t] = r
        return r

    def ginit(self, g):
        if g._init is None:
            iv = GInit(g.v)
            g._init = self.const(iv) if iv else ('none',)
        return g._init

    # constants -> ('ci',w,val) ('cf',ty,float) ('null',) ('undef',ty) ('zero',ty) ('agg',ty,[..]) ('global',name) ('fn',name) ('cexpr',op,ty,[..],x)
    def const(self, v):
        k = VKind(v)
        if k == VK_INT:
            w = IntW(TypeOf(v))
            if w <= 64: return ('ci', w, ZExt(v) & ((1 << w) - 1))
            s = cstr(PrintV(v)).split()[-1]
            return ('ci', w, int(s) & ((1 << w) - 1))
        if k == VK_FP:
            lost = i32(); return ('cf', self.type(TypeOf(v)), RealD(v, C.byref(lost)))
        if k == VK_NULL: return ('null',)
        if k == VK_AGGZERO: return ('zero', self.type(TypeOf(v)))
        if k in (VK_CDARR, VK_CDVEC, VK_CARR, VK_CSTRUCT, VK_CVEC):
            t = self.type(TypeOf(v))
            n = len(t[1]) if t[0] == 'struct' else t[1]
            return ('agg', t, [self.const(AggElem(v, i)) for i in range(n)])
        if k == VK_GVAR: return ('global', self.name(v))
        if k == VK_FN: return ('fn', self.name(v))
        if k == VK_ALIAS: return self.const(Aliasee(v))
        if k == VK_CEXPR:
            op = OPC.get(COpc(v), str(COpc(v)))
            x = self.type(GEPSrc(v)) if op == 'gep' else None
            return ('cexpr', op, self.type(TypeOf(v)), [self.const(Op(v, i)) for i in range(NOps(v))], x, [self.type(TypeOf(Op(v,i))) for i in range(NOps(v))])
        # undef / poison and anything else
        return ('undef', self.type(TypeOf(v)))

    def func(self, name):
        if name in self._parsed: return self._parsed[name]
        if name not in self.fns: return None
        f = self.fns[name]
        fn = Func(); fn.name = name
        ids = {}
        np = CParams(f)
        for i in range(np): ids[Param(f, i)] = ('a', i)
        fn.nparams = np
        fn.ptys = [self.type(TypeOf(Param(f, i))) for i in range(np)]
        bbs = []; b = FirstBB(f); bmap = {}
        while b:
            bmap[b] = len(bbs); bbs.append(b); b = NextBB(b)
        n = 0
        raw = []
        for b in bbs:
            i = FirstI(b); l = []
            while i:
                ids[i] = ('i', n); l.append((i, n)); n += 1; i = NextI(i)
            raw.append(l)
        ln = u32()
        def operand(v):
            r = ids.get(v)
            return r if r is not None else self.const(v)
        for bi, l in enumerate(raw):
            blk = Block(); blk.idx = bi; blk.insts = []; blk.succs = []; blk.preds = []
            for (i, num) in l:
                op = OPC.get(Opc(i), f"op{Opc(i)}")
                ins = Inst(); ins.op = op; ins.id = num; ins.ty = self.type(TypeOf(i)); ins.x = None; ins.ops = []; ins.tys = None
                ins.line = DbgLine(i)
                p = DbgFile(i, C.byref(ln)); ins.file = C.string_at(p, ln.value).decode() if p else ''
                if op == 'phi':
                    ins.ops = [(bmap[IncB(i, j)], operand(IncV(i, j))) for j in range(CountInc(i))]
                elif op == 'br':
                    blk.succs = [bmap[Succ(i, j)] for j in range(NSucc(i))]
                    ins.x = list(blk.succs)
                    if IsCond(i): ins.ops = [operand(Cond(i))]
                elif op == 'switch':
                    ns = NSucc(i); blk.succs = [bmap[Succ(i, j)] for j in range(ns)]
                    ins.ops = [operand(Op(i, 0))]
                    cases = []
                    for j in range(1, ns):
                        cases.append((self.const(Op(i, 2*j))[2], bmap[Succ(i, j)]))
                    ins.x = (bmap[Succ(i, 0)], cases)
                    ins.tys = [self.type(TypeOf(Op(i, 0)))]
                elif op in ('call', 'invoke'):
                    na = NArgs(i); cv = Called(i)
                    ck = VKind(cv)
                    callee = ('meta',)
                    ops = []
                    nm = self.name(cv) if ck == VK_FN else ''
                    if not nm.startswith('llvm.dbg.') and not nm.startswith('llvm.experimental.noalias'):
                        for j in range(na): ops.append(operand(Op(i, j)))
                    ins.ops = ops
                    ins.x = ('fn', nm) if ck == VK_FN else operand(cv)
                    ins.tys = [self.type(TypeOf(Op(i, j))) for j in range(na)]
                    if op == 'invoke':
                        blk.succs = [bmap[Succ(i, j)] for j in range(NSucc(i))]
                else:
                    no = NOps(i)
                    ins.ops = [operand(Op(i, j)) for j in range(no)]
                    ins.tys = [self.type(TypeOf(Op(i, j))) for j in range(no)]
                    if op == 'icmp': ins.x = ICMP[ICmpP(i)]
                    elif op == 'fcmp': ins.x = FCMP[FCmpP(i)]
                    elif op == 'gep': ins.x = self.type(GEPSrc(i))
                    elif op == 'alloca': ins.x = self.type(AllocT(i))
                    elif op in ('extractvalue', 'insertvalue'):
                        p = Idx(i); ins.x = [p[j] for j in range(NIdx(i))]
                    elif op == 'shufflevector': ins.x = [Mask(i, j) for j in range(NMask(i))]
                    elif op == 'atomicrmw': ins.x = RMW(i)
                    elif op in ('add','sub','mul','shl'): ins.x = (bool(NUW(i)), bool(NSW(i)))
                blk.insts.append(ins)
            fn.blocks.append(blk)
        for blk in fn.blocks:
            for s in blk.succs: fn.blocks[s].preds.append(blk.idx)
        self._loops(fn)
        self._parsed[name] = fn
        return fn

    def _loops(self, fn):
        n = len(fn.blocks)
        # dominators (iterative, RPO)
        order = []; seen = set()
        st = [(0, iter(fn.blocks[0].succs))]; seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(fn.blocks[s].succs))); break
            else:
                order.append(b); st.pop()
        order.reverse()
        dom = {0: {0}}
        allb = set(order)
        for b in order:
            if b: dom[b] = allb
        ch = True
        while ch:
            ch = False
            for b in order:
                if b == 0: continue
                ps = [dom[p] for p in fn.blocks[b].preds if p in dom]
                d = set.intersection(*ps) | {b} if ps else {b}
                if d != dom[b]: dom[b] = d; ch = True
        fn.loops = {}
        for b in order:
            for s in fn.blocks[b].succs:
                if s in dom[b]:
                    body = fn.loops.setdefault(s, {s})
                    work = [b]
                    while work:
                        x = work.pop()
                        if x in body: continue
                        body.add(x); work += [p for p in fn.blocks[x].preds if p in dom]
        fn.backedges = {h: {b for b in body if h in fn.blocks[b].succs} for h, body in fn.loops.items()}

def sizeof(t):
    k = t[0]
    if k == 'int': return max(1, 1 << max(0, ((t[1] + 7) // 8 - 1)).bit_length()) if t[1] > 8 else 1
    if k == 'ptr' or k == 'double': return 8
    if k == 'float': return 4
    if k == 'struct': return t[3]
    if k == 'arr': return t[1] * sizeof(t[2])
    if k == 'vec': return t[1] * sizeof(t[2])
    if k == 'x86_fp80': return 16
    raise Exception(f"sizeof {t}")
