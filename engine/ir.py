"""LLVM IR access through libLLVM-18's C API (ctypes).

The IR is produced on every run by clang++-18 -O0 from /repo's current sources;
nothing here is specific to a property.  Instructions are decoded lazily per
function into plain Python objects.
"""
import ctypes as C, subprocess, glob, os

def _findlib():
    for p in ("/usr/lib/llvm-18/lib/libLLVM.so.1", "/usr/lib/llvm-18/lib/libLLVM-18.so",
              "/usr/lib/x86_64-linux-gnu/libLLVM-18.so", "/usr/lib/x86_64-linux-gnu/libLLVM.so.18.1"):
        if os.path.exists(p):
            return p
    g = glob.glob("/usr/lib/**/libLLVM*18*.so*", recursive=True)
    if g:
        return g[0]
    raise RuntimeError("libLLVM-18 not found")

L = C.CDLL(_findlib())
P = C.c_void_p
def _sig(name, res, *args):
    f = getattr(L, name); f.restype = res; f.argtypes = list(args); return f
S = C.c_char_p; U = C.c_uint; I = C.c_int; U64 = C.c_ulonglong; I64 = C.c_longlong
_sig("LLVMContextCreate", P)
_sig("LLVMCreateMemoryBufferWithContentsOfFile", I, S, C.POINTER(P), C.POINTER(S))
_sig("LLVMParseIRInContext", I, P, P, C.POINTER(P), C.POINTER(S))
_sig("LLVMGetFirstFunction", P, P); _sig("LLVMGetNextFunction", P, P)
_sig("LLVMGetFirstGlobal", P, P); _sig("LLVMGetNextGlobal", P, P)
_sig("LLVMGetFirstGlobalAlias", P, P); _sig("LLVMGetNextGlobalAlias", P, P); _sig("LLVMAliasGetAliasee", P, P)
_sig("LLVMGetValueName2", S, P, C.POINTER(C.c_size_t))
_sig("LLVMCountBasicBlocks", U, P); _sig("LLVMGetFirstBasicBlock", P, P); _sig("LLVMGetNextBasicBlock", P, P)
_sig("LLVMGetFirstInstruction", P, P); _sig("LLVMGetNextInstruction", P, P)
_sig("LLVMGetInstructionOpcode", I, P); _sig("LLVMGetNumOperands", I, P); _sig("LLVMGetOperand", P, P, U)
_sig("LLVMTypeOf", P, P); _sig("LLVMGetTypeKind", I, P); _sig("LLVMGetIntTypeWidth", U, P)
_sig("LLVMGetValueKind", I, P)
_sig("LLVMConstIntGetZExtValue", U64, P)
_sig("LLVMPrintValueToString", S, P)
_sig("LLVMPrintTypeToString", S, P)
_sig("LLVMGetICmpPredicate", I, P); _sig("LLVMGetFCmpPredicate", I, P)
_sig("LLVMGetGEPSourceElementType", P, P); _sig("LLVMGetAllocatedType", P, P)
_sig("LLVMGetConstOpcode", I, P)
_sig("LLVMGetNormalDest", P, P); _sig("LLVMGetUnwindDest", P, P)
_sig("LLVMGetCalledValue", P, P); _sig("LLVMGetNumArgOperands", U, P)
_sig("LLVMGetNumIndices", U, P); _sig("LLVMGetIndices", C.POINTER(U), P)
_sig("LLVMGetNumClauses", U, P); _sig("LLVMGetClause", P, P, U); _sig("LLVMIsCleanup", I, P)
_sig("LLVMCountIncoming", U, P); _sig("LLVMGetIncomingValue", P, P, U); _sig("LLVMGetIncomingBlock", P, P, U)
_sig("LLVMGetNumSuccessors", U, P); _sig("LLVMGetSuccessor", P, P, U)
_sig("LLVMIsConditional", I, P)
_sig("LLVMBasicBlockAsValue", P, P); _sig("LLVMValueAsBasicBlock", P, P)
_sig("LLVMGetDebugLocLine", U, P)
_sig("LLVMGetDebugLocFilename", S, P, C.POINTER(U))
_sig("LLVMGetModuleDataLayout", P, P)
_sig("LLVMOffsetOfElement", U64, P, P, U); _sig("LLVMABISizeOfType", U64, P, P); _sig("LLVMStoreSizeOfType", U64, P, P)
_sig("LLVMGetElementType", P, P); _sig("LLVMGetArrayLength2", U64, P)
_sig("LLVMCountStructElementTypes", U, P); _sig("LLVMStructGetTypeAtIndex", P, P, U)
_sig("LLVMGetInitializer", P, P); _sig("LLVMIsGlobalConstant", I, P); _sig("LLVMGlobalGetValueType", P, P)
_sig("LLVMIsConstantString", I, P); _sig("LLVMGetAsString", S, P, C.POINTER(C.c_size_t))
_sig("LLVMGetAggregateElement", P, P, U)
_sig("LLVMCountParams", U, P); _sig("LLVMGetParam", P, P, U)
_sig("LLVMIsDeclaration", I, P); _sig("LLVMGetReturnType", P, P); _sig("LLVMIsFunctionVarArg", I, P)
_sig("LLVMGetNSW", I, P); _sig("LLVMGetNUW", I, P)
_sig("LLVMGetVectorSize", U, P)
_sig("LLVMConstRealGetDouble", C.c_double, P, C.POINTER(I))
_sig("LLVMGetCalledFunctionType", P, P)

OPC = {1:'ret',2:'br',3:'switch',4:'indirectbr',5:'invoke',7:'unreachable',67:'callbr',66:'fneg',8:'add',9:'fadd',
 10:'sub',11:'fsub',12:'mul',13:'fmul',14:'udiv',15:'sdiv',16:'fdiv',17:'urem',18:'srem',19:'frem',20:'shl',
 21:'lshr',22:'ashr',23:'and',24:'or',25:'xor',26:'alloca',27:'load',28:'store',29:'getelementptr',30:'trunc',
 31:'zext',32:'sext',33:'fptoui',34:'fptosi',35:'uitofp',36:'sitofp',37:'fptrunc',38:'fpext',39:'ptrtoint',
 40:'inttoptr',41:'bitcast',60:'addrspacecast',42:'icmp',43:'fcmp',44:'phi',45:'call',46:'select',50:'extractelement',
 51:'insertelement',52:'shufflevector',53:'extractvalue',54:'insertvalue',68:'freeze',55:'fence',56:'cmpxchg',
 57:'atomicrmw',58:'resume',59:'landingpad',61:'cleanupret'}
ICMP = {32:'eq',33:'ne',34:'ugt',35:'uge',36:'ult',37:'ule',38:'sgt',39:'sge',40:'slt',41:'sle'}
TK = {0:'void',1:'half',2:'float',3:'double',4:'x86fp80',8:'int',9:'function',10:'struct',11:'array',12:'ptr',13:'vector',7:'label',14:'metadata',16:'token'}
VK_ARG, VK_BB = 0, 1
# LLVMValueKind
VKN = {0:'arg',1:'bb',5:'fn',6:'alias',8:'gvar',7:'ifunc',9:'blockaddr',10:'cexpr',11:'carray',12:'cstruct',13:'cvector',
       14:'undef',15:'aggzero',16:'cdataarray',17:'cdatavector',18:'cint',19:'cfp',20:'null',21:'tokennone',22:'metadata',23:'asm',24:'inst',25:'poison'}

_sig("LLVMGetLinkage", I, P)
def rawname(v):
    n = C.c_size_t()
    s = L.LLVMGetValueName2(v, C.byref(n))
    return s.decode() if s else ''
_modno = [0]


class Ty:
    __slots__ = ('kind', 'width', 'size', 'ref', 'mod', '_f')
    def __repr__(self):
        return self.kind + (str(self.width) if self.kind == 'int' else '')


class Instr:
    __slots__ = ('op', 'ref', 'ty', 'ops', 'x', 'line', 'id', 'pred', 'file')
    def __repr__(self):
        return L.LLVMPrintValueToString(self.ref).decode().strip()


class Block:
    __slots__ = ('ref', 'instrs', 'idx', 'succs')


class Function:
    def __init__(self, mod, ref, name):
        self.mod, self.ref, self.name = mod, ref, name
        self.isdecl = bool(L.LLVMIsDeclaration(ref))
        self._blocks = None
        self.nparams = L.LLVMCountParams(ref)
        self.params = [L.LLVMGetParam(ref, i) for i in range(self.nparams)]
    @property
    def dem(self):
        return self.mod.demangled(self.name)
    def ptypes(self):
        return [self.mod.ty(L.LLVMTypeOf(p)) for p in self.params]
    @property
    def blocks(self):
        if self._blocks is None:
            self._decode()
        return self._blocks
    def _decode(self):
        m = self.mod
        bl = []; bmap = {}
        b = L.LLVMGetFirstBasicBlock(self.ref)
        while b:
            B = Block(); B.ref = b; B.idx = len(bl); bl.append(B); bmap[b] = B.idx
            b = L.LLVMGetNextBasicBlock(b)
        self.bmap = bmap
        self.argidx = {p: i for i, p in enumerate(self.params)}
        for B in bl:
            B.instrs = []; B.succs = []
            i = L.LLVMGetFirstInstruction(B.ref)
            while i:
                B.instrs.append(m.instr(self, i, bmap, B))
                i = L.LLVMGetNextInstruction(i)
        self._blocks = bl
        self._loops()
    # dominators + natural loops
    def _loops(self):
        bl = self._blocks; n = len(bl)
        preds = [[] for _ in bl]
        for B in bl:
            for s in B.succs: preds[s].append(B.idx)
        order = []; seen = set()
        st = [(0, iter(bl[0].succs))]; seen.add(0)
        while st:
            u, it = st[-1]
            for v in it:
                if v not in seen:
                    seen.add(v); st.append((v, iter(bl[v].succs))); break
            else:
                order.append(u); st.pop()
        rpo = order[::-1]; num = {b: i for i, b in enumerate(rpo)}
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None: new = p
                        else:
                            a, c = p, new
                            while a != c:
                                while num[a] > num[c]: a = idom[a]
                                while num[c] > num[a]: c = idom[c]
                            new = a
                if new is not None and idom.get(b) != new:
                    idom[b] = new; ch = True
        def dom(a, b):
            while True:
                if a == b: return True
                if b == 0: return False
                b = idom[b]
        loops = {}
        for B in bl:
            if B.idx not in num: continue
            for s in B.succs:
                if dom(s, B.idx):
                    body = loops.setdefault(s, {s})
                    stk = [B.idx]
                    while stk:
                        x = stk.pop()
                        if x in body: continue
                        body.add(x)
                        stk.extend(p for p in preds[x] if p in num)
        self.loops = loops
        self.preds = preds


class Module:
    def sname(self, v):
        """symbol name; internal/private symbols are qualified by module, so they never clash"""
        n = rawname(v)
        if L.LLVMGetLinkage(v) in (8, 9): n = '%s@m%d' % (n, self.no)
        return n
    def __init__(self, path):
        _modno[0] += 1; self.no = _modno[0]
        ctx = L.LLVMContextCreate()
        mb = P(); err = S()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(mb), C.byref(err)):
            raise RuntimeError(err.value)
        m = P()
        if L.LLVMParseIRInContext(ctx, mb, C.byref(m), C.byref(err)):
            raise RuntimeError(err.value)
        self.m = m; self.ctx = ctx; self.path = path
        self.td = L.LLVMGetModuleDataLayout(m)
        self.fns = {}; self.globs = {}; self._ty = {}; self.fnref = {}; self.aliases = {}
        f = L.LLVMGetFirstFunction(m)
        while f:
            F = Function(self, f, self.sname(f)); self.fns[F.name] = F; self.fnref[f] = F
            f = L.LLVMGetNextFunction(f)
        g = L.LLVMGetFirstGlobal(m)
        while g:
            self.globs[self.sname(g)] = g
            g = L.LLVMGetNextGlobal(g)
        a = L.LLVMGetFirstGlobalAlias(m)
        while a:
            self.aliases[self.sname(a)] = self.sname(L.LLVMAliasGetAliasee(a))
            a = L.LLVMGetNextGlobalAlias(a)
        names = list(self.fns) + list(self.globs)
        out = subprocess.run(['c++filt'], input='\n'.join(x.split('@m')[0] for x in names), capture_output=True, text=True).stdout.split('\n')
        self.dem = dict(zip(names, out))
    def demangled(self, n):
        return self.dem.get(n, n)
    def ty(self, r):
        t = self._ty.get(r)
        if t is None:
            t = Ty(); t.ref = r; t.mod = self; t._f = None
            t.kind = TK.get(L.LLVMGetTypeKind(r), 'other')
            t.width = L.LLVMGetIntTypeWidth(r) if t.kind == 'int' else 0
            t.size = 0
            if t.kind in ('int', 'struct', 'array', 'ptr', 'float', 'double', 'vector', 'x86fp80'):
                t.size = L.LLVMABISizeOfType(self.td, r)
            self._ty[r] = t
        return t
    def fields(self, t):
        """list of (offset, Ty) for struct/array"""
        if t._f is None:
            if t.kind == 'struct':
                n = L.LLVMCountStructElementTypes(t.ref)
                t._f = [(L.LLVMOffsetOfElement(self.td, t.ref, i), self.ty(L.LLVMStructGetTypeAtIndex(t.ref, i))) for i in range(n)]
            elif t.kind in ('array',):
                e = self.ty(L.LLVMGetElementType(t.ref)); n = L.LLVMGetArrayLength2(t.ref)
                t._f = [(i * e.size, e) for i in range(min(n, 4096))]
        return t._f
    def elem(self, t):
        return self.ty(L.LLVMGetElementType(t.ref))
    def arrlen(self, t):
        return L.LLVMGetArrayLength2(t.ref)
    # operand decoding: tuples
    def val(self, F, v):
        k = VKN.get(L.LLVMGetValueKind(v), '?')
        if k == 'inst': return ('i', v)
        if k == 'arg': return ('a', F.argidx[v] if F else None)
        if k == 'cint':
            t = self.ty(L.LLVMTypeOf(v))
            if t.width > 64:
                s = L.LLVMPrintValueToString(v).decode().split()[-1]
                return ('c', int(s) % (1 << t.width), t)
            return ('c', L.LLVMConstIntGetZExtValue(v), t)
        if k == 'null': return ('null', self.ty(L.LLVMTypeOf(v)))
        if k == 'fn': return ('fn', self.sname(v))
        if k == 'alias': return ('fn', self.sname(L.LLVMAliasGetAliasee(v)))
        if k == 'gvar': return ('g', self.sname(v))
        if k in ('undef', 'poison'): return ('undef', self.ty(L.LLVMTypeOf(v)))
        if k == 'aggzero': return ('zero', self.ty(L.LLVMTypeOf(v)))
        if k == 'cexpr':
            op = OPC.get(L.LLVMGetConstOpcode(v), '?')
            ops = [self.val(F, L.LLVMGetOperand(v, i)) for i in range(L.LLVMGetNumOperands(v))]
            if op == 'getelementptr':
                return ('cgep', self.gepinfo(v, ops), ops)
            return ('cexpr', op, ops, self.ty(L.LLVMTypeOf(v)))
        if k == 'cfp':
            li = I()
            return ('cf', L.LLVMConstRealGetDouble(v, C.byref(li)), self.ty(L.LLVMTypeOf(v)))
        if k in ('cstruct', 'carray', 'cdataarray', 'cvector', 'cdatavector'):
            return ('agg', v, self.ty(L.LLVMTypeOf(v)))
        if k == 'bb': return ('bb', v)
        return ('other', k, v)
    def gepinfo(self, v, ops):
        """returns (const offset, [(operand index, stride)])"""
        t = self.ty(L.LLVMGetGEPSourceElementType(v))
        const = 0; dyn = []
        for j in range(1, len(ops)):
            o = ops[j]
            if j == 1:
                et, stride = t, t.size
            else:
                if t.kind == 'struct':
                    idx = o[1]; off, ft = self.fields(t)[idx]
                    const += off; t = ft; continue
                et = self.elem(t); stride = et.size; t = et
            if o[0] == 'c':
                w = o[2].width; x = o[1]
                if x >= 1 << (w - 1): x -= 1 << w
                const += x * stride
            else:
                dyn.append((j, stride))
        return const, dyn
    def instr(self, F, r, bmap, B):
        i = Instr(); i.ref = r; i.id = r
        i.op = OPC.get(L.LLVMGetInstructionOpcode(r), '?%d' % L.LLVMGetInstructionOpcode(r))
        i.ty = self.ty(L.LLVMTypeOf(r)); i.x = None; i.pred = None
        i.line = 0; i.file = ''
        if i.op in ('call', 'invoke', 'br', 'switch', 'store', 'load', 'add', 'sub', 'ret', 'getelementptr', 'resume') or True:
            try:
                i.line = L.LLVMGetDebugLocLine(r)
            except Exception:
                i.line = 0
        op = i.op
        if op == 'phi':
            n = L.LLVMCountIncoming(r)
            i.x = [(bmap[L.LLVMGetIncomingBlock(r, k)], self.val(F, L.LLVMGetIncomingValue(r, k))) for k in range(n)]
            i.ops = []
            return i
        if op in ('call', 'invoke'):
            n = L.LLVMGetNumArgOperands(r)
            i.ops = [self.val(F, L.LLVMGetOperand(r, k)) for k in range(n)]
            callee = self.val(F, L.LLVMGetCalledValue(r))
            if op == 'invoke':
                nd = bmap[L.LLVMGetNormalDest(r)]; ud = bmap[L.LLVMGetUnwindDest(r)]
                i.x = (callee, nd, ud); B.succs += [nd, ud]
            else:
                i.x = (callee, None, None)
            return i
        if op == 'br':
            n = L.LLVMGetNumSuccessors(r)
            s = [bmap[L.LLVMGetSuccessor(r, k)] for k in range(n)]
            B.succs += s
            i.x = s
            i.ops = [self.val(F, L.LLVMGetOperand(r, 0))] if L.LLVMIsConditional(r) else []
            return i
        if op == 'switch':
            n = L.LLVMGetNumOperands(r)
            raw = [L.LLVMGetOperand(r, k) for k in range(n)]
            i.ops = [self.val(F, raw[0])]
            dflt = bmap[L.LLVMValueAsBasicBlock(raw[1])]
            cases = []
            for k in range(2, n, 2):
                cases.append((self.val(F, raw[k])[1], bmap[L.LLVMValueAsBasicBlock(raw[k + 1])]))
            i.x = (dflt, cases)
            B.succs += [dflt] + [c[1] for c in cases]
            return i
        if op == 'landingpad':
            n = L.LLVMGetNumClauses(r)
            i.x = ([self.val(F, L.LLVMGetClause(r, k)) for k in range(n)], bool(L.LLVMIsCleanup(r)))
            i.ops = []
            return i
        n = L.LLVMGetNumOperands(r)
        i.ops = [self.val(F, L.LLVMGetOperand(r, k)) for k in range(n)]
        if op == 'icmp':
            i.pred = ICMP[L.LLVMGetICmpPredicate(r)]; i.x = self.ty(L.LLVMTypeOf(L.LLVMGetOperand(r, 0)))
        elif op == 'fcmp':
            i.pred = L.LLVMGetFCmpPredicate(r)
        elif op == 'getelementptr':
            i.x = self.gepinfo(r, i.ops)
        elif op == 'alloca':
            i.x = self.ty(L.LLVMGetAllocatedType(r))
        elif op in ('extractvalue', 'insertvalue'):
            k = L.LLVMGetNumIndices(r); p = L.LLVMGetIndices(r); i.x = [p[j] for j in range(k)]
        elif op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast'):
            i.x = self.ty(L.LLVMTypeOf(L.LLVMGetOperand(r, 0)))
        elif op in ('add', 'sub', 'mul', 'shl'):
            i.x = (bool(L.LLVMGetNSW(r)), bool(L.LLVMGetNUW(r)))
        elif op == 'store':
            i.x = self.ty(L.LLVMTypeOf(L.LLVMGetOperand(r, 0)))
        return i
    # constants of globals
    def ginit(self, name):
        """-> (initializer value-ref or None, Ty, isconst)"""
        g = self.globs.get(name)
        if g is None: return None
        init = L.LLVMGetInitializer(g)
        return (init, self.ty(L.LLVMGlobalGetValueType(g)), bool(L.LLVMIsGlobalConstant(g)))
    def const_at(self, v, ty, off, size):
        """decode the scalar constant at byte offset off of initializer v"""
        while True:
            k = VKN.get(L.LLVMGetValueKind(v), '?')
            if k == 'aggzero': return ('c', 0, None)
            if k == 'cdataarray' and L.LLVMIsConstantString(v):
                n = C.c_size_t(); p = L.LLVMGetAsString(v, C.byref(n))
                # c_char_p stops at NUL; re-read through string_at
                return ('c', self.const_bytes(v)[off], None)
            if ty.kind == 'struct':
                fs = self.fields(ty)
                for j in range(len(fs) - 1, -1, -1):
                    if fs[j][0] <= off:
                        break
                v = L.LLVMGetAggregateElement(v, j); off -= fs[j][0]; ty = fs[j][1]; continue
            if ty.kind == 'array':
                e = self.elem(ty); j = off // e.size
                v = L.LLVMGetAggregateElement(v, j); off -= j * e.size; ty = e
                if not v: return None
                continue
            return self.val(None, v)
    def const_bytes(self, v):
        n = C.c_size_t()
        f = L.LLVMGetAsString; old = f.restype
        f.restype = P
        try:
            p = f(v, C.byref(n))
            return C.string_at(p, n.value)
        finally:
            f.restype = old
