"""ctypes front end to libLLVM-18: compiles a translation unit with the
repository's flags, runs a light (always-inline / mem2reg level) pipeline and
converts the functions into plain Python objects."""
import ctypes as C
import os
import subprocess
import tempfile

_L = None


def _lib():
    global _L
    if _L is None:
        for n in ('libLLVM-18.so', 'libLLVM-18.so.1', '/usr/lib/llvm-18/lib/libLLVM-18.so',
                  '/usr/lib/llvm-18/lib/libLLVM.so.18.1', 'libLLVM.so.18.1'):
            try:
                _L = C.CDLL(n)
                break
            except OSError:
                continue
        if _L is None:
            raise RuntimeError('libLLVM-18 not found')
    return _L


def _f(name, res, *args):
    fn = getattr(_lib(), name)
    fn.restype = res
    fn.argtypes = list(args)
    return fn


P = C.c_void_p
U = C.c_uint
S = C.c_char_p
ULL = C.c_ulonglong
I = C.c_int
SZ = C.c_size_t


class _Api:
    def __init__(self):
        d = dict(
            ContextCreate=(P,), CreateMemoryBufferWithContentsOfFile=(I, S, C.POINTER(P), C.POINTER(S)),
            ParseIRInContext=(I, P, P, C.POINTER(P), C.POINTER(S)),
            GetFirstFunction=(P, P), GetNextFunction=(P, P), IsDeclaration=(I, P),
            GetFirstGlobal=(P, P), GetNextGlobal=(P, P), GetInitializer=(P, P), IsGlobalConstant=(I, P),
            IsThreadLocal=(I, P), GetLinkage=(I, P),
            GlobalGetValueType=(P, P),
            GetValueName2=(S, P, C.POINTER(SZ)),
            GetFirstBasicBlock=(P, P), GetNextBasicBlock=(P, P), BasicBlockAsValue=(P, P), GetFirstInstruction=(P, P),
            GetNextInstruction=(P, P), GetInstructionOpcode=(I, P), GetNumOperands=(I, P), GetOperand=(P, P, U),
            GetNumArgOperands=(U, P), GetCalledValue=(P, P),
            TypeOf=(P, P), GetTypeKind=(I, P), GetIntTypeWidth=(U, P), CountStructElementTypes=(U, P),
            StructGetTypeAtIndex=(P, P, U), GetElementType=(P, P), GetArrayLength2=(ULL, P), GetVectorSize=(U, P),
            GetGEPSourceElementType=(P, P), GetNumIndices=(U, P), GetIndices=(C.POINTER(U), P),
            GetModuleDataLayout=(P, P), OffsetOfElement=(ULL, P, P, U), ABISizeOfType=(ULL, P, P),
            ABIAlignmentOfType=(U, P, P),
            GetICmpPredicate=(I, P), GetFCmpPredicate=(I, P), GetValueKind=(I, P),
            ConstIntGetZExtValue=(ULL, P), PrintValueToString=(P, P), PrintTypeToString=(P, P), DisposeMessage=(None, P),
            GetAggregateElement=(P, P, U), GetConstOpcode=(I, P),
            IsConstantString=(I, P), GetAsString=(P, P, C.POINTER(SZ)),
            CountParams=(U, P), GetParam=(P, P, U), CountIncoming=(U, P), GetIncomingValue=(P, P, U), GetIncomingBlock=(P, P, U),
            IsConditional=(I, P), GetCondition=(P, P), GetSwitchDefaultDest=(P, P), GetNumSuccessors=(U, P), GetSuccessor=(P, P, U),
            GetAllocatedType=(P, P), GetDebugLocLine=(U, P), GetDebugLocFilename=(P, P, C.POINTER(U)),
            GetAtomicRMWBinOp=(I, P), GetOrdering=(I, P), GetCmpXchgSuccessOrdering=(I, P), GetCmpXchgFailureOrdering=(I, P),
            GetWeak=(I, P), GetVolatile=(I, P), IsAtomicSingleThread=(I, P),
            GetNSW=(I, P), GetNUW=(I, P), GetExact=(I, P), IsInBounds=(I, P),
            GetEnumAttributeKindForName=(U, S, SZ), RemoveEnumAttributeAtIndex=(None, P, U, U),
            CreateEnumAttribute=(P, P, U, C.c_uint64), AddAttributeAtIndex=(None, P, U, P),
            GetEnumAttributeAtIndex=(P, P, U, U), SetLinkage=(None, P, I),
            CreatePassBuilderOptions=(P,), RunPasses=(P, P, S, P, P), GetErrorMessage=(P, P),
            DisposePassBuilderOptions=(None, P), GetReturnType=(P, P), GetElementAsConstant=(P, P, U),
            IsFunctionVarArg=(I, P), PrintModuleToString=(P, P), GetCallSiteEnumAttribute=(P, P, U, U),
            IsATerminatorInst=(P, P), IsLiteralStruct=(I, P), GetStructName=(S, P), GetUndefMaskElem=(I,), GetNumMaskElements=(U, P), GetMaskValue=(I, P, U),
        )
        for k, v in d.items():
            setattr(self, k, _f('LLVM' + k, v[0], *v[1:]))


_api = None


def api():
    global _api
    if _api is None:
        _api = _Api()
    return _api


def _msg(p):
    s = C.cast(p, C.c_char_p).value.decode(errors='replace')
    api().DisposeMessage(p)
    return s


OPC = {1: 'ret', 2: 'br', 3: 'switch', 4: 'indirectbr', 5: 'invoke', 7: 'unreachable', 67: 'callbr', 66: 'fneg', 8: 'add', 9: 'fadd',
       10: 'sub', 11: 'fsub', 12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv', 16: 'fdiv', 17: 'urem', 18: 'srem', 19: 'frem', 20: 'shl',
       21: 'lshr', 22: 'ashr', 23: 'and', 24: 'or', 25: 'xor', 26: 'alloca', 27: 'load', 28: 'store', 29: 'gep', 30: 'trunc', 31: 'zext',
       32: 'sext', 33: 'fptoui', 34: 'fptosi', 35: 'uitofp', 36: 'sitofp', 37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint', 40: 'inttoptr',
       41: 'bitcast', 60: 'addrspacecast', 42: 'icmp', 43: 'fcmp', 44: 'phi', 45: 'call', 46: 'select', 49: 'va_arg', 50: 'extractelement',
       51: 'insertelement', 52: 'shufflevector', 53: 'extractvalue', 54: 'insertvalue', 68: 'freeze', 55: 'fence', 56: 'cmpxchg',
       57: 'atomicrmw', 58: 'resume', 59: 'landingpad'}
PRED = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}
ORD = {0: 'na', 1: 'unordered', 2: 'monotonic', 4: 'acquire', 5: 'release', 6: 'acq_rel', 7: 'seq_cst'}
RMW = ['xchg', 'add', 'sub', 'and', 'nand', 'or', 'xor', 'max', 'min', 'umax', 'umin', 'fadd', 'fsub', 'fmax', 'fmin']


class Ty:
    """kind: int(width) ptr float double struct array vec void label meta func other; size in bytes"""
    __slots__ = ('kind', 'width', 'size', 'elems', 'count', 'name', 'offsets', 'ref')

    def __init__(self, kind):
        self.kind = kind
        self.width = 0
        self.size = 0
        self.elems = ()
        self.count = 0
        self.name = ''
        self.offsets = ()
        self.ref = None

    def __repr__(self):
        if self.kind == 'int':
            return 'i%d' % self.width
        return self.kind + (('<%s>' % self.name) if self.name else '')


class Val:
    """operand: k in {'inst','arg','int','null','undef','poison','global','func','fp','cexpr','agg','zero','block','meta','asm'}"""
    __slots__ = ('k', 'ty', 'id', 'n', 'name', 'ops', 'op', 'extra', 'ref')

    def __init__(self, k, ty):
        self.k = k
        self.ty = ty
        self.id = self.n = self.op = self.extra = None
        self.name = ''
        self.ops = ()
        self.ref = None

    def __repr__(self):
        return '%s:%s' % (self.k, self.id if self.id is not None else (self.n if self.n is not None else self.name))


class Inst:
    __slots__ = ('op', 'ty', 'id', 'ops', 'pred', 'gty', 'nsw', 'nuw', 'exact', 'idx', 'incoming', 'succ', 'cases', 'callee', 'aty',
                 'line', 'file', 'ordering', 'ordering2', 'rmw', 'weak', 'volatile', 'fn', 'block', 'mask', 'inbounds')

    def __init__(self):
        self.pred = self.gty = self.idx = self.incoming = self.succ = self.cases = self.callee = self.aty = None
        self.nsw = self.nuw = self.exact = False
        self.ordering = self.ordering2 = self.rmw = None
        self.weak = self.volatile = False
        self.line = 0
        self.file = ''
        self.mask = None
        self.inbounds = False

    def loc(self):
        return '%s:%d' % (self.file, self.line) if self.line else '?'

    def __repr__(self):
        return '%%%s=%s %s %s' % (self.id, self.op, self.pred or '', self.ops)


class Block:
    __slots__ = ('id', 'insts', 'fn', 'preds', 'succs', 'name')


class Func:
    __slots__ = ('name', 'args', 'blocks', 'ret', 'module', 'loops', 'order', 'loop_of', 'is_decl', 'ninst', 'vararg')


class Global:
    __slots__ = ('name', 'ty', 'const', 'init', 'is_decl', 'size', '_bytes', 'tls', 'module')


class Module:
    def __init__(self, path, mref, ctx):
        self.path = path
        self.ref = mref
        self.ctx = ctx
        self.funcs = {}
        self.globals = {}
        self._tys = {}
        self._dl = api().GetModuleDataLayout(mref)
        self._fcache = {}

    def text(self):
        return _msg(api().PrintModuleToString(self.ref))

    def ty(self, t):
        r = self._tys.get(t)
        if r is not None:
            return r
        A = api()
        k = A.GetTypeKind(t)
        if k == 8:
            r = Ty('int')
            r.width = A.GetIntTypeWidth(t)
        elif k == 12:
            r = Ty('ptr')
        elif k == 2:
            r = Ty('float')
        elif k == 3:
            r = Ty('double')
        elif k == 10:
            r = Ty('struct')
            n = A.CountStructElementTypes(t)
            if not A.IsLiteralStruct(t):
                nm = A.GetStructName(t)
                r.name = nm.decode() if nm else ''
            self._tys[t] = r
            try:
                r.elems = tuple(self.ty(A.StructGetTypeAtIndex(t, i)) for i in range(n))
                r.offsets = tuple(A.OffsetOfElement(self._dl, t, i) for i in range(n))
            except Exception:
                pass
        elif k == 11:
            r = Ty('array')
            r.elems = (self.ty(A.GetElementType(t)),)
            r.count = A.GetArrayLength2(t)
        elif k == 13:
            r = Ty('vec')
            r.elems = (self.ty(A.GetElementType(t)),)
            r.count = A.GetVectorSize(t)
        elif k == 0:
            r = Ty('void')
        elif k == 7:
            r = Ty('label')
        elif k == 14:
            r = Ty('meta')
        elif k == 9:
            r = Ty('func')
        else:
            r = Ty('other%d' % k)
        r.ref = t
        self._tys[t] = r
        if r.kind in ('int', 'ptr', 'float', 'double', 'struct', 'array', 'vec'):
            try:
                r.size = A.ABISizeOfType(self._dl, t)
            except Exception:
                r.size = 0
        return r


def _vname(v):
    n = SZ()
    s = api().GetValueName2(v, C.byref(n))
    return s[:n.value].decode(errors='replace') if s else ''


def load(path):
    A = api()
    ctx = A.ContextCreate()
    buf = P()
    err = S()
    if A.CreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(err)):
        raise RuntimeError('cannot read ' + path)
    m = P()
    if A.ParseIRInContext(ctx, buf, C.byref(m), C.byref(err)):
        raise RuntimeError('cannot parse IR: %s' % err.value)
    return Module(path, m, ctx)


_keep = {}


def prepare(mod, noinline=lambda name: False, passes=None):
    """mark functions always-inline (except the kept ones) and run passes"""
    A = api()
    FN = 0xFFFFFFFF
    kinds = {k: A.GetEnumAttributeKindForName(k.encode(), len(k)) for k in ('noinline', 'alwaysinline', 'optnone', 'inlinehint')}
    f = A.GetFirstFunction(mod.ref)
    while f:
        if not A.IsDeclaration(f):
            name = _vname(f)
            for k in ('noinline', 'optnone', 'alwaysinline'):
                A.RemoveEnumAttributeAtIndex(f, FN, kinds[k])
            k = 'noinline' if noinline(name) else 'alwaysinline'
            A.AddAttributeAtIndex(f, FN, A.CreateEnumAttribute(mod.ctx, kinds[k], 0))
        f = A.GetNextFunction(f)
    if passes is None:
        passes = 'function(sroa<modify-cfg>),always-inline,function(sroa<modify-cfg>,instsimplify,simplifycfg,early-cse,simplifycfg)'
    if passes:
        run_passes(mod, passes)


def run_passes(mod, passes):
    A = api()
    o = A.CreatePassBuilderOptions()
    e = A.RunPasses(mod.ref, passes.encode(), None, o)
    A.DisposePassBuilderOptions(o)
    if e:
        raise RuntimeError('passes failed: ' + C.cast(A.GetErrorMessage(e), C.c_char_p).value.decode())


def convert(mod):
    """fill mod.funcs / mod.globals"""
    A = api()
    g = A.GetFirstGlobal(mod.ref)
    while g:
        G = Global()
        G.name = _vname(g)
        G.module = mod
        G.ty = mod.ty(A.GlobalGetValueType(g))
        G.const = bool(A.IsGlobalConstant(g))
        G.is_decl = bool(A.IsDeclaration(g))
        G.tls = bool(A.IsThreadLocal(g))
        G.init = None if G.is_decl else A.GetInitializer(g)
        G.size = G.ty.size
        G._bytes = None
        mod.globals[G.name] = G
        g = A.GetNextGlobal(g)
    f = A.GetFirstFunction(mod.ref)
    while f:
        F = _conv_func(mod, f)
        mod.funcs[F.name] = F
        f = A.GetNextFunction(f)
    return mod


def _conv_func(mod, f):
    A = api()
    F = Func()
    F.name = _vname(f)
    F.module = mod
    F.is_decl = bool(A.IsDeclaration(f))
    F.ret = mod.ty(A.GetReturnType(A.GlobalGetValueType(f)))
    F.vararg = bool(A.IsFunctionVarArg(A.GlobalGetValueType(f)))
    F.blocks = []
    F.args = []
    F.ninst = 0
    ids = {}
    for i in range(A.CountParams(f)):
        a = A.GetParam(f, i)
        v = Val('arg', mod.ty(A.TypeOf(a)))
        v.id = 'a%d' % i
        v.name = _vname(a)
        ids[a] = v
        F.args.append(v)
    if F.is_decl:
        return F
    bids = {}
    b = A.GetFirstBasicBlock(f)
    raw = []
    n = 0
    while b:
        B = Block()
        B.id = len(raw)
        B.fn = F
        B.insts = []
        B.preds = []
        B.name = _vname(A.BasicBlockAsValue(b))
        bids[A.BasicBlockAsValue(b)] = B.id
        lst = []
        i = A.GetFirstInstruction(b)
        while i:
            v = Val('inst', mod.ty(A.TypeOf(i)))
            v.id = n
            n += 1
            ids[i] = v
            lst.append(i)
            i = A.GetNextInstruction(i)
        raw.append((B, lst))
        F.blocks.append(B)
        b = A.GetNextBasicBlock(b)
    F.ninst = n
    last = {}
    for B, lst in raw:
        for i in lst:
            I_ = _conv_inst(mod, i, ids, bids)
            I_.fn = F
            I_.block = B
            if not I_.line:
                I_.line, I_.file = last.get(B.id, (0, ''))
            else:
                last[B.id] = (I_.line, I_.file)
            B.insts.append(I_)
        t = B.insts[-1]
        B.succs = list(dict.fromkeys(t.succ or []))
    for B in F.blocks:
        for s in B.succs:
            F.blocks[s].preds.append(B.id)
    analyse_cfg(F)
    return F


def analyse_cfg(F):
    """dominators, natural loops (reducible only), reverse post order"""
    n = len(F.blocks)
    order, seen = [], set()
    stack = [(0, iter(F.blocks[0].succs))]
    seen.add(0)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(F.blocks[s].succs)))
                break
        else:
            order.append(b)
            stack.pop()
    order.reverse()
    F.order = {b: i for i, b in enumerate(order)}
    dom = {b: None for b in order}
    dom[0] = {0}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            ps = [dom[p] for p in F.blocks[b].preds if p in F.order and dom[p] is not None]
            d = set.intersection(*ps) | {b} if ps else {b}
            if d != dom[b]:
                dom[b] = d
                ch = True
    loops = {}
    for b in order:
        for s in F.blocks[b].succs:
            if s in dom[b]:
                body = loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st.extend(p for p in F.blocks[x].preds if p in F.order)
            elif F.order[s] <= F.order[b]:
                raise RuntimeError('irreducible control flow in ' + F.name)
    F.loops = loops


def _conv_val(mod, v, ids, bids):
    r = ids.get(v)
    if r is not None:
        return r
    A = api()
    k = A.GetValueKind(v)
    if k == 1:
        r = Val('block', None)
        r.n = bids[v]
        return r
    ty = mod.ty(A.TypeOf(v))
    if k == 18:
        r = Val('int', ty)
        if ty.width <= 64:
            r.n = A.ConstIntGetZExtValue(v) & ((1 << ty.width) - 1)
        else:
            s = _msg(A.PrintValueToString(v)).split()[-1]
            r.n = int(s) & ((1 << ty.width) - 1)
    elif k == 20:
        r = Val('null', ty)
    elif k == 14:
        r = Val('undef', ty)
    elif k in (25, 27):
        r = Val('poison', ty)
    elif k == 8:
        r = Val('global', ty)
        r.name = _vname(v)
    elif k == 5:
        r = Val('func', ty)
        r.name = _vname(v)
    elif k == 6:
        r = Val('func', ty)
        r.name = _vname(v)
    elif k == 19:
        r = Val('fp', ty)
        r.name = _msg(A.PrintValueToString(v))
    elif k == 10:
        r = Val('cexpr', ty)
        r.op = OPC.get(A.GetConstOpcode(v), '?')
        r.ops = [_conv_val(mod, A.GetOperand(v, i), ids, bids) for i in range(A.GetNumOperands(v))]
        if r.op == 'gep':
            r.extra = mod.ty(A.GetGEPSourceElementType(v))
    elif k == 15:
        r = Val('zero', ty)
    elif k in (11, 12, 13, 16, 17):
        r = Val('agg', ty)
        r.ref = v
        n = ty.count if ty.kind in ('array', 'vec') else len(ty.elems)
        if n <= 4096:
            r.ops = [_conv_val(mod, A.GetAggregateElement(v, i), {}, {}) for i in range(n)]
    elif k == 22:
        r = Val('meta', ty)
    elif k == 23:
        r = Val('asm', ty)
        r.name = _msg(A.PrintValueToString(v))
    else:
        r = Val('other', ty)
        r.n = k
    return r


def _conv_inst(mod, i, ids, bids):
    A = api()
    I_ = Inst()
    I_.op = OPC.get(A.GetInstructionOpcode(i), 'op%d' % A.GetInstructionOpcode(i))
    v = ids[i]
    I_.id = v.id
    I_.ty = v.ty
    op = I_.op
    I_.line = A.GetDebugLocLine(i)
    if I_.line:
        n = U()
        p = A.GetDebugLocFilename(i, C.byref(n))
        I_.file = C.string_at(p, n.value).decode() if p else ''
    nops = A.GetNumOperands(i)
    cv = lambda x: _conv_val(mod, x, ids, bids)
    if op == 'phi':
        n = A.CountIncoming(i)
        I_.incoming = []
        for k in range(n):
            I_.incoming.append((bids[A.BasicBlockAsValue(A.GetIncomingBlock(i, k))], cv(A.GetIncomingValue(i, k))))
        I_.ops = [x for _, x in I_.incoming]
        return I_
    if op == 'br':
        k = A.GetNumSuccessors(i)
        I_.succ = [bids[A.BasicBlockAsValue(A.GetSuccessor(i, j))] for j in range(k)]
        I_.ops = [cv(A.GetCondition(i))] if k == 2 else []
        return I_
    if op == 'switch':
        I_.ops = [cv(A.GetOperand(i, 0))]
        I_.succ = [bids[A.BasicBlockAsValue(A.GetSwitchDefaultDest(i))]]
        I_.cases = []
        for j in range(2, nops, 2):
            c = cv(A.GetOperand(i, j))
            s = bids[A.GetOperand(i, j + 1)]
            I_.cases.append((c.n, s))
            I_.succ.append(s)
        return I_
    if op in ('call', 'invoke'):
        na = A.GetNumArgOperands(i)
        I_.ops = [cv(A.GetOperand(i, j)) for j in range(na)]
        I_.callee = cv(A.GetCalledValue(i))
        if op == 'invoke':
            I_.succ = [bids[A.BasicBlockAsValue(A.GetSuccessor(i, j))] for j in range(2)]
        return I_
    I_.ops = [cv(A.GetOperand(i, j)) for j in range(nops)]
    if op == 'icmp':
        I_.pred = PRED[A.GetICmpPredicate(i)]
    elif op == 'fcmp':
        I_.pred = A.GetFCmpPredicate(i)
    elif op == 'gep':
        I_.gty = mod.ty(A.GetGEPSourceElementType(i))
        I_.inbounds = bool(A.IsInBounds(i))
    elif op == 'alloca':
        I_.aty = mod.ty(A.GetAllocatedType(i))
    elif op in ('add', 'sub', 'mul', 'shl'):
        I_.nsw = bool(A.GetNSW(i))
        I_.nuw = bool(A.GetNUW(i))
    elif op in ('udiv', 'sdiv', 'lshr', 'ashr'):
        I_.exact = bool(A.GetExact(i))
    elif op in ('extractvalue', 'insertvalue'):
        n = A.GetNumIndices(i)
        p = A.GetIndices(i)
        I_.idx = [p[j] for j in range(n)]
    elif op in ('load', 'store'):
        I_.ordering = ORD[A.GetOrdering(i)]
        I_.volatile = bool(A.GetVolatile(i))
    elif op == 'fence':
        I_.ordering = ORD[A.GetOrdering(i)]
    elif op == 'atomicrmw':
        I_.ordering = ORD[A.GetOrdering(i)]
        I_.rmw = RMW[A.GetAtomicRMWBinOp(i)]
    elif op == 'cmpxchg':
        I_.ordering = ORD[A.GetCmpXchgSuccessOrdering(i)]
        I_.ordering2 = ORD[A.GetCmpXchgFailureOrdering(i)]
        I_.weak = bool(A.GetWeak(i))
    elif op == 'shufflevector':
        I_.mask = [A.GetMaskValue(i, j) for j in range(A.GetNumMaskElements(i))]
    elif op == 'unreachable':
        I_.succ = []
    return I_


def global_bytes(G):
    """constant initializer as list of ints (bytes) or None entries for pointers/undef"""
    if G._bytes is None:
        out = [None] * G.ty.size
        _flat(G.module, G.init, G.ty, 0, out)
        G._bytes = out
    return G._bytes


def _flat(mod, v, ty, off, out):
    A = api()
    k = A.GetValueKind(v)
    if k == 15:
        for j in range(ty.size):
            out[off + j] = 0
        return
    if k == 18:
        n = A.ConstIntGetZExtValue(v)
        for j in range(ty.size):
            out[off + j] = (n >> (8 * j)) & 255
        return
    if k == 20:
        for j in range(ty.size):
            out[off + j] = 0
        return
    if ty.kind in ('array', 'vec') and k in (11, 13, 16, 17):
        e = ty.elems[0]
        if A.IsConstantString(v) and e.size == 1 and k == 16:
            n = SZ()
            p = A.GetAsString(v, C.byref(n))
            s = C.string_at(p, n.value)
            for j, c in enumerate(s):
                out[off + j] = c
            return
        for j in range(ty.count):
            _flat(mod, A.GetAggregateElement(v, j), e, off + j * e.size, out)
        return
    if ty.kind == 'struct' and k == 12:
        for j, e in enumerate(ty.elems):
            _flat(mod, A.GetAggregateElement(v, j), e, off + ty.offsets[j], out)
        return
    # pointers / floats / constant expressions: store a Val object at the first byte
    for j in range(ty.size):
        out[off + j] = None
    if ty.size:
        out[off] = _conv_val(mod, v, {}, {})


# ---------------------------------------------------------------------------------------------
REPO = os.environ.get('VF_REPO', '/repo')
BASEFLAGS = ['-std=c++17', '-m64', '-fno-rtti', '-fno-exceptions', '-DDEBUG', '-Wno-enum-constexpr-conversion', '-w']


def clang():
    for c in ('/usr/bin/clang++-18', 'clang++-18', 'clang++'):
        if os.path.isabs(c) and os.path.exists(c):
            return c
    return 'clang++'


class BuildError(Exception):
    pass


def compile_bc(src, flags=(), out=None, extra=()):
    tmp = out or tempfile.mktemp(suffix='.bc', prefix='vf_')
    cmd = [clang()] + BASEFLAGS + ['-O0', '-Xclang', '-disable-O0-optnone', '-g', '-fno-discard-value-names', '-emit-llvm', '-c',
                                   '-I', REPO + '/lib/h', '-I', REPO + '/lib'] + list(flags) + [src, '-o', tmp] + list(extra)
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError('clang failed on %s:\n%s' % (src, r.stderr[-4000:]))
    return tmp


def build(src, flags=(), keep=lambda n: False, passes=None):
    bc = compile_bc(src, flags)
    try:
        m = load(bc)
    finally:
        try:
            os.unlink(bc)
        except OSError:
            pass
    prepare(m, keep, passes)
    return convert(m)
