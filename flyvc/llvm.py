"""Loads LLVM bitcode through libLLVM's C API (ctypes) into plain Python IR.

Functions are converted lazily, the first time the executor enters them.
"""
import ctypes as C
import subprocess, os

_L = None


def lib():
    global _L
    if _L is not None:
        return _L
    for p in ("/usr/lib/llvm-18/lib/libLLVM-18.so", "libLLVM-18.so", "/usr/lib/x86_64-linux-gnu/libLLVM-18.so"):
        try:
            L = C.CDLL(p)
            break
        except OSError:
            L = None
    if L is None:
        raise RuntimeError("libLLVM-18 not found")
    P = C.c_void_p
    names = """LLVMContextCreate LLVMGetFirstFunction LLVMGetNextFunction LLVMGetFirstGlobal LLVMGetNextGlobal
    LLVMGetFirstBasicBlock LLVMGetNextBasicBlock LLVMGetFirstInstruction LLVMGetNextInstruction LLVMTypeOf
    LLVMGetOperand LLVMGetModuleDataLayout LLVMGetElementType LLVMStructGetTypeAtIndex LLVMGetCalledValue
    LLVMGetIncomingValue LLVMGetIncomingBlock LLVMGetParam LLVMGetInitializer LLVMGetAllocatedType
    LLVMGetGEPSourceElementType LLVMGetSuccessor LLVMGetClause LLVMGlobalGetValueType LLVMGetReturnType
    LLVMGetAggregateElement LLVMBasicBlockAsValue LLVMValueAsBasicBlock LLVMGetNamedFunction LLVMGetNamedGlobal
    LLVMGetBasicBlockTerminator LLVMGetCalledFunctionType LLVMGetNormalDest LLVMGetUnwindDest LLVMGetIndices
    LLVMGetElementAsConstant LLVMGetAsString LLVMPrintValueToString LLVMGetUsedValue LLVMAliasGetAliasee
    LLVMGetFirstGlobalAlias LLVMGetNextGlobalAlias LLVMPrintTypeToString LLVMGetSwitchDefaultDest
    LLVMInstructionGetDebugLoc LLVMGetFirstUse LLVMIsAGlobalAlias LLVMIsAFunction LLVMIsAGlobalVariable LLVMIsAConstantExpr
    LLVMIsAArgument LLVMIsAConstant LLVMIsABasicBlock LLVMIsAInlineAsm""".split()
    for n in names:
        f = getattr(L, n, None)
        if f is not None:
            f.restype = P
    for n in ("LLVMGetIntTypeWidth LLVMGetNumOperands LLVMGetInstructionOpcode LLVMGetConstOpcode LLVMGetICmpPredicate "
              "LLVMGetFCmpPredicate LLVMCountIncoming LLVMGetNumSuccessors LLVMCountParams LLVMGetTypeKind "
              "LLVMGetValueKind LLVMGetNumIndices LLVMCountStructElementTypes LLVMGetArrayLength LLVMGetNumClauses "
              "LLVMGetNumArgOperands LLVMGetVectorSize LLVMGetDebugLocLine LLVMIsConditional LLVMGetAlignment").split():
        getattr(L, n).restype = C.c_uint
    for n in ("LLVMABISizeOfType", "LLVMOffsetOfElement", "LLVMStoreSizeOfType"):
        getattr(L, n).restype = C.c_ulonglong
    L.LLVMConstIntGetZExtValue.restype = C.c_ulonglong
    L.LLVMConstIntGetSExtValue.restype = C.c_longlong
    L.LLVMConstRealGetDouble.restype = C.c_double
    L.LLVMGetValueName2.restype = C.POINTER(C.c_char)
    L.LLVMGetAsString.restype = C.POINTER(C.c_char)
    L.LLVMIsCleanup.restype = C.c_int
    L.LLVMIsDeclaration.restype = C.c_int
    L.LLVMIsUndef.restype = C.c_int
    L.LLVMIsPoison.restype = C.c_int
    L.LLVMIsNull.restype = C.c_int
    L.LLVMIsConstant.restype = C.c_int
    L.LLVMIsGlobalConstant.restype = C.c_int
    L.LLVMIsPackedStruct.restype = C.c_int
    L.LLVMPrintValueToString.restype = P
    L.LLVMPrintTypeToString.restype = P
    _L = L
    return L


def P(x):
    return C.c_void_p(x)


# type kinds (llvm-c/Core.h, LLVM 18)
TK = {0: 'void', 1: 'half', 2: 'float', 3: 'double', 4: 'x86_fp80', 5: 'fp128', 6: 'ppc', 7: 'label', 8: 'int',
      9: 'func', 10: 'struct', 11: 'array', 12: 'ptr', 13: 'vector', 14: 'metadata', 16: 'token'}

VK_ARG, VK_BB = 0, 1
# LLVMValueKind enumeration
VK = ['Argument', 'BasicBlock', 'MemoryUse', 'MemoryDef', 'MemoryPhi', 'Function', 'GlobalAlias', 'GlobalIFunc',
      'GlobalVariable', 'BlockAddress', 'ConstantExpr', 'ConstantArray', 'ConstantStruct', 'ConstantVector',
      'Undef', 'AggregateZero', 'ConstantDataArray', 'ConstantDataVector', 'ConstantInt', 'ConstantFP',
      'ConstantPointerNull', 'TokenNone', 'Metadata', 'InlineAsm', 'Instruction', 'Poison', 'TargetNone']

OPC = {1: 'ret', 2: 'br', 3: 'switch', 4: 'indirectbr', 5: 'invoke', 7: 'unreachable', 8: 'add', 9: 'fadd', 10: 'sub',
       11: 'fsub', 12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv', 16: 'fdiv', 17: 'urem', 18: 'srem', 19: 'frem',
       20: 'shl', 21: 'lshr', 22: 'ashr', 23: 'and', 24: 'or', 25: 'xor', 26: 'alloca', 27: 'load', 28: 'store',
       29: 'gep', 30: 'trunc', 31: 'zext', 32: 'sext', 33: 'fptoui', 34: 'fptosi', 35: 'uitofp', 36: 'sitofp',
       37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint', 40: 'inttoptr', 41: 'bitcast', 42: 'icmp', 43: 'fcmp', 44: 'phi',
       45: 'call', 46: 'select', 50: 'extractelement', 51: 'insertelement', 52: 'shufflevector', 53: 'extractvalue',
       54: 'insertvalue', 55: 'fence', 56: 'cmpxchg', 57: 'atomicrmw', 58: 'resume', 59: 'landingpad',
       60: 'addrspacecast', 66: 'fneg', 68: 'freeze'}
ICMP = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}
FCMP = {0: 'false', 1: 'oeq', 2: 'ogt', 3: 'oge', 4: 'olt', 5: 'ole', 6: 'one', 7: 'ord', 8: 'uno', 9: 'ueq', 10: 'ugt',
        11: 'uge', 12: 'ult', 13: 'ule', 14: 'une', 15: 'true'}


class Ty:
    __slots__ = ('kind', 'bits', 'elem', 'n', 'fields', 'offs', 'size', 'name')

    def __repr__(self):
        if self.kind == 'int':
            return 'i%d' % self.bits
        if self.kind == 'array':
            return '[%d x %r]' % (self.n, self.elem)
        if self.kind == 'struct':
            return '{%s}' % ','.join(map(repr, self.fields))
        return self.kind


class Inst:
    __slots__ = ('op', 'ty', 'ops', 'res', 'x', 'blk', 'line')

    def __repr__(self):
        return '%%%s = %s %r %r' % (self.res, self.op, self.ops, self.x)


class Block:
    __slots__ = ('name', 'insts', 'phis', 'id', 'succs')

    def __repr__(self):
        return 'B%d' % self.id


class Func:
    """A function; ``blocks`` is None for a declaration."""
    __slots__ = ('name', 'dem', 'ptr', 'params', 'ret', 'blocks', 'mod', 'isdecl', 'loops', '_conv', 'nvals', 'base')

    def __repr__(self):
        return '<fn %s>' % self.dem


# operand encodings: ('v', id) local value, ('c', int, bits), ('g', name), ('f', name), ('null',), ('undef', ty),
# ('agg', [ops], ty), ('zero', ty), ('fp', double, ty), ('data', bytes, elemsize, ty), ('ce', op, ops, ty, extra)


class Module:
    def __init__(self, path):
        L = lib()
        self.ctx = P(L.LLVMContextCreate())
        buf = C.c_void_p()
        msg = C.c_char_p()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(msg)):
            raise RuntimeError(msg.value)
        m = C.c_void_p()
        if L.LLVMParseIRInContext(self.ctx, buf, C.byref(m), C.byref(msg)):
            raise RuntimeError(msg.value)
        self.m = m
        self.td = P(L.LLVMGetModuleDataLayout(m))
        self.tys = {}
        self.funcs = {}
        self.globals = {}
        self.aliases = {}
        names = []
        f = L.LLVMGetFirstFunction(m)
        while f:
            n = self._name(f)
            fn = Func()
            fn.name, fn.ptr, fn.mod = n, f, self
            fn.isdecl = bool(L.LLVMIsDeclaration(P(f)))
            fn.blocks = None
            fn._conv = False
            fn.loops = None
            self.funcs[n] = fn
            names.append(n)
            f = L.LLVMGetNextFunction(P(f))
        g = L.LLVMGetFirstGlobal(m)
        while g:
            self.globals[self._name(g)] = g
            g = L.LLVMGetNextGlobal(P(g))
        a = L.LLVMGetFirstGlobalAlias(m)
        while a:
            t = L.LLVMAliasGetAliasee(P(a))
            self.aliases[self._name(a)] = self._name(t)
            a = L.LLVMGetNextGlobalAlias(P(a))
        dem = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
        self.bydem = {}
        for n, d in zip(names, dem):
            d = d.replace('std::__cxx11::', 'std::').replace('[abi:cxx11]', '')
            for t in ('char', 'wchar_t', 'char8_t', 'char16_t', 'char32_t'):
                d = d.replace('std::basic_string<%s, std::char_traits<%s>, std::allocator<%s> >' % (t, t, t), 'bstr<%s>' % t)
                d = d.replace('std::basic_string_view<%s, std::char_traits<%s> >' % (t, t), 'sview<%s>' % t)
            d = d.replace('std::basic_istream<char, std::char_traits<char> >', 'std::istream')
            d = d.replace('std::basic_ostream<char, std::char_traits<char> >', 'std::ostream')
            d = d.replace('std::basic_ios<char, std::char_traits<char> >', 'std::ios')
            fn = self.funcs[n]
            fn.dem = d
            self.bydem.setdefault(d, fn)
        for a, t in self.aliases.items():
            if t in self.funcs:
                self.funcs.setdefault(a, self.funcs[t])

    def _name(self, v):
        n = C.c_size_t()
        p = lib().LLVMGetValueName2(P(v), C.byref(n))
        return C.string_at(p, n.value).decode('latin1')

    # ---------------------------------------------------------------- types
    def ty(self, t):
        r = self.tys.get(t)
        if r is not None:
            return r
        L = lib()
        k = TK.get(L.LLVMGetTypeKind(P(t)), '?')
        r = Ty()
        r.kind = k
        r.bits = r.elem = r.n = r.fields = r.offs = None
        r.name = None
        self.tys[t] = r
        if k == 'int':
            r.bits = L.LLVMGetIntTypeWidth(P(t))
        elif k == 'ptr':
            r.bits = 64
        elif k in ('float', 'double', 'x86_fp80'):
            r.bits = {'float': 32, 'double': 64, 'x86_fp80': 80}[k]
        elif k == 'array':
            r.n = L.LLVMGetArrayLength(P(t))
            r.elem = self.ty(L.LLVMGetElementType(P(t)))
        elif k == 'vector':
            r.n = L.LLVMGetVectorSize(P(t))
            r.elem = self.ty(L.LLVMGetElementType(P(t)))
        elif k == 'struct':
            n = L.LLVMCountStructElementTypes(P(t))
            r.fields = [self.ty(L.LLVMStructGetTypeAtIndex(P(t), i)) for i in range(n)]
            if not L.LLVMIsOpaqueStruct(P(t)):
                r.offs = [L.LLVMOffsetOfElement(self.td, P(t), i) for i in range(n)]
        r.size = None
        if k in ('int', 'ptr', 'float', 'double', 'x86_fp80', 'array', 'vector') or (k == 'struct' and r.offs is not None):
            r.size = L.LLVMABISizeOfType(self.td, P(t))
        return r

    # ---------------------------------------------------------------- constants / operands
    def operand(self, v, vals):
        if v in vals:
            return ('v', vals[v])
        L = lib()
        pv = P(v)
        k = VK[L.LLVMGetValueKind(pv)]
        t = self.ty(L.LLVMTypeOf(pv))
        if k == 'ConstantInt':
            if t.bits <= 64:
                return ('c', L.LLVMConstIntGetZExtValue(pv), t.bits)
            s = self.print(v)
            val = s.split()[-1]
            val = {'true': 1, 'false': 0}.get(val) if val in ('true', 'false') else int(val)
            return ('c', val & ((1 << t.bits) - 1), t.bits)
        if k == 'ConstantPointerNull':
            return ('null',)
        if k == 'Function':
            return ('f', self._name(v))
        if k == 'GlobalVariable':
            return ('g', self._name(v))
        if k == 'GlobalAlias':
            a = self.aliases[self._name(v)]
            return ('f', a) if a in self.funcs else ('g', a)
        if k in ('Undef', 'Poison'):
            return ('undef', t)
        if k == 'AggregateZero':
            return ('zero', t)
        if k in ('ConstantArray', 'ConstantStruct', 'ConstantVector'):
            n = L.LLVMGetNumOperands(pv)
            return ('agg', [self.operand(L.LLVMGetOperand(pv, i), vals) for i in range(n)], t)
        if k in ('ConstantDataArray', 'ConstantDataVector'):
            if t.elem.kind == 'int' and t.elem.bits == 8 and k == 'ConstantDataArray':
                n = C.c_size_t()
                p = L.LLVMGetAsString(pv, C.byref(n))
                return ('data', C.string_at(p, n.value), 1, t)
            return ('agg', [self.operand(L.LLVMGetAggregateElement(pv, i), vals) for i in range(t.n)], t)
        if k == 'ConstantFP':
            loss = C.c_int()
            return ('fp', L.LLVMConstRealGetDouble(pv, C.byref(loss)), t, self.print(v))
        if k == 'ConstantExpr':
            op = OPC[L.LLVMGetConstOpcode(pv)]
            n = L.LLVMGetNumOperands(pv)
            ops = [self.operand(L.LLVMGetOperand(pv, i), vals) for i in range(n)]
            x = None
            if op == 'gep':
                x = self.ty(L.LLVMGetGEPSourceElementType(pv))
            return ('ce', op, ops, t, x)
        if k == 'Metadata':
            return ('md',)
        if k == 'InlineAsm':
            return ('asm',)
        if k == 'BasicBlock':
            return ('b', v)
        raise RuntimeError('operand kind ' + k + ' ' + self.print(v)[:200])

    def print(self, v):
        p = lib().LLVMPrintValueToString(P(v))
        return C.string_at(p).decode('latin1')

    def global_info(self, name):
        """(type, initializer operand or None, isconst)"""
        L = lib()
        g = self.globals[name]
        t = self.ty(L.LLVMGlobalGetValueType(P(g)))
        init = None
        if not L.LLVMIsDeclaration(P(g)):
            i = L.LLVMGetInitializer(P(g))
            if i:
                init = self.operand(i, {})
        return t, init, bool(L.LLVMIsGlobalConstant(P(g)))

    # ---------------------------------------------------------------- functions
    def convert(self, fn):
        if fn._conv:
            return fn
        fn._conv = True
        L = lib()
        fp = P(fn.ptr)
        vals = {}
        nid = 0
        fn.params = []
        for i in range(L.LLVMCountParams(fp)):
            p = L.LLVMGetParam(fp, i)
            vals[p] = nid
            fn.params.append((nid, self.ty(L.LLVMTypeOf(P(p)))))
            nid += 1
        if fn.isdecl:
            return fn
        blocks = {}
        order = []
        b = L.LLVMGetFirstBasicBlock(fp)
        while b:
            blk = Block()
            blk.id = len(order)
            blk.insts, blk.phis = [], []
            blocks[b] = blk
            order.append((b, blk))
            i = L.LLVMGetFirstInstruction(P(b))
            while i:
                vals[i] = nid
                nid += 1
                i = L.LLVMGetNextInstruction(P(i))
            b = L.LLVMGetNextBasicBlock(P(b))
        fn.nvals = nid
        for b, blk in order:
            i = L.LLVMGetFirstInstruction(P(b))
            while i:
                ins = self._inst(i, vals, blocks)
                ins.blk = blk
                if ins.op == 'phi':
                    blk.phis.append(ins)
                else:
                    blk.insts.append(ins)
                i = L.LLVMGetNextInstruction(P(i))
            t = blk.insts[-1]
            if t.op == 'br':
                blk.succs = list(t.x)
            elif t.op == 'switch':
                blk.succs = [t.x[0]] + [c[1] for c in t.x[1]]
            elif t.op == 'invoke':
                blk.succs = [t.x['normal'], t.x['unwind']]
            else:
                blk.succs = []
        fn.blocks = [blk for _, blk in order]
        self._loops(fn)
        return fn

    def _inst(self, i, vals, blocks):
        L = lib()
        pi = P(i)
        op = OPC.get(L.LLVMGetInstructionOpcode(pi), 'op%d' % L.LLVMGetInstructionOpcode(pi))
        ins = Inst()
        ins.op = op
        ins.res = vals[i]
        ins.ty = self.ty(L.LLVMTypeOf(pi))
        ins.x = None
        ins.ops = None
        ins.line = 0
        O = lambda k: self.operand(L.LLVMGetOperand(pi, k), vals)
        n = L.LLVMGetNumOperands(pi)
        if op == 'br':
            ns = L.LLVMGetNumSuccessors(pi)
            ins.x = [blocks[L.LLVMGetSuccessor(pi, k)] for k in range(ns)]
            ins.ops = [O(0)] if ns == 2 else []
        elif op == 'switch':
            ins.ops = [O(0)]
            d = blocks[L.LLVMGetSwitchDefaultDest(pi)]
            cases = []
            for k in range(2, n, 2):
                cases.append((O(k)[1], blocks[L.LLVMGetOperand(pi, k + 1)] if L.LLVMGetOperand(pi, k + 1) in blocks
                              else blocks[L.LLVMValueAsBasicBlock(P(L.LLVMGetOperand(pi, k + 1)))]))
            ins.x = (d, cases)
        elif op in ('call', 'invoke'):
            na = L.LLVMGetNumArgOperands(pi)
            ins.ops = [O(k) for k in range(na)]
            x = {'callee': self.operand(L.LLVMGetCalledValue(pi), vals), 'argty': []}
            for k in range(na):
                x['argty'].append(self.ty(L.LLVMTypeOf(P(L.LLVMGetOperand(pi, k)))))
            if op == 'invoke':
                x['normal'] = blocks[L.LLVMGetNormalDest(pi)]
                x['unwind'] = blocks[L.LLVMGetUnwindDest(pi)]
            ins.x = x
        elif op == 'phi':
            nc = L.LLVMCountIncoming(pi)
            ins.x = {}
            for k in range(nc):
                bb = blocks[L.LLVMGetIncomingBlock(pi, k)]
                ins.x[bb.id] = self.operand(L.LLVMGetIncomingValue(pi, k), vals)
            ins.ops = []
        elif op == 'landingpad':
            nc = L.LLVMGetNumClauses(pi)
            ins.x = (bool(L.LLVMIsCleanup(pi)), [self.operand(L.LLVMGetClause(pi, k), vals) for k in range(nc)])
            ins.ops = []
        else:
            ins.ops = [O(k) for k in range(n)]
            if op == 'icmp':
                ins.x = (ICMP[L.LLVMGetICmpPredicate(pi)], self.ty(L.LLVMTypeOf(P(L.LLVMGetOperand(pi, 0)))))
            elif op == 'fcmp':
                ins.x = FCMP[L.LLVMGetFCmpPredicate(pi)]
            elif op == 'alloca':
                ins.x = self.ty(L.LLVMGetAllocatedType(pi))
            elif op == 'gep':
                ins.x = self.ty(L.LLVMGetGEPSourceElementType(pi))
                # indices are signed
                ins.ops = [('c', o[1] - (1 << o[2]) & (1 << 64) - 1, 64) if o[0] == 'c' and k and o[2] < 64 and o[1] >> (o[2] - 1) else o
                           for k, o in enumerate(ins.ops)]
            elif op in ('extractvalue', 'insertvalue'):
                ni = L.LLVMGetNumIndices(pi)
                p = C.cast(L.LLVMGetIndices(pi), C.POINTER(C.c_uint))
                ins.x = [p[k] for k in range(ni)]
            elif op in ('trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'fptoui', 'fptosi', 'uitofp', 'sitofp',
                        'fptrunc', 'fpext', 'store', 'select', 'freeze', 'ret', 'add', 'fneg', 'cmpxchg', 'atomicrmw'):
                ins.x = [self.ty(L.LLVMTypeOf(P(L.LLVMGetOperand(pi, k)))) for k in range(n)]
                if op == 'atomicrmw':
                    ins.x = (L.LLVMGetAtomicRMWBinOp(pi), ins.x)
        return ins

    def _loops(self, fn):
        """Natural loops: header block id -> set of block ids."""
        n = len(fn.blocks)
        preds = [[] for _ in range(n)]
        for b in fn.blocks:
            for s in b.succs:
                preds[s.id].append(b.id)
        # reverse post order
        seen, order = set(), []
        stack = [(fn.blocks[0], iter(fn.blocks[0].succs))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s.id not in seen:
                    seen.add(s.id)
                    stack.append((s, iter(s.succs)))
                    break
            else:
                order.append(b.id)
                stack.pop()
        rpo = order[::-1]
        idx = {b: i for i, b in enumerate(rpo)}
        idom = {rpo[0]: rpo[0]}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            a, c = p, new
                            while a != c:
                                while idx[a] > idx[c]:
                                    a = idom[a]
                                while idx[c] > idx[a]:
                                    c = idom[c]
                            new = a
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == rpo[0]:
                    return False
                b = idom[b]
        loops = {}
        for b in rpo:
            for s in fn.blocks[b].succs:
                if dom(s.id, b):
                    body = loops.setdefault(s.id, {s.id})
                    w = [b]
                    while w:
                        x = w.pop()
                        if x not in body:
                            body.add(x)
                            w.extend(preds[x])
        fn.loops = loops
