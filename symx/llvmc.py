"""LLVM bitcode -> Python source for the symbolic executor (via the LLVM C API)."""
import ctypes as C, sys, re, keyword
from fractions import Fraction as Q
from terms import rat

_so = None
P = C.c_void_p


def lib():
    global _so
    if _so is None:
        L = C.CDLL('/usr/lib/x86_64-linux-gnu/libLLVM-18.so')
        names = '''LLVMGetFirstFunction LLVMGetNextFunction LLVMGetFirstGlobal LLVMGetNextGlobal
        LLVMGetFirstBasicBlock LLVMGetNextBasicBlock LLVMGetFirstInstruction LLVMGetNextInstruction
        LLVMGetOperand LLVMTypeOf LLVMGetInitializer LLVMGetElementType LLVMGetCalledValue
        LLVMGlobalGetValueType LLVMGetReturnType LLVMStructGetTypeAtIndex LLVMGetAllocatedType
        LLVMGetGEPSourceElementType LLVMGetIncomingValue LLVMGetIncomingBlock LLVMGetParam
        LLVMGetNormalDest LLVMGetUnwindDest LLVMGetSwitchDefaultDest LLVMGetSuccessor LLVMContextCreate
        LLVMCreateTargetData LLVMGetModuleDataLayout LLVMGetAggregateElement LLVMGetCondition
        LLVMValueAsBasicBlock LLVMGetBasicBlockTerminator LLVMAliasGetAliasee LLVMGetFirstGlobalAlias
        LLVMGetNextGlobalAlias LLVMGetCalledFunctionType LLVMGetEntryBasicBlock'''.split()
        for n in names:
            f = getattr(L, n)
            f.restype = P
        for n in '''LLVMGetInstructionOpcode LLVMGetTypeKind LLVMGetNumOperands LLVMGetValueKind
        LLVMGetIntTypeWidth LLVMCountStructElementTypes LLVMGetICmpPredicate LLVMGetFCmpPredicate
        LLVMCountIncoming LLVMCountParams LLVMGetConstOpcode LLVMIsDeclaration LLVMGetNumSuccessors
        LLVMIsConditional LLVMGetNumIndices LLVMIsConstantString LLVMGetNumArgOperands
        LLVMGetArrayLength LLVMGetVectorSize LLVMIsConstant LLVMIsPackedStruct LLVMGetAtomicRMWBinOp
        LLVMIsThreadLocal LLVMIsGlobalConstant LLVMGetOrdering LLVMGetCmpXchgSuccessOrdering'''.split():
            try:
                getattr(L, n).restype = C.c_uint
            except AttributeError:
                pass
        L.LLVMGetArrayLength2.restype = C.c_uint64
        L.LLVMABISizeOfType.restype = C.c_uint64
        L.LLVMABIAlignmentOfType.restype = C.c_uint
        L.LLVMOffsetOfElement.restype = C.c_uint64
        L.LLVMConstIntGetZExtValue.restype = C.c_uint64
        L.LLVMConstRealGetDouble.restype = C.c_double
        L.LLVMGetValueName2.restype = P
        L.LLVMGetIndices.restype = C.POINTER(C.c_uint)
        L.LLVMPrintValueToString.restype = P
        L.LLVMPrintTypeToString.restype = P
        L.LLVMGetDataLayoutStr.restype = C.c_char_p
        L.LLVMGetRawDataValues = getattr(L, 'LLVMGetRawDataValues', None)
        L.LLVMGetAsString.restype = P
        _so = L
    return _so


# opcodes
(RET, BR, SWITCH, INVOKE, UNREACHABLE) = (1, 2, 3, 5, 7)
BIN = {8: 'add', 10: 'sub', 12: 'mul', 14: 'udiv', 15: 'sdiv', 17: 'urem', 18: 'srem', 20: 'shl', 21: 'lshr',
       22: 'ashr', 23: 'and', 24: 'or', 25: 'xor'}
FBIN = {9: 'fadd', 11: 'fsub', 13: 'fmul', 16: 'fdiv', 19: 'frem'}
ICMP = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}
FCMP = {0: 'false', 1: 'oeq', 2: 'ogt', 3: 'oge', 4: 'olt', 5: 'ole', 6: 'one', 7: 'ord', 8: 'uno', 9: 'ueq', 10: 'ugt',
        11: 'uge', 12: 'ult', 13: 'ule', 14: 'une', 15: 'true'}

OBJSHIFT = 36
BASE = 1 << 20


class Module:
    threads = False

    def __init__(self, path):
        L = self.L = lib()
        ctx = L.LLVMContextCreate()
        self.ctx = ctx
        buf = P()
        msg = C.c_char_p()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(msg)):
            raise RuntimeError(msg.value)
        mod = P()
        if L.LLVMParseBitcodeInContext2(P(ctx), buf, C.byref(mod)):
            raise RuntimeError('cannot parse bitcode ' + path)
        self.m = mod
        self.td = P(L.LLVMGetModuleDataLayout(mod))
        self.kcache = {}
        self.szc = {}
        self.addr = {}       # name -> address
        self.gvals = {}      # value ptr -> address
        self.globals = {}    # objid -> (name, valueptr, size, isconst)
        self.funcs = {}      # name -> function value ptr (defined)
        self.decls = {}
        self.funcid = {}     # objid -> name
        self.consts = []     # python constants referenced from code
        oid = 1
        for kind, first, nxt in (('g', L.LLVMGetFirstGlobal, L.LLVMGetNextGlobal), ('f', L.LLVMGetFirstFunction, L.LLVMGetNextFunction)):
            v = first(mod)
            while v:
                name = self.name(v)
                a = (oid << OBJSHIFT) + BASE
                self.addr[name] = a
                self.gvals[v] = a
                if kind == 'g':
                    t = L.LLVMGlobalGetValueType(P(v))
                    self.globals[oid] = (name, v, self.size(t) if self.kind(t) != 13 else self.size(t))
                else:
                    self.funcid[oid] = name
                    if L.LLVMIsDeclaration(P(v)):
                        self.decls[name] = v
                    else:
                        self.funcs[name] = v
                oid += 1
                v = nxt(P(v))
        v = L.LLVMGetFirstGlobalAlias(mod)
        self.alias = {}
        al = []
        while v:
            al.append(v)
            v = L.LLVMGetNextGlobalAlias(P(v))
        for v in al:
            t = L.LLVMAliasGetAliasee(P(v))
            self.gvals[v] = self.gvals.get(t) or self.constint(t)
            self.addr[self.name(v)] = self.gvals[v]
            self.alias[self.name(v)] = self.gvals[v]
        self.nextobj = oid

    # ------------------------------------------------------------- helpers
    def name(self, v):
        n = C.c_size_t()
        p = self.L.LLVMGetValueName2(P(v), C.byref(n))
        return C.string_at(p, n.value).decode()

    def pstr(self, v):
        p = self.L.LLVMPrintValueToString(P(v))
        return C.string_at(p).decode()

    def kind(self, t):
        r = self.kcache.get(t)
        if r is None:
            r = self.L.LLVMGetTypeKind(P(t))
            self.kcache[t] = r
        return r

    def size(self, t):
        r = self.szc.get(t)
        if r is None:
            r = self.L.LLVMABISizeOfType(self.td, P(t))
            self.szc[t] = r
        return r

    def width(self, t):
        return self.L.LLVMGetIntTypeWidth(P(t))

    def typeof(self, v):
        return self.L.LLVMTypeOf(P(v))

    # ----------------------------------------------------------- constants
    def constint(self, v):
        """integer value of a constant of int/pointer type"""
        L = self.L
        k = L.LLVMGetValueKind(P(v))
        if v in self.gvals:
            return self.gvals[v]
        if k == 18:
            w = self.width(self.typeof(v))
            if w > 64:
                s = self.pstr(v).split()[-1]
                return int(s) & ((1 << w) - 1)
            return L.LLVMConstIntGetZExtValue(P(v))
        if k == 20:
            return 0
        if k in (14, 25):
            return 0
        if k == 10:
            op = L.LLVMGetConstOpcode(P(v))
            if op == 29:
                return self.const_gep(v)
            if op in (39, 40, 41, 60):
                return self.constint(L.LLVMGetOperand(P(v), 0))
            if op in (8, 10, 30, 31):
                a = self.constint(L.LLVMGetOperand(P(v), 0))
                if op in (30, 31):
                    return a & ((1 << self.width(self.typeof(v))) - 1)
                b = self.constint(L.LLVMGetOperand(P(v), 1))
                return (a + b if op == 8 else a - b) & ((1 << 64) - 1)
        raise NotImplementedError('constant ' + self.pstr(v))

    def const_gep(self, v):
        L = self.L
        n = L.LLVMGetNumOperands(P(v))
        base = self.constint(L.LLVMGetOperand(P(v), 0))
        t = L.LLVMGetGEPSourceElementType(P(v))
        off = 0
        for i in range(1, n):
            idx = self.constint(L.LLVMGetOperand(P(v), i))
            if idx >= 1 << 63:
                idx -= 1 << 64
            elif self.width(self.typeof(L.LLVMGetOperand(P(v), i))) == 32 and idx >= 1 << 31:
                idx -= 1 << 32
            if i == 1:
                off += idx * self.size(t)
            else:
                k = self.kind(t)
                if k == 10:
                    off += L.LLVMOffsetOfElement(self.td, P(t), C.c_uint(idx))
                    t = L.LLVMStructGetTypeAtIndex(P(t), C.c_uint(idx))
                else:
                    t = L.LLVMGetElementType(P(t))
                    off += idx * self.size(t)
        return (base + off) & ((1 << 64) - 1)

    def init_cells(self, v, off, cells, raw):
        """flatten an initializer: cells[off]=(size,value); raw list of (off,bytes)"""
        L = self.L
        t = self.typeof(v)
        k = L.LLVMGetValueKind(P(v))
        tk = self.kind(t)
        if k == 15 or k == 20:       # zeroinit / null
            raw.append((off, bytes(self.size(t))))
            return
        if k in (14, 25):
            return
        if tk == 8:
            cells[off] = ((self.width(t) + 7) // 8, self.constint(v))
        elif tk == 12:
            cells[off] = (8, self.constint(v))
        elif tk == 3:
            lose = C.c_int()
            cells[off] = (8, rat(L.LLVMConstRealGetDouble(P(v), C.byref(lose))))
        elif tk == 10:
            for i in range(L.LLVMCountStructElementTypes(P(t))):
                o = L.LLVMOffsetOfElement(self.td, P(t), C.c_uint(i))
                e = L.LLVMGetAggregateElement(P(v), C.c_uint(i))
                self.init_cells(e, off + o, cells, raw)
        elif tk == 11:
            et = L.LLVMGetElementType(P(t))
            n = L.LLVMGetArrayLength2(P(t))
            es = self.size(et)
            if k == 16 and self.kind(et) == 8 and self.width(et) == 8:
                ln = C.c_size_t()
                p = L.LLVMGetAsString(P(v), C.byref(ln))
                raw.append((off, C.string_at(p, ln.value)))
                return
            for i in range(n):
                e = L.LLVMGetAggregateElement(P(v), C.c_uint(i))
                self.init_cells(e, off + i * es, cells, raw)
        else:
            raise NotImplementedError('init ' + self.pstr(v)[:100])

    # -------------------------------------------------------------- codegen
    def operand(self, v, fn):
        """python expression for a value"""
        r = fn.names.get(v)
        if r is not None:
            return r
        L = self.L
        k = L.LLVMGetValueKind(P(v))
        t = self.typeof(v)
        tk = self.kind(t)
        if v in self.gvals:
            return str(self.gvals[v])
        if k in (14, 25):
            if tk in (10, 11):
                n = L.LLVMCountStructElementTypes(P(t)) if tk == 10 else L.LLVMGetArrayLength2(P(t))
                return '(UNDEF,)*%d' % n
            return 'UNDEF'
        if tk == 8 or tk == 12:
            return str(self.constint(v))
        if tk == 3 or tk == 2:
            lose = C.c_int()
            x = L.LLVMConstRealGetDouble(P(v), C.byref(lose))
            return self.konst(rat(x))
        if k == 15:
            if tk == 10:
                n = L.LLVMCountStructElementTypes(P(t))
                return '(0,)*%d' % n
        if tk == 10 and k == 12:
            n = L.LLVMCountStructElementTypes(P(t))
            return '(' + ','.join(self.operand(L.LLVMGetAggregateElement(P(v), C.c_uint(i)), fn) for i in range(n)) + ',)'
        if tk in (9, 14):
            return 'None'
        raise NotImplementedError('operand ' + self.pstr(v)[:200])

    def konst(self, x):
        for i, (c, y) in enumerate(self.consts):
            if y.__class__ is x.__class__ and (y == x):
                return 'c%d' % i
        self.consts.append((None, x))
        return 'c%d' % (len(self.consts) - 1)

    def gen(self, name):
        return Fn(self, name, self.funcs[name]).source()


def pyname(n):
    return 'F_' + re.sub(r'[^A-Za-z0-9_]', lambda m: '_%x_' % ord(m.group()), n)


class Fn:
    def __init__(self, M, name, v):
        self.M = M
        self.v = v
        self.name = name
        self.names = {}
        self.lines = []
        self.calls = set()

    def source(self):
        M, L = self.M, self.M.L
        n = L.LLVMCountParams(P(self.v))
        params = []
        for i in range(n):
            p = L.LLVMGetParam(P(self.v), C.c_uint(i))
            self.names[p] = 'p%d' % i
            params.append('p%d' % i)
        blocks = []
        b = L.LLVMGetFirstBasicBlock(P(self.v))
        cnt = 0
        self.ins = {}
        self.preds = {}
        self.hasalloca = False
        while b:
            blocks.append(b)
            lst = []
            i = L.LLVMGetFirstInstruction(P(b))
            while i:
                op = L.LLVMGetInstructionOpcode(P(i))
                lst.append((i, op))
                self.names[i] = 'v%d' % cnt
                if op == 26:
                    self.hasalloca = True
                cnt += 1
                i = L.LLVMGetNextInstruction(P(i))
            self.ins[b] = lst
            b = L.LLVMGetNextBasicBlock(P(b))
        self.bid = {b: i for i, b in enumerate(blocks)}
        self.bbval = {}
        for b in blocks:
            t, op = self.ins[b][-1]
            for s in set(self.succ(t, op)):
                self.preds.setdefault(s, []).append(b)
        self.inline = set()
        for b in blocks[1:]:
            if len(self.preds.get(b, ())) == 1 and not any(o == 44 for _, o in self.ins[b][:1]):
                self.inline.add(b)
        # a block inlined into itself (loop) impossible: single pred that is itself
        for b in list(self.inline):
            if self.preds[b][0] == b:
                self.inline.discard(b)
        self.body = {}
        roots = [b for b in blocks if b not in self.inline]
        # cut deep inline chains
        self.depthcut = set()
        out = ['def %s(%s):' % (pyname(self.name), ','.join(params))]
        if self.hasalloca:
            out.append(' sp=frame_enter()')
        self.rootset = roots
        bodies = {}
        self.extra_roots = []
        todo = list(roots)
        done = []
        while todo:
            r = todo.pop(0)
            done.append(r)
            self.cur = []
            self.emit_block(r, 0)
            bodies[r] = self.cur
            while self.extra_roots:
                todo.append(self.extra_roots.pop())
        if len(done) == 1:
            # no loop needed unless it jumps back to itself
            txt = bodies[done[0]]
            if any('bb=' in l for l in txt):
                out.append(' while True:')
                out += ['  ' + l for l in txt]
            else:
                out += [' ' + l for l in txt]
        else:
            out.append(' bb=%d' % self.bid[blocks[0]])
            out.append(' while True:')
            self.dispatch(out, sorted(done, key=lambda b: self.bid[b]), bodies, 2)
        return '\n'.join(out), self.calls

    def dispatch(self, out, lst, bodies, ind):
        if len(lst) == 1:
            out += [' ' * ind + l for l in bodies[lst[0]]]
            return
        if len(lst) == 2:
            out.append(' ' * ind + 'if bb==%d:' % self.bid[lst[0]])
            out += [' ' * (ind + 1) + l for l in bodies[lst[0]]]
            out.append(' ' * ind + 'else:')
            out += [' ' * (ind + 1) + l for l in bodies[lst[1]]]
            return
        mid = len(lst) // 2
        out.append(' ' * ind + 'if bb<%d:' % self.bid[lst[mid]])
        self.dispatch(out, lst[:mid], bodies, ind + 1)
        out.append(' ' * ind + 'else:')
        self.dispatch(out, lst[mid:], bodies, ind + 1)

    def succ(self, t, op):
        L = self.M.L
        if op == INVOKE:
            return [L.LLVMGetNormalDest(P(t))]
        if op in (BR, SWITCH):
            return [L.LLVMGetSuccessor(P(t), C.c_uint(i)) for i in range(L.LLVMGetNumSuccessors(P(t)))]
        return []

    def o(self, v):
        return self.M.operand(v, self)

    def opnd(self, i, k):
        return self.o(self.M.L.LLVMGetOperand(P(i), C.c_uint(k)))

    def line(self, s, ind):
        self.cur.append(' ' * ind + s)

    def goto(self, src, dst, ind):
        """edge src->dst: phi moves then jump or inline"""
        M, L = self.M, self.M.L
        lhs, rhs = [], []
        for (i, op) in self.ins[dst]:
            if op != 44:
                break
            for k in range(L.LLVMCountIncoming(P(i))):
                if L.LLVMGetIncomingBlock(P(i), C.c_uint(k)) == src:
                    lhs.append(self.names[i])
                    rhs.append(self.o(L.LLVMGetIncomingValue(P(i), C.c_uint(k))))
                    break
        if lhs:
            self.line('%s=%s' % (','.join(lhs), ','.join(rhs)), ind)
        if dst in self.inline and ind < 40:
            self.emit_block(dst, ind)
        else:
            if dst in self.inline:
                self.inline.discard(dst)
                self.extra_roots.append(dst)
            self.line('bb=%d' % self.bid[dst], ind)
            self.line('continue', ind)

    def emit_block(self, b, ind):
        for (i, op) in self.ins[b]:
            if op == 44:
                continue
            self.emit(i, op, b, ind)

    def callargs(self, i):
        L = self.M.L
        n = L.LLVMGetNumArgOperands(P(i))
        return [self.opnd(i, k) for k in range(n)]

    def emit(self, i, op, b, ind):
        M, L = self.M, self.M.L
        nm = self.names[i]
        put = self.line
        t = M.typeof(i)
        tk = M.kind(t)
        if op == RET:
            r = self.opnd(i, 0) if L.LLVMGetNumOperands(P(i)) else 'None'
            if self.hasalloca:
                put('frame_exit(sp)', ind)
            put('return ' + r, ind)
        elif op == BR:
            if L.LLVMIsConditional(P(i)):
                c = self.o(L.LLVMGetCondition(P(i)))
                s0 = L.LLVMGetSuccessor(P(i), C.c_uint(0))
                s1 = L.LLVMGetSuccessor(P(i), C.c_uint(1))
                put('if %s:' % c, ind)
                self.goto(b, s0, ind + 1)
                put('else:', ind)
                self.goto(b, s1, ind + 1)
            else:
                self.goto(b, L.LLVMGetSuccessor(P(i), C.c_uint(0)), ind)
        elif op == SWITCH:
            c = self.opnd(i, 0)
            n = L.LLVMGetNumOperands(P(i))
            kw = 'if'
            groups = {}
            order = []
            for k in range(2, n, 2):
                val = M.constint(L.LLVMGetOperand(P(i), C.c_uint(k)))
                dst = L.LLVMValueAsBasicBlock(P(L.LLVMGetOperand(P(i), C.c_uint(k + 1))))
                put('%s %s==%d:' % (kw, c, val), ind)
                self.nodup_goto(b, dst, ind + 1)
                kw = 'elif'
            put('else:' if n > 2 else 'if 1:', ind)
            self.nodup_goto(b, L.LLVMGetSwitchDefaultDest(P(i)), ind + 1)
        elif op == UNREACHABLE:
            put('unreachable()', ind)
        elif op in BIN:
            w = M.width(t) if tk == 8 else 64
            a, c = self.opnd(i, 0), self.opnd(i, 1)
            m = (1 << w) - 1
            o = BIN[op]
            if o == 'add':
                put('%s=(%s+%s)&%d' % (nm, a, c, m), ind)
            elif o == 'sub':
                put('%s=(%s-%s)&%d' % (nm, a, c, m), ind)
            elif o == 'mul':
                put('%s=(%s*%s)&%d' % (nm, a, c, m), ind)
            elif o == 'and':
                put('%s=%s&%s' % (nm, a, c), ind)
            elif o == 'or':
                put(('%s=or1(%s,%s)' if w == 1 else '%s=%s|%s') % (nm, a, c), ind)
            elif o == 'xor':
                put('%s=%s^%s' % (nm, a, c), ind)
            else:
                put('%s=i_%s(%s,%s,%d)' % (nm, o, a, c, w), ind)
        elif op in FBIN:
            put('%s=%s(%s,%s)' % (nm, FBIN[op], self.opnd(i, 0), self.opnd(i, 1)), ind)
        elif op == 66:
            put('%s=fneg(%s)' % (nm, self.opnd(i, 0)), ind)
        elif op == 26:
            at = L.LLVMGetAllocatedType(P(i))
            n = self.opnd(i, 0)
            put('%s=alloca(%s*%d)' % (nm, n, M.size(at)), ind)
        elif op == 27:
            r = self.ld(self.opnd(i, 0), t)
            od = L.LLVMGetOrdering(P(i)) if M.threads else 0
            if od:
                put('vsync(%s,%d,1,%d)' % (self.opnd(i, 0), M.size(t), od), ind)
                r = 'a' + r
            put('%s=%s' % (nm, r), ind)
        elif op == 28:
            v = L.LLVMGetOperand(P(i), C.c_uint(0))
            r = self.st(self.opnd(i, 1), self.o(v), M.typeof(v))
            od = L.LLVMGetOrdering(P(i)) if M.threads else 0
            if od:
                put('vsync(%s,%d,2,%d)' % (self.opnd(i, 1), M.size(M.typeof(v)), od), ind)
                r = 'a' + r
            put(r, ind)
        elif op == 29:
            put('%s=%s' % (nm, self.gep(i)), ind)
        elif op == 30:
            put('%s=%s&%d' % (nm, self.opnd(i, 0), (1 << M.width(t)) - 1), ind)
            if True:
                put('%s=trunc(%s,%d)' % (nm, nm, M.width(t)), ind) if False else None
        elif op == 31:
            sw = M.width(M.typeof(L.LLVMGetOperand(P(i), C.c_uint(0))))
            put('%s=zext(%s,%d,%d)' % (nm, self.opnd(i, 0), sw, M.width(t)), ind)
        elif op == 32:
            sw = M.width(M.typeof(L.LLVMGetOperand(P(i), C.c_uint(0))))
            put('%s=sext(%s,%d,%d)' % (nm, self.opnd(i, 0), sw, M.width(t)), ind)
        elif op in (33, 34):
            put('%s=fptoint(%s,%d,%d)' % (nm, self.opnd(i, 0), M.width(t), 1 if op == 34 else 0), ind)
        elif op in (35, 36):
            sw = M.width(M.typeof(L.LLVMGetOperand(P(i), C.c_uint(0))))
            put('%s=inttofp(%s,%d,%d)' % (nm, self.opnd(i, 0), sw, 1 if op == 36 else 0), ind)
        elif op in (37, 38):
            put('%s=%s' % (nm, self.opnd(i, 0)), ind)
        elif op in (39, 40, 60):
            put('%s=%s' % (nm, self.opnd(i, 0)), ind)
        elif op == 41:
            st = M.typeof(L.LLVMGetOperand(P(i), C.c_uint(0)))
            sk = M.kind(st)
            if sk == 3 and tk == 8:
                put('%s=f2bits(%s)' % (nm, self.opnd(i, 0)), ind)
            elif sk == 8 and tk == 3:
                put('%s=bits2f(%s)' % (nm, self.opnd(i, 0)), ind)
            else:
                put('%s=%s' % (nm, self.opnd(i, 0)), ind)
        elif op == 42:
            pr = ICMP[L.LLVMGetICmpPredicate(P(i))]
            a, c = self.opnd(i, 0), self.opnd(i, 1)
            ot = M.typeof(L.LLVMGetOperand(P(i), C.c_uint(0)))
            w = M.width(ot) if M.kind(ot) == 8 else 64
            if pr in ('eq', 'ne'):
                put('%s=%s%s%s' % (nm, a, '==' if pr == 'eq' else '!=', c), ind)
            elif pr[0] == 'u':
                s = {'ugt': '>', 'uge': '>=', 'ult': '<', 'ule': '<='}[pr]
                put('%s=%s%s%s' % (nm, a, s, c), ind)
            else:
                s = {'sgt': '>', 'sge': '>=', 'slt': '<', 'sle': '<='}[pr]
                put('%s=%s%s%s' % (nm, self.sg(a, w), s, self.sg(c, w)), ind)
        elif op == 43:
            pr = FCMP[L.LLVMGetFCmpPredicate(P(i))]
            put('%s=fcmp_%s(%s,%s)' % (nm, pr, self.opnd(i, 0), self.opnd(i, 1)), ind)
        elif op == 46:
            put('%s=%s if %s else %s' % (nm, self.opnd(i, 1), self.opnd(i, 0), self.opnd(i, 2)), ind)
        elif op in (45, INVOKE):
            self.call(i, op, ind)
            if op == INVOKE:
                self.goto(b, L.LLVMGetNormalDest(P(i)), ind)
        elif op == 53:
            n = L.LLVMGetNumIndices(P(i))
            ix = L.LLVMGetIndices(P(i))
            put('%s=%s%s' % (nm, self.opnd(i, 0), ''.join('[%d]' % ix[k] for k in range(n))), ind)
        elif op == 54:
            n = L.LLVMGetNumIndices(P(i))
            ix = L.LLVMGetIndices(P(i))
            put('%s=insval(%s,%s,(%s,))' % (nm, self.opnd(i, 0), self.opnd(i, 1), ','.join(str(ix[k]) for k in range(n))), ind)
        elif op == 68:
            put('%s=%s' % (nm, self.opnd(i, 0)), ind)
        elif op == 55:
            pass
        elif op == 57:
            bo = L.LLVMGetAtomicRMWBinOp(P(i))
            v = L.LLVMGetOperand(P(i), C.c_uint(1))
            w = M.width(M.typeof(v)) if M.kind(M.typeof(v)) == 8 else 64
            if M.threads and bo < 11:
                put('vsync(%s,%d,3,%d)' % (self.opnd(i, 0), w // 8, L.LLVMGetOrdering(P(i))), ind)
            put('%s=atomicrmw(%d,%s,%s,%d)' % (nm, bo, self.opnd(i, 0), self.o(v), w), ind)
        elif op == 56:
            v = L.LLVMGetOperand(P(i), C.c_uint(1))
            w = M.width(M.typeof(v)) if M.kind(M.typeof(v)) == 8 else 64
            if M.threads:
                put('vsync(%s,%d,3,%d)' % (self.opnd(i, 0), w // 8, L.LLVMGetCmpXchgSuccessOrdering(P(i))), ind)
            put('%s=cmpxchg(%s,%s,%s,%d)' % (nm, self.opnd(i, 0), self.opnd(i, 1), self.opnd(i, 2), w), ind)
        else:
            put('unsupported(%r)' % M.pstr(i).strip()[:120], ind)

    def nodup_goto(self, b, dst, ind):
        # several switch cases may share one target: only inline single-use ones
        self.goto_switch(b, dst, ind)

    def goto_switch(self, src, dst, ind):
        t, op = self.ins[src][-1]
        if self.succ(t, op).count(dst) > 1 and dst in self.inline:
            self.inline.discard(dst)
            self.extra_roots.append(dst)
        self.goto(src, dst, ind)

    def sg(self, a, w):
        if re.fullmatch(r'\d+', a):
            v = int(a)
            return str(v - (1 << w) if v >> (w - 1) else v)
        return 'sg%d(%s)' % (w, a) if w in (8, 16, 32, 64) else 'sgn_(%s,%d)' % (a, w)

    def ld(self, a, t):
        M = self.M
        tk = M.kind(t)
        if tk == 3:
            return 'ldf(%s)' % a
        if tk == 12:
            return 'ldi(%s,8)' % a
        if tk == 8:
            return 'ldi(%s,%d)' % (a, (M.width(t) + 7) // 8)
        if tk in (10, 11):
            L = M.L
            n = L.LLVMCountStructElementTypes(P(t)) if tk == 10 else L.LLVMGetArrayLength2(P(t))
            es = []
            for k in range(n):
                if tk == 10:
                    off = L.LLVMOffsetOfElement(M.td, P(t), C.c_uint(k))
                    et = L.LLVMStructGetTypeAtIndex(P(t), C.c_uint(k))
                else:
                    et = L.LLVMGetElementType(P(t))
                    off = k * M.size(et)
                es.append(self.ld('%s+%d' % (a, off), et))
            return '(' + ','.join(es) + ',)'
        return 'unsupported("load")'

    def st(self, a, v, t):
        M = self.M
        tk = M.kind(t)
        if tk == 3:
            return 'stf(%s,%s)' % (a, v)
        if tk == 12:
            return 'sti(%s,8,%s)' % (a, v)
        if tk == 8:
            return 'sti(%s,%d,%s)' % (a, (M.width(t) + 7) // 8, v)
        if tk in (10, 11):
            L = M.L
            n = L.LLVMCountStructElementTypes(P(t)) if tk == 10 else L.LLVMGetArrayLength2(P(t))
            es = []
            for k in range(n):
                if tk == 10:
                    off = L.LLVMOffsetOfElement(M.td, P(t), C.c_uint(k))
                    et = L.LLVMStructGetTypeAtIndex(P(t), C.c_uint(k))
                else:
                    et = L.LLVMGetElementType(P(t))
                    off = k * M.size(et)
                es.append(self.st('%s+%d' % (a, off), '%s[%d]' % (v, k), et))
            return ';'.join(es)
        return 'unsupported("store")'

    def gep(self, i):
        M, L = self.M, self.M.L
        n = L.LLVMGetNumOperands(P(i))
        base = self.opnd(i, 0)
        t = L.LLVMGetGEPSourceElementType(P(i))
        off = 0
        dyn = []
        for k in range(1, n):
            ov = L.LLVMGetOperand(P(i), C.c_uint(k))
            isc = L.LLVMGetValueKind(P(ov)) == 18
            w = M.width(M.typeof(ov))
            if k == 1:
                es = M.size(t)
            else:
                if M.kind(t) == 10:
                    ix = M.constint(ov)
                    off += L.LLVMOffsetOfElement(M.td, P(t), C.c_uint(ix))
                    t = L.LLVMStructGetTypeAtIndex(P(t), C.c_uint(ix))
                    continue
                t = L.LLVMGetElementType(P(t))
                es = M.size(t)
            if isc:
                x = M.constint(ov)
                if x >> (w - 1):
                    x -= 1 << w
                off += x * es
            else:
                dyn.append('%s*%d' % (self.sg(self.o(ov), w), es))
        if not dyn:
            if off == 0:
                return base
            return '(%s+%d)&18446744073709551615' % (base, off) if off < 0 else '%s+%d' % (base, off)
        return '(%s+%s+%d)&18446744073709551615' % (base, '+'.join(dyn), off)

    def call(self, i, op, ind):
        M, L = self.M, self.M.L
        nm = self.names[i]
        cv = L.LLVMGetCalledValue(P(i))
        args = self.callargs(i)
        if L.LLVMGetValueKind(P(cv)) == 23:
            self.line('%s=inline_asm(%s)' % (nm, ','.join(args)), ind)
            return
        name = None
        if cv in M.gvals:
            a = M.gvals[cv]
            name = M.funcid.get(a >> OBJSHIFT)
        if name is not None:
            if name.startswith('llvm.'):
                if name.startswith(('llvm.lifetime', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.dbg', 'llvm.invariant',
                                    'llvm.prefetch', 'llvm.donothing', 'llvm.va_')):
                    return
                base = name.split('.')
                fn = 'X_' + '_'.join(base[1:])
                # strip type suffixes
                fn = re.sub(r'(_(p0|i\d+|f64|f32|v\d+\w+|sl_s|s))+$', lambda m: '', fn)
                w = M.width(M.typeof(i)) if M.kind(M.typeof(i)) == 8 else 0
                if fn in ('X_umin', 'X_umax', 'X_smin', 'X_smax', 'X_abs', 'X_ctlz', 'X_cttz', 'X_ctpop', 'X_bswap', 'X_usub_sat', 'X_uadd_sat', 'X_fshl', 'X_fshr'):
                    args.append(str(w))
                elif 'with_overflow' in fn:
                    ot = M.typeof(L.LLVMGetOperand(P(i), C.c_uint(0)))
                    args.append(str(M.width(ot)))
                self.line('%s=%s(%s)' % (nm, fn, ','.join(args)), ind)
                return
            self.calls.add(name)
            self.line('%s=%s(%s)' % (nm, pyname(name), ','.join(args)), ind)
            return
        self.line('%s=icall(%s,%s)' % (nm, self.o(cv), '(' + ''.join(x + ',' for x in args) + ')'), ind)
