"""Load LLVM 18 IR (through the libLLVM C API) into plain Python objects.

Three instantiations of the same harness (different container capacities) are loaded and
walked in lockstep: every constant / array length that differs must be affine in the capacity
symbols, and becomes an `Aff` value (a*N + b*B + c).
"""
import ctypes, os, subprocess
from ctypes import c_void_p, c_char_p, c_uint, c_int, c_ulonglong, c_longlong, c_size_t, byref, POINTER

_L = None


def L():
    global _L
    if _L is None:
        for cand in ("/usr/lib/llvm-18/lib/libLLVM.so.1", "/usr/lib/llvm-18/lib/libLLVM-18.so.1",
                     "/usr/lib/llvm-18/lib/libLLVM.so"):
            if os.path.exists(cand):
                _L = ctypes.CDLL(cand)
                break
        vp = ["LLVMContextCreate", "LLVMGetFirstFunction", "LLVMGetNextFunction", "LLVMGetFirstBasicBlock",
              "LLVMGetNextBasicBlock", "LLVMGetFirstInstruction", "LLVMGetNextInstruction", "LLVMGetOperand",
              "LLVMTypeOf", "LLVMGetIncomingValue", "LLVMGetIncomingBlock", "LLVMGetGEPSourceElementType",
              "LLVMGetCalledValue", "LLVMGetCalledFunctionType", "LLVMGetAllocatedType", "LLVMGetElementType",
              "LLVMStructGetTypeAtIndex", "LLVMGetParam", "LLVMBasicBlockAsValue", "LLVMValueAsBasicBlock",
              "LLVMGetReturnType", "LLVMGlobalGetValueType", "LLVMGetInitializer", "LLVMGetFirstGlobal",
              "LLVMGetNextGlobal", "LLVMGetAggregateElement", "LLVMPrintValueToString", "LLVMPrintTypeToString",
              "LLVMGetModuleDataLayout"]
        for n in vp:
            getattr(_L, n).restype = c_void_p
        for n in ["LLVMGetValueName2", "LLVMGetStructName", "LLVMGetDebugLocFilename"]:
            getattr(_L, n).restype = c_char_p
        _L.LLVMConstIntGetZExtValue.restype = c_ulonglong
        _L.LLVMConstIntGetSExtValue.restype = c_longlong
        _L.LLVMGetArrayLength2.restype = c_ulonglong
        _L.LLVMGetIndices.restype = POINTER(c_uint)
        _L.LLVMABISizeOfType.restype = c_ulonglong
    return _L


OPC = {1: 'ret', 2: 'br', 3: 'switch', 7: 'unreachable', 8: 'add', 10: 'sub', 12: 'mul', 14: 'udiv', 15: 'sdiv',
       17: 'urem', 18: 'srem', 20: 'shl', 21: 'lshr', 22: 'ashr', 23: 'and', 24: 'or', 25: 'xor', 26: 'alloca',
       27: 'load', 28: 'store', 29: 'gep', 30: 'trunc', 31: 'zext', 32: 'sext', 39: 'ptrtoint', 40: 'inttoptr',
       41: 'bitcast', 42: 'icmp', 43: 'fcmp', 44: 'phi', 45: 'call', 46: 'select', 53: 'extractvalue',
       54: 'insertvalue', 68: 'freeze', 66: 'fneg', 57: 'atomicrmw', 5: 'invoke'}
PRED = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}


class Unsupported(Exception):
    pass


class Aff:
    """affine constant: coefficients over symbolic capacities; c is the constant part"""
    __slots__ = ("co", "c")

    def __init__(self, co, c):
        self.co, self.c = tuple(co), c

    def __repr__(self):
        return "Aff(%s,%s)" % (self.co, self.c)

    def __eq__(self, o):
        return isinstance(o, Aff) and self.co == o.co and self.c == o.c

    def __hash__(self):
        return hash((self.co, self.c))


class Ty:
    __slots__ = ("k", "bits", "name", "fields", "elem", "count", "packed", "size")

    def __init__(self, k, bits=None, name=None, fields=None, elem=None, count=None, packed=False, size=None):
        self.k, self.bits, self.name, self.fields = k, bits, name, fields
        self.elem, self.count, self.packed, self.size = elem, count, packed, size

    def __repr__(self):
        if self.k == 'int':
            return "i%d" % self.bits
        if self.k == 'array':
            return "[%s x %r]" % (self.count, self.elem)
        if self.k == 'struct':
            return "%%%s" % self.name if self.name else "{%s}" % ",".join(map(repr, self.fields))
        return self.k


class Val:
    """operand kinds: 'c' const int, 'v' local (arg/instr), 'g' global, 'null','undef','bb','cexpr','agg','fn','fp','str'"""
    __slots__ = ("k", "v", "ty", "ops", "x")

    def __init__(self, k, v, ty, ops=None, x=None):
        self.k, self.v, self.ty, self.ops, self.x = k, v, ty, ops, x

    def __repr__(self):
        return "%s:%s" % (self.k, self.v)


class Ins:
    __slots__ = ("op", "id", "ty", "ops", "x", "loc", "flags")

    def __repr__(self):
        return "%%%s = %s %s %s" % (self.id, self.op, self.ops, self.x)


class Block:
    __slots__ = ("name", "ins", "idx")


class Func:
    def __init__(self):
        self.name = None
        self.dem = None
        self.params = []
        self.ret = None
        self.blocks = []
        self.decl = True


class Mod:
    def __init__(self):
        self.funcs = {}
        self.globals = {}
        self.order = []


class Loader:
    def __init__(self, path):
        l = L()
        self.ctx = c_void_p(l.LLVMContextCreate())
        mb = c_void_p()
        err = c_char_p()
        if l.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), byref(mb), byref(err)):
            raise Unsupported("cannot read %s: %s" % (path, err.value))
        m = c_void_p()
        if l.LLVMParseIRInContext(self.ctx, mb, byref(m), byref(err)):
            raise Unsupported("cannot parse %s: %s" % (path, err.value))
        self.m = m
        self.dl = c_void_p(l.LLVMGetModuleDataLayout(m))
        self.tyc = {}
        self.mod = Mod()
        f = l.LLVMGetFirstFunction(m)
        fs = []
        while f:
            fs.append(f)
            f = l.LLVMGetNextFunction(c_void_p(f))
        g = l.LLVMGetFirstGlobal(m)
        gs = []
        while g:
            gs.append(g)
            g = l.LLVMGetNextGlobal(c_void_p(g))
        for f in fs:
            fn = self.func(c_void_p(f))
            self.mod.funcs[fn.name] = fn
            self.mod.order.append(fn.name)
        for g in gs:
            g = c_void_p(g)
            nm = self.name(g)
            init = l.LLVMGetInitializer(g)
            try:
                iv = self.val(c_void_p(init)) if init else None
            except Unsupported:
                iv = None
            self.mod.globals[nm] = (self.ty(c_void_p(l.LLVMGlobalGetValueType(g))), iv, bool(l.LLVMIsGlobalConstant(g)))

    def name(self, v):
        n = c_size_t()
        r = L().LLVMGetValueName2(v, byref(n))
        return r.decode() if r else ""

    def ty(self, t):
        key = t.value
        if key in self.tyc:
            return self.tyc[key]
        l = L()
        k = l.LLVMGetTypeKind(t)
        if k == 0:
            r = Ty('void')
        elif k == 8:
            r = Ty('int', bits=l.LLVMGetIntTypeWidth(t))
        elif k in (2, 3):
            r = Ty('float', bits=32 if k == 2 else 64)
        elif k == 12:
            r = Ty('ptr')
        elif k == 11:
            r = Ty('array')
            self.tyc[key] = r
            r.elem = self.ty(c_void_p(l.LLVMGetElementType(t)))
            r.count = l.LLVMGetArrayLength2(t)
        elif k == 10:
            nm = l.LLVMGetStructName(t)
            r = Ty('struct', name=nm.decode() if nm else None)
            self.tyc[key] = r
            n = l.LLVMCountStructElementTypes(t)
            if l.LLVMIsOpaqueStruct(t):
                r.fields = []
            else:
                r.fields = [self.ty(c_void_p(l.LLVMStructGetTypeAtIndex(t, i))) for i in range(n)]
            r.packed = bool(l.LLVMIsPackedStruct(t))
        elif k == 7:
            r = Ty('label')
        elif k == 14:
            r = Ty('metadata')
        elif k == 9:
            r = Ty('fn')
        else:
            p = l.LLVMPrintTypeToString(t)
            r = Ty('other', name=ctypes.cast(p, c_char_p).value.decode())
        if r.k in ('int', 'float', 'ptr', 'array', 'struct') and not (r.k == 'struct' and l.LLVMIsOpaqueStruct(t)):
            r.size = l.LLVMABISizeOfType(self.dl, t)
        self.tyc[key] = r
        return r

    def func(self, f):
        l = L()
        fn = Func()
        fn.name = self.name(f)
        fty = c_void_p(l.LLVMGlobalGetValueType(f))
        fn.ret = self.ty(c_void_p(l.LLVMGetReturnType(fty)))
        self.ids = {}
        for i in range(l.LLVMCountParams(f)):
            p = c_void_p(l.LLVMGetParam(f, i))
            self.ids[p.value] = "a%d" % i
            fn.params.append(("a%d" % i, self.ty(c_void_p(l.LLVMTypeOf(p)))))
        b = l.LLVMGetFirstBasicBlock(f)
        fn.decl = not b
        bbs = []
        while b:
            bbs.append(c_void_p(b))
            b = l.LLVMGetNextBasicBlock(c_void_p(b))
        self.bbi = {}
        n = 0
        raw = []
        for i, bb in enumerate(bbs):
            self.bbi[bb.value] = i
            lst = []
            ins = l.LLVMGetFirstInstruction(bb)
            while ins:
                self.ids[ins] = "v%d" % n
                n += 1
                lst.append(c_void_p(ins))
                ins = l.LLVMGetNextInstruction(c_void_p(ins))
            raw.append(lst)
        for i, bb in enumerate(bbs):
            blk = Block()
            blk.idx = i
            blk.ins = [self.ins(x) for x in raw[i]]
            fn.blocks.append(blk)
        return fn

    def val(self, v):
        l = L()
        if v.value in getattr(self, "ids", {}):
            return Val('v', self.ids[v.value], self.ty(c_void_p(l.LLVMTypeOf(v))))
        kind = l.LLVMGetValueKind(v)
        # 0 arg,1 bb,2 memuse,...; see Core.h LLVMValueKind
        if kind == 1:
            return Val('bb', self.bbi[l.LLVMValueAsBasicBlock(v)], None)
        t = self.ty(c_void_p(l.LLVMTypeOf(v)))
        if kind == 5:
            return Val('fn', self.name(v), t)
        if kind == 8:
            return Val('g', self.name(v), t)
        if kind == 6:
            return Val('g', self.name(v), t)
        if l.LLVMIsAConstantInt(v):
            if t.bits <= 64:
                x = l.LLVMConstIntGetZExtValue(v)
            else:
                p = l.LLVMPrintValueToString(v)
                x = int(ctypes.cast(p, c_char_p).value.decode().split()[1]) % (1 << t.bits)
            return Val('c', x, t)
        if l.LLVMIsAConstantPointerNull(v):
            return Val('null', None, t)
        if l.LLVMIsUndef(v) or l.LLVMIsPoison(v):
            return Val('undef', None, t)
        if l.LLVMIsAConstantExpr(v):
            op = OPC.get(l.LLVMGetConstOpcode(v), '?')
            ops = [self.val(c_void_p(l.LLVMGetOperand(v, i))) for i in range(l.LLVMGetNumOperands(v))]
            x = None
            if op == 'gep':
                x = self.ty(c_void_p(l.LLVMGetGEPSourceElementType(v)))
            return Val('cexpr', op, t, ops, x)
        if l.LLVMIsAConstantAggregateZero(v):
            return Val('zero', None, t)
        if l.LLVMIsAConstantStruct(v) or l.LLVMIsAConstantArray(v):
            n = l.LLVMGetNumOperands(v)
            return Val('agg', None, t, [self.val(c_void_p(l.LLVMGetOperand(v, i))) for i in range(n)])
        if l.LLVMIsAConstantDataArray(v):
            n = l.LLVMGetArrayLength2(c_void_p(l.LLVMTypeOf(v)))
            if n > 4096:
                raise Unsupported("large data array")
            return Val('agg', None, t, [self.val(c_void_p(l.LLVMGetAggregateElement(v, i))) for i in range(n)])
        if l.LLVMIsAConstantFP(v):
            p = l.LLVMPrintValueToString(v)
            return Val('fp', ctypes.cast(p, c_char_p).value.decode(), t)
        return Val('other', kind, t)

    def ins(self, i):
        l = L()
        r = Ins()
        oc = l.LLVMGetInstructionOpcode(i)
        r.op = OPC.get(oc, 'op%d' % oc)
        r.id = self.ids[i.value]
        r.ty = self.ty(c_void_p(l.LLVMTypeOf(i)))
        r.x = None
        r.flags = ()
        r.loc = None
        n = c_uint()
        fnm = l.LLVMGetDebugLocFilename(i, byref(n))
        if fnm:
            r.loc = (os.path.basename(fnm[:n.value].decode()), l.LLVMGetDebugLocLine(i))
        nops = l.LLVMGetNumOperands(i)
        if r.op == 'phi':
            r.ops = [(self.val(c_void_p(l.LLVMGetIncomingValue(i, k))),
                      self.bbi[l.LLVMGetIncomingBlock(i, k)]) for k in range(l.LLVMCountIncoming(i))]
            return r
        if r.op == 'call':
            cv = c_void_p(l.LLVMGetCalledValue(i))
            r.x = self.val(cv)
            na = l.LLVMGetNumArgOperands(i)
            ops = []
            for k in range(na):
                ov = c_void_p(l.LLVMGetOperand(i, k))
                if self.ty(c_void_p(l.LLVMTypeOf(ov))).k == 'metadata':
                    ops.append(Val('other', 'md', None))
                else:
                    ops.append(self.val(ov))
            r.ops = ops
            return r
        r.ops = [self.val(c_void_p(l.LLVMGetOperand(i, k))) for k in range(nops)]
        if r.op in ('add', 'sub', 'mul', 'shl'):
            r.flags = (bool(l.LLVMGetNUW(i)), bool(l.LLVMGetNSW(i)))
        if r.op == 'icmp':
            r.x = PRED[l.LLVMGetICmpPredicate(i)]
        elif r.op == 'gep':
            r.x = self.ty(c_void_p(l.LLVMGetGEPSourceElementType(i)))
        elif r.op == 'alloca':
            r.x = self.ty(c_void_p(l.LLVMGetAllocatedType(i)))
        elif r.op in ('extractvalue', 'insertvalue'):
            k = l.LLVMGetNumIndices(i)
            p = l.LLVMGetIndices(i)
            r.x = [p[j] for j in range(k)]
        elif r.op == 'br':
            # conditional: (cond, false, true) in operand order
            if nops == 3:
                r.ops = [r.ops[0], r.ops[2], r.ops[1]]
        elif r.op == 'load':
            r.x = r.ty
        return r


# ---------------------------------------------------------------- lockstep merge
class Merger:
    """caps: list (one per module) of tuples of capacities, e.g. [(N1,B1),(N2,B2),...]; solves affine coefficients"""

    def __init__(self, mods, caps):
        self.mods, self.caps = mods, caps
        self.k = len(caps[0])
        self.tmap = {}
        self.used = set()

    def num(self, vs, bits=None):
        if all(v == vs[0] for v in vs):
            return vs[0]
        sv = list(vs)
        if bits:
            sv = [v - (1 << bits) if v >= (1 << (bits - 1)) else v for v in vs]
        # solve affine with k unknown coefficients + const from k+1 modules, check on the rest
        k = self.k
        import fractions
        F = fractions.Fraction
        rows = [[F(c) for c in cap] + [F(1), F(s)] for cap, s in zip(self.caps, sv)]
        m = [r[:] for r in rows[:k + 1]]
        for c in range(k + 1):
            p = next((r for r in range(c, k + 1) if m[r][c] != 0), None)
            if p is None:
                raise Unsupported("singular capacities")
            m[c], m[p] = m[p], m[c]
            d = m[c][c]
            m[c] = [x / d for x in m[c]]
            for r in range(k + 1):
                if r != c and m[r][c] != 0:
                    f = m[r][c]
                    m[r] = [x - f * y for x, y in zip(m[r], m[c])]
        sol = [m[c][k + 1] for c in range(k + 1)]
        if any(s.denominator != 1 for s in sol):
            raise Unsupported("constant not affine in capacity: %s" % (vs,))
        for r in rows:
            if sum(a * b for a, b in zip(sol, r[:k + 1])) != r[k + 1]:
                raise Unsupported("constant not affine in capacity: %s" % (vs,))
        self.used.add(tuple(int(s) for s in sol))
        return Aff([int(s) for s in sol[:k]], int(sol[k]))

    def ty(self, ts):
        t0 = ts[0]
        if t0 is None:
            return None
        key = tuple(id(t) for t in ts)
        if key in self.tmap:
            return self.tmap[key]
        if any(t.k != t0.k for t in ts):
            raise Unsupported("type kinds differ")
        if t0.k in ('array', 'struct'):
            r = Ty(t0.k, name=t0.name, packed=t0.packed)
            self.tmap[key] = r
            if t0.k == 'array':
                r.count = self.num([t.count for t in ts])
                r.elem = self.ty([t.elem for t in ts])
            else:
                if any(len(t.fields) != len(t0.fields) for t in ts):
                    raise Unsupported("struct shapes differ")
                r.fields = [self.ty([t.fields[i] for t in ts]) for i in range(len(t0.fields))]
            try:
                r.size = self.num([t.size for t in ts]) if t0.size is not None else None
            except Unsupported:
                r.size = None
            return r
        if any(t.bits != t0.bits for t in ts):
            raise Unsupported("int widths differ across capacities")
        self.tmap[key] = t0
        return t0

    def val(self, vs):
        v0 = vs[0]
        if any(v.k != v0.k for v in vs):
            raise Unsupported("operand kinds differ %s" % (vs,))
        t = self.ty([v.ty for v in vs])
        if v0.k == 'c':
            return Val('c', self.num([v.v for v in vs], v0.ty.bits), t)
        if v0.k in ('v', 'bb'):
            if any(v.v != v0.v for v in vs):
                raise Unsupported("operand ids differ")
            return Val(v0.k, v0.v, t)
        if v0.k in ('g', 'fn'):
            nms = tuple(v.v for v in vs)
            r = Val(v0.k, nms[0], t)
            self.sym.setdefault((v0.k, nms[0]), nms)
            if self.sym[(v0.k, nms[0])] != nms:
                raise Unsupported("symbol mapping differs %s" % (nms,))
            return r
        if v0.ops is not None:
            return Val(v0.k, v0.v, t, [self.val([v.ops[i] for v in vs]) for i in range(len(v0.ops))],
                       self.ty([v.x for v in vs]) if v0.x is not None else None)
        return Val(v0.k, v0.v, t)

    def func(self, names):
        fs = [m.funcs[n] for m, n in zip(self.mods, names)]
        f0 = fs[0]
        self.sym = self.symall
        r = Func()
        r.name, r.decl = f0.name, f0.decl
        r.ret = self.ty([f.ret for f in fs])
        if any(len(f.params) != len(f0.params) for f in fs):
            raise Unsupported("param counts differ")
        r.params = [(f0.params[i][0], self.ty([f.params[i][1] for f in fs])) for i in range(len(f0.params))]
        if any(len(f.blocks) != len(f0.blocks) for f in fs):
            raise Unsupported("control flow differs across capacities in %s" % f0.name)
        for bi in range(len(f0.blocks)):
            bs = [f.blocks[bi] for f in fs]
            if any(len(b.ins) != len(bs[0].ins) for b in bs):
                raise Unsupported("block shapes differ across capacities in %s" % f0.name)
            nb = Block()
            nb.idx = bi
            nb.ins = []
            for ii in range(len(bs[0].ins)):
                xs = [b.ins[ii] for b in bs]
                x0 = xs[0]
                if any(x.op != x0.op or x.id != x0.id or len(x.ops) != len(x0.ops) for x in xs):
                    raise Unsupported("instructions differ across capacities in %s" % f0.name)
                ni = Ins()
                ni.op, ni.id, ni.loc, ni.flags = x0.op, x0.id, x0.loc, x0.flags
                ni.ty = self.ty([x.ty for x in xs])
                if x0.op == 'phi':
                    ni.ops = []
                    for k in range(len(x0.ops)):
                        if any(x.ops[k][1] != x0.ops[k][1] for x in xs):
                            raise Unsupported("phi blocks differ")
                        ni.ops.append((self.val([x.ops[k][0] for x in xs]), x0.ops[k][1]))
                else:
                    ni.ops = [self.val([x.ops[k] for x in xs]) for k in range(len(x0.ops))]
                if isinstance(x0.x, Ty):
                    ni.x = self.ty([x.x for x in xs])
                elif isinstance(x0.x, Val):
                    ni.x = self.val([x.x for x in xs])
                else:
                    if any(x.x != x0.x for x in xs):
                        raise Unsupported("instr payload differs")
                    ni.x = x0.x
                nb.ins.append(ni)
            r.blocks.append(nb)
        return r

    symall = None


def demangle(names):
    p = subprocess.run(["llvm-cxxfilt-18"], input="\n".join(names), capture_output=True, text=True)
    return p.stdout.split("\n")[:len(names)]


class Program:
    """merged program: functions loaded lazily by name (of module 0)"""

    def __init__(self, paths, caps, symbols):
        self.mods = [Loader(p).mod for p in paths]
        self.mg = Merger(self.mods, caps)
        self.mg.symall = {}
        self.caps = caps
        self.symbols = symbols  # z3 terms for the capacities
        names = self.mods[0].order
        dm = demangle(names)
        self.dem = dict(zip(names, dm))
        self.cache = {}
        self.rev = [m.order for m in self.mods]

    def names_of(self, name):
        nm = self.mg.symall.get(('fn', name))
        if nm:
            return nm
        if all(name in m.funcs for m in self.mods):
            return tuple(name for _ in self.mods)
        # template instance whose mangled name contains the capacity: match by position
        i = self.mods[0].order.index(name)
        return tuple(o[i] for o in self.rev)

    def func(self, name):
        if name not in self.cache:
            f = self.mg.func(self.names_of(name))
            f.dem = self.dem.get(name, name)
            self.cache[name] = f
        return self.cache[name]

    def glob(self, name):
        nms = self.mg.symall.get(('g', name), tuple(name for _ in self.mods))
        gs = [m.globals[n] for m, n in zip(self.mods, nms)]
        t = self.mg.ty([g[0] for g in gs])
        iv = None
        if all(g[1] is not None for g in gs):
            self.mg.sym = self.mg.symall
            try:
                iv = self.mg.val([g[1] for g in gs])
            except Unsupported:
                iv = None  # contents differ across capacities (e.g. function-name strings): treated as arbitrary
        return t, iv, gs[0][2]
