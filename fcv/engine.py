"""fcv engine: symbolic execution of (capacity-parametric) LLVM IR + obligation generation for z3.

Integers of width w are mathematical integers kept in [0, 2^w) (wrap-around is modelled exactly).
Pointers are (region, structural path).  Memory is one SMT array (or scalar) per region leaf.
Opaque element objects (struct E / K) are leaves with two ghost components: alive (Bool) and val (Int).
"""
import z3, re, os, time, itertools, sys
from .llvmir import Ty, Val, Aff, Unsupported, Func

I = z3.IntSort()
B = z3.BoolSort()
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)
ELEM_TYPES = {"E", "K", "M"}


def is_elem(t):
    return t.k == 'struct' and t.name is not None and t.name.split('.', 1)[-1] in ELEM_TYPES


def b2z(x):
    if isinstance(x, bool):
        return TRUE if x else FALSE
    return x


def i2z(x):
    if isinstance(x, bool):
        return z3.IntVal(1 if x else 0)
    if isinstance(x, int):
        return z3.IntVal(x)
    return x


def isconst(x):
    return isinstance(x, (int, bool)) or (z3.is_expr(x) and (z3.is_int_value(x) or z3.is_true(x) or z3.is_false(x)))


def cval(x):
    if isinstance(x, (int, bool)):
        return x
    if z3.is_int_value(x):
        return x.as_long()
    if z3.is_true(x):
        return True
    if z3.is_false(x):
        return False
    return None


def simp(x):
    if z3.is_expr(x):
        x = z3.simplify(x)
        c = cval(x)
        return c if c is not None else x
    return x


def add(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    if isinstance(a, int) and a == 0:
        return b
    if isinstance(b, int) and b == 0:
        return a
    return z3.simplify(i2z(a) + i2z(b))


def sub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    if isinstance(b, int) and b == 0:
        return a
    r = z3.simplify(i2z(a) - i2z(b))
    return r.as_long() if z3.is_int_value(r) else r


class Region:
    def __init__(self, name, ty, kind, const=False):
        self.name, self.ty, self.kind, self.const = name, ty, kind, const

    def __repr__(self):
        return "<%s>" % self.name


class Ptr:
    __slots__ = ("r", "p")

    def __init__(self, r, p=()):
        self.r, self.p = r, p

    def __repr__(self):
        return "&%s%s" % (self.r, "".join(".%s" % s[1] if s[0] == 'f' else "[%s]" % s[1] for s in self.p))


NULL = Ptr(None)


class PtrInt:
    def __init__(self, ptr):
        self.ptr = ptr


class Scaled:
    """integer (mod 2^64) equal to k*t, k>0 literal, t possibly negative"""

    def __init__(self, k, t):
        self.k, self.t = k, t


class FnPtr:
    def __init__(self, name):
        self.name = name


class Opaque:
    """value we do not model (floats, labels, metadata); any use that matters raises Unsupported"""

    def __init__(self, what):
        self.what = what


def tmpl(path):
    return tuple(s if s[0] == 'f' else ('x',) for s in path)


def idxs(path):
    return [s[1] for s in path if s[0] == 'x']


class State:
    __slots__ = ("env", "mem", "facts", "sol", "nsol", "ghost", "trace", "regs", "steps", "_qc")

    def __init__(self):
        self.env, self.mem, self.facts, self.ghost, self.trace, self.regs = {}, {}, [], {}, [], []
        self.sol, self.nsol, self.steps, self._qc = None, 0, 0, {}

    def fork(self):
        s = State()
        s.env, s.mem, s.facts = dict(self.env), dict(self.mem), list(self.facts)
        s.ghost, s.trace, s.regs = dict(self.ghost), list(self.trace), list(self.regs)
        s.steps = self.steps
        return s

    def assume(self, f):
        if isinstance(f, (list, tuple)):
            for x in f:
                self.assume(x)
            return
        f = b2z(f)
        if z3.is_true(f):
            return
        self.facts.append(f)

    def light(self):
        if self.sol is None:
            self.sol = z3.SimpleSolver()
            self.sol.set("rlimit", 400000)
            self.nsol = 0
        for f in self.facts[self.nsol:]:
            if not has_quant(f):
                self.sol.add(f)
        if self.nsol != len(self.facts):
            self._qc = {}
        self.nsol = len(self.facts)
        return self.sol

    def prove(self, g):
        """cheap, quantifier-free entailment (True means proven)"""
        g = simp(b2z(g))
        if g is True:
            return True
        if g is False:
            return False
        s = self.light()
        key = g.get_id()
        if key in self._qc:
            return self._qc[key][0]
        s.push()
        s.add(z3.Not(g))
        r = s.check()
        s.pop()
        self._qc[key] = (r == z3.unsat, g)
        return r == z3.unsat

    def feasible(self):
        s = self.light()
        return s.check() != z3.unsat


_hq = {}


def has_quant(f):
    k = f.get_id()
    if k in _hq:
        return _hq[k][0]
    r = False
    if z3.is_quantifier(f):
        r = True
    elif z3.is_app(f):
        r = any(has_quant(c) for c in f.children())
    _hq[k] = (r, f)
    return r


class Obligation:
    def __init__(self, fn, name, tags, loc, ok, detail="", rl=0, t=0.0):
        self.fn, self.name, self.tags, self.loc, self.ok, self.detail, self.rl, self.t = fn, name, tags, loc, ok, detail, rl, t


class Circ:
    """a circular buffer: array at `path` in region r, first position given by field `start` minus `offset`"""

    def __init__(self, r, path, start, n, offset):
        self.r, self.path, self.start, self.n, self.offset = r, path, start, n, offset
        self.key = ('circ', r)


class PathEnd(Exception):
    pass


RL_OBL = int(os.environ.get("FCV_RLIMIT", "40000000"))


def mk_solver(rl):
    s = z3.Solver()
    s.set("mbqi", False)
    s.set("rlimit", rl)
    return s


class Exec:
    MAXPATHS = 6000

    def __init__(self, prog, fname, models, syms_facts=()):
        self.prog = prog
        self.fname = fname
        self.models = models  # list of (regex, handler)
        self.cnt = 0
        self.obls = []
        self.cert, self.cert_all, self.cert_min, self.fastfail = None, set(), set(), False
        self.quiet = 0
        self.symfacts = list(syms_facts)
        self.writes = None
        self.solver_time = 0.0
        self.rl_used = 0
        self.paths = 0
        self.loopinfo = {}
        self.backends = {}
        self.circ = {}
        self.lists = {}
        self.list_calls = any('FixedDoublyLinkedListBase' in m[0] for m in models)       # region -> Circ (circular buffers)
        self.loop_hints = []  # list of fn(exec, loopctx) -> list of (name, fn(state)->z3 Bool)
        self.loop_measures = []
        self.loops_report = []
        self.terms = []  # extra fixed bound terms from the contract
        self.covered_locs = set()
        self.entry = None
        self.policy_hook = None
        self.misuse = []
        self.deadline = None
        self.callees = set()
        self.mcache = {}
        self.assumed_calls = set()
        self.called_contracts = set()
        self.fail_fast = False

    # ------------------------------------------------------------ basics
    def fresh(self, name, sort=I):
        self.cnt += 1
        return z3.Const("%s!%d" % (name, self.cnt), sort)

    def fresh_int(self, st, name, bits):
        if bits == 1:
            return self.fresh(name, B)
        v = self.fresh(name)
        st.assume(z3.And(v >= 0, v < 2 ** bits))
        return v

    def aff(self, a, st=None, bits=None):
        if isinstance(a, Aff):
            t = z3.IntVal(a.c)
            for co, s in zip(a.co, self.prog.symbols):
                if co:
                    t = t + co * s
            t = z3.simplify(t)
            if bits and st is not None:
                if st.prove(t >= 0):
                    return t
                if st.prove(t < 0):
                    return z3.simplify(t + 2 ** bits)
                return z3.If(t >= 0, t, t + 2 ** bits)
            return t
        return a

    def sizeof(self, t):
        return self.aff(t.size) if t.size is not None else None

    # ------------------------------------------------------------ obligations
    def consistent(self, st, extra):
        s = mk_solver(3000000)
        for f in self.symfacts:
            s.add(f)
        for f in st.facts:
            s.add(f)
        s.add(extra)
        return s.check() != z3.unsat

    def oblige(self, st, goal, name, tags, loc=None, assume_after=True):
        goal = b2z(goal)
        if self.quiet:
            if assume_after:
                st.assume(goal)
            return True
        g = z3.simplify(goal)
        t0 = time.time()
        detail = ""
        rl = 0
        if z3.is_true(g):
            ok = True
        else:
            ok = st.prove(goal) if not has_quant(goal) else False
            if not ok:
                ok, detail, rl = self.check_full(st, goal)
        dt = time.time() - t0
        self.solver_time += dt
        self.rl_used += rl
        if not ok:
            # what the failure can corrupt: an access out of bounds on a valid call voids every later guarantee of that call,
            # and any failure on a call that had to be rejected means that the misuse was not rejected in time
            mis = z3.Or(*self.misuse) if self.misuse else z3.BoolVal(False)
            tags = tuple(tags)
            if "policy" not in tags and self.misuse and self.consistent(st, z3.And(mis, z3.Not(goal))):
                tags += ("policy",)
            if "bounds" in tags and self.consistent(st, z3.And(z3.Not(mis), z3.Not(goal))):
                tags += tuple(t for t in ("functional", "lifetime") if t not in tags)
        self.obls.append(Obligation(self.fname, name, tags, loc, ok, detail, rl, dt))
        if not ok and self.fastfail:
            raise Unsupported("recorded invariants do not suffice: " + name)
        if not ok and os.environ.get("FCV_DUMP"):
            print("FAILED", self.fname, name, loc, file=sys.stderr)
            s = z3.Solver()
            for f in st.facts:
                s.add(f)
            s.add(z3.Not(goal))
            open("/tmp/fcv_fail_%d.smt2" % len(self.obls), "w").write(s.to_smt2())
        if assume_after:
            st.assume(goal)
        return ok

    def cvc5(self, s, tl=8):
        import subprocess, tempfile
        s2 = z3.Solver()
        for f in s:
            s2.add(f)
        txt = s2.to_smt2().replace("@.", "g_.").replace("@_", "g__")
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write("(set-logic ALL)\n" + txt)
        try:
            p = subprocess.run(["cvc5", "--tlimit=%d" % (tl * 1000), f.name], capture_output=True, text=True, timeout=tl + 10)
            if os.environ.get("FCV_DUMP"): print("CVC5", p.stdout[:100], p.stderr[:200], file=sys.stderr); open("/tmp/last.smt2","w").write(txt)
            return p.stdout.strip().startswith("unsat")
        except (subprocess.TimeoutExpired, OSError):
            return False
        finally:
            os.unlink(f.name)

    def check_full(self, st, goal, rl=None):
        """portfolio: z3, z3 with other settings, cvc5; any 'unsat' discharges the obligation"""
        rl = rl or RL_OBL
        r = None
        for att, (frac, opts) in enumerate(((4, {}), (4, {"random_seed": 7, "arith.solver": 2}), (0, {}), (1, {"random_seed": 3}))):
            if att > 1 and self.fastfail:
                break
            if att == 2:
                if self.cvc5(list(self.symfacts) + list(st.facts) + [z3.Not(goal)]):
                    self.backends["cvc5"] = self.backends.get("cvc5", 0) + 1
                    return True, "", 0
                continue
            s = mk_solver(rl // frac)
            for k, v in opts.items():
                s.set(k, v)
            for f in self.symfacts:
                s.add(f)
            for f in st.facts:
                s.add(f)
            s.add(z3.Not(goal))
            r = s.check()
            if r == z3.unsat:
                self.backends["z3"] = self.backends.get("z3", 0) + 1
                return True, "", 0
        det = str(r)
        if r == z3.unknown:
            det += " (" + s.reason_unknown() + ")"
        try:
            m = s.model()
            vals = []
            for d in m.decls():
                if d.arity() == 0 and d.range() in (I, B):
                    v = str(m[d])
                    if len(v) < 40:
                        vals.append("%s=%s" % (d.name(), v))
            det += "; candidate model: " + ", ".join(sorted(vals)[:60])
        except z3.Z3Exception:
            pass
        return False, det, 0

    # ------------------------------------------------------------ types & memory
    def type_at(self, r, path):
        t = r.ty
        for s in path:
            if s[0] == 'f':
                if t.k != 'struct':
                    raise Unsupported("path/type mismatch")
                t = t.fields[s[1]]
            else:
                if t.k != 'array':
                    raise Unsupported("path/type mismatch")
                t = t.elem
        return t

    def same_ty(self, a, b):
        if a is b:
            return True
        if a.k != b.k:
            return False
        if a.k == 'int':
            return a.bits == b.bits
        if a.k == 'ptr':
            return True
        if a.k == 'struct' and a.name and b.name:
            return a.name == b.name
        if a.k == 'struct':
            return len(a.fields) == len(b.fields) and all(self.same_ty(x, y) for x, y in zip(a.fields, b.fields))
        if a.k == 'array':
            return str(a.count) == str(b.count) and self.same_ty(a.elem, b.elem)
        return a.k == b.k

    def leaves(self, t, pre=()):
        if is_elem(t):
            yield pre, 'elem', t
        elif t.k == 'int':
            yield pre, 'int', t
        elif t.k in ('ptr', 'float'):
            yield pre, t.k, t
        elif t.k == 'struct':
            for i, f in enumerate(t.fields):
                yield from self.leaves(f, pre + (('f', i),))
        elif t.k == 'array':
            yield from self.leaves(t.elem, pre + (('x',),))
        else:
            raise Unsupported("leaf type %r" % (t,))

    def leaf_sort(self, tp, base):
        n = sum(1 for s in tp if s[0] == 'x')
        if n == 0:
            return base
        if n == 1:
            return z3.ArraySort(I, base)
        if n == 2:
            return z3.ArraySort(I, z3.ArraySort(I, base))
        raise Unsupported("deeply nested arrays")

    def views(self, kind):
        return {'elem': (('v', I), ('a', B), ('r', I)), 'int': (('v', I),), 'ptr': (('v', None),), 'float': (('v', None),)}[kind]

    def init_region(self, st, r, alive=None, prefix=None):
        """fresh contents; alive: None -> unconstrained, False -> all elements dead"""
        nm = prefix or r.name
        for tp, kind, t in self.leaves(r.ty):
            pstr = nm + "".join(".%s" % s[1] if s[0] == 'f' else "[]" for s in tp)
            for vw, base in self.views(kind):
                key = (r, tp, vw)
                if base is None:
                    st.mem[key] = Opaque("uninit") if any(s[0] == 'x' for s in tp) else None
                    continue
                if kind == 'int' and t.bits == 1:
                    base = B
                so = self.leaf_sort(tp, base)
                if vw == 'a' and alive is False:
                    if so == B:
                        st.mem[key] = FALSE
                    elif so == z3.ArraySort(I, B):
                        st.mem[key] = z3.K(I, FALSE)
                    else:
                        st.mem[key] = z3.K(I, z3.K(I, FALSE))
                else:
                    v = self.fresh(pstr + (":" + vw if vw != 'v' else ""), so)
                    st.mem[key] = v
                    if kind == 'int' and so == I:
                        st.assume(z3.And(v >= 0, v < 2 ** t.bits))
        st.regs.append(r)
        return r

    def rd(self, st, key, ix):
        m = st.mem[key]
        for i in ix:
            m = z3.Select(m, i2z(i))
        return m

    def wr(self, st, key, ix, v):
        if self.writes is not None:
            self.writes.append((key, list(ix), v))
        if not ix:
            if key[0] in self.circ and self.circ[key[0]].start == key[1] and key[2] == 'v':
                self.circ_start_written(st, self.circ[key[0]], v)
            st.mem[key] = v
            return
        m = st.mem[key]
        v = b2z(v) if (isinstance(v, bool)) else i2z(v)
        if len(ix) == 1:
            st.mem[key] = z3.Store(m, i2z(ix[0]), v)
        else:
            st.mem[key] = z3.Store(m, i2z(ix[0]), z3.Store(z3.Select(m, i2z(ix[0])), i2z(ix[1]), v))

    def bounds(self, st, ptr, loc, what):
        """obligation: every array index on the path is within the array"""
        if ptr.r is None:
            self.oblige(st, FALSE, "null-deref:" + what, ("bounds",), loc)
            raise PathEnd()
        t = ptr.r.ty
        ci = self.circ.get(ptr.r)
        for j, s in enumerate(ptr.p):
            if s[0] == 'x':
                n = i2z(self.aff(t.count))
                i = i2z(s[1])
                lo = 0
                if ci is not None and tmpl(ptr.p[:j]) == ci.path:
                    lo = self.circ_w(st, ci)
                self.oblige(st, z3.And(i >= lo, i < lo + n), "in-bounds:" + what, ("bounds",), loc)
                t = t.elem
            else:
                t = t.fields[s[1]]

    def to_leaf(self, ptr, want=None):
        """descend zero-offset until a leaf type"""
        p = ptr.p
        t = self.type_at(ptr.r, p)
        while True:
            if is_elem(t):
                return Ptr(ptr.r, p), 'elem', t
            if t.k == 'int' or t.k == 'ptr' or t.k == 'float':
                return Ptr(ptr.r, p), t.k, t
            if t.k == 'struct':
                if not t.fields:
                    raise Unsupported("empty struct access")
                p = p + (('f', 0),)
                t = t.fields[0]
            elif t.k == 'array':
                p = p + (('x', 0),)
                t = t.elem
            else:
                raise Unsupported("access to %r" % t)

    def field_offsets(self, t):
        """byte offsets of struct fields (concrete ints or None)"""
        off = 0
        out = []
        for f in t.fields:
            al = 1 if t.packed else self.align(f)
            if isinstance(off, int):
                off = (off + al - 1) // al * al
            else:
                off = off  # affine: element sizes are multiples of alignment in our layouts
            out.append(off)
            sz = f.size
            if isinstance(sz, Aff):
                sz = self.aff(sz)
            if sz is None:
                sz = None
                off = None
                out += [None] * (len(t.fields) - len(out))
                return out
            off = add(off, sz) if off is not None else None
        return out

    def align(self, t):
        if t.k == 'int':
            return max(1, min(16, t.bits // 8))
        if t.k == 'ptr':
            return 8
        if t.k == 'float':
            return t.bits // 8
        if t.k == 'array':
            return self.align(t.elem)
        if t.k == 'struct':
            if t.packed:
                return 1
            return max([1] + [self.align(f) for f in t.fields])
        return 1

    def load(self, st, ptr, ty, loc):
        if ptr.r is None:
            self.oblige(st, FALSE, "null-deref:load", ("bounds",), loc)
            raise PathEnd()
        ptr = self.past_end(ptr)
        if ty.k in ('struct', 'array') and not is_elem(ty):
            out = []
            q = self.norm_to(ptr, ty)
            if q is None:
                offs = self.field_offsets(ty)
                return tuple(self.load(st, self.byte_gep(st, ptr, o), f, loc) for o, f in zip(offs, ty.fields))
            n = len(ty.fields) if ty.k == 'struct' else ty.count
            for i in range(n):
                ft = ty.fields[i] if ty.k == 'struct' else ty.elem
                out.append(self.load(st, Ptr(q.r, q.p + ((('f', i) if ty.k == 'struct' else ('x', i)),)), ft, loc))
            return tuple(out)
        lp, kind, lt = self.to_leaf(ptr)
        self.bounds(st, lp, loc, "load")
        key = (lp.r, tmpl(lp.p), 'v')
        ix = idxs(lp.p)
        if kind == 'elem':
            if ty.k != 'int':
                raise Unsupported("raw load from element")
            # union view: index stored while no element is alive
            self.oblige(st, z3.Not(self.rd(st, (lp.r, tmpl(lp.p), 'a'), ix)), "raw-read-of-live-element", ("lifetime", "bounds"), loc)
            v = self.rd(st, (lp.r, tmpl(lp.p), 'r'), ix)
            st.assume(z3.And(v >= 0, v < 2 ** ty.bits))
            return v
        if kind == 'int' and ty.k == 'int':
            if lt.bits == ty.bits:
                v = self.rd(st, key, ix)
                if isinstance(v, (Opaque, PtrInt, Scaled)) or not z3.is_expr(v):
                    return v
                if ix and ty.bits > 1:
                    st.assume(z3.And(v >= 0, v < 2 ** ty.bits))
                return v
            if lt.bits < ty.bits:
                # composed load of several adjacent leaves
                total, off, acc = ty.bits, 0, 0
                cur = ptr
                while off < total:
                    if off and self.is_padding(ptr, off // 8):
                        acc = add(acc, self.fresh_int(st, "padding", 8) * (2 ** off))
                        off += 8
                        continue
                    q = self.byte_gep(st, ptr, off // 8) if off else ptr
                    qp, k2, t2 = self.to_leaf(q)
                    if k2 != 'int' or off % t2.bits:
                        raise Unsupported("composed load")
                    v = self.load(st, qp, t2, loc)
                    acc = add(acc, i2z(v) * (2 ** off)) if off else i2z(v)
                    off += t2.bits
                return simp(acc)
            v = self.load(st, lp, lt, loc)
            return simp(i2z(v) % (2 ** ty.bits))
        if kind == 'ptr' and ty.k == 'ptr':
            v = st.mem[key]
            if ix:
                raise Unsupported("array of pointers")
            if v is None:
                raise Unsupported("load of uninitialised pointer")
            return v
        if kind == 'ptr' and ty.k == 'int' and ty.bits == 64:
            v = st.mem[key]
            if isinstance(v, Ptr):
                return PtrInt(v)
        if kind == 'int' and ty.k == 'ptr' and lt.bits == 64:
            v = self.rd(st, key, ix)
            if isinstance(v, PtrInt):
                return v.ptr
        if kind == 'float' and ty.k == 'float':
            return Opaque("float")
        raise Unsupported("load %r from %s leaf %r" % (ty, kind, lt))

    def store(self, st, ptr, v, ty, loc):
        if ptr.r is None:
            self.oblige(st, FALSE, "null-deref:store", ("bounds",), loc)
            raise PathEnd()
        ptr = self.past_end(ptr)
        if ty.k in ('struct', 'array') and not is_elem(ty):
            q = self.norm_to(ptr, ty)
            offs = self.field_offsets(ty) if ty.k == 'struct' else None
            for i, x in enumerate(v):
                ft = ty.fields[i] if ty.k == 'struct' else ty.elem
                if q is not None:
                    self.store(st, Ptr(q.r, q.p + ((('f', i) if ty.k == 'struct' else ('x', i)),)), x, ft, loc)
                else:
                    self.store(st, self.byte_gep(st, ptr, offs[i]), x, ft, loc)
            return
        lp, kind, lt = self.to_leaf(ptr)
        self.bounds(st, lp, loc, "store")
        if lp.r.const:
            self.oblige(st, FALSE, "store-to-const", ("bounds",), loc)
        tp, ix = tmpl(lp.p), idxs(lp.p)
        if kind == 'elem':
            if ty.k != 'int':
                raise Unsupported("raw store to element")
            self.oblige(st, z3.Not(self.rd(st, (lp.r, tp, 'a'), ix)), "raw-write-of-live-element", ("lifetime", "bounds"), loc)
            self.wr(st, (lp.r, tp, 'r'), ix, i2z(v))
            return
        key = (lp.r, tp, 'v')
        if kind == 'int' and ty.k == 'int':
            if lt.bits == ty.bits:
                if isinstance(v, Scaled):
                    v = self.unscale(st, v)
                if isinstance(v, (Opaque,)):
                    v = self.fresh_int(st, "undef", lt.bits)
                if isinstance(v, PtrInt):
                    if ix:
                        raise Unsupported("ptrint into array")
                    st.mem[key] = v
                    return
                self.wr(st, key, ix, b2z(v) if lt.bits == 1 else i2z(v))
                return
            if lt.bits < ty.bits:
                off = 0
                while off < ty.bits:
                    if off and self.is_padding(ptr, off // 8):
                        off += 8
                        continue
                    q = self.byte_gep(st, ptr, off // 8) if off else ptr
                    qp, k2, t2 = self.to_leaf(q)
                    if k2 != 'int':
                        raise Unsupported("composed store")
                    part = simp((i2z(v) / (2 ** off)) % (2 ** t2.bits)) if not isinstance(v, int) else (v >> off) % (2 ** t2.bits)
                    self.store(st, qp, part, t2, loc)
                    off += t2.bits
                return
            raise Unsupported("partial store")
        if kind == 'ptr' and ty.k == 'ptr':
            if ix:
                raise Unsupported("array of pointers")
            if self.writes is not None:
                self.writes.append((key, [], v))
            st.mem[key] = v
            return
        if kind == 'float':
            return
        if kind == 'ptr' and ty.k == 'int' and isinstance(v, PtrInt):
            st.mem[key] = v.ptr
            return
        if kind == 'ptr' and ty.k == 'int' and v == 0:
            st.mem[key] = NULL
            return
        raise Unsupported("store %r to %s leaf" % (ty, kind))

    def norm_to(self, ptr, ty):
        """rewrite path with zero-offset steps so that the type at the path is `ty`; None if impossible"""
        p = ptr.p
        t = self.type_at(ptr.r, p)
        # descend
        q, u = p, t
        while True:
            if self.same_ty(u, ty):
                return Ptr(ptr.r, q)
            if is_elem(u):
                break
            if u.k == 'struct' and u.fields:
                q, u = q + (('f', 0),), u.fields[0]
            elif u.k == 'array':
                q, u = q + (('x', 0),), u.elem
            else:
                break
        # ascend
        q = p
        while q:
            s = q[-1]
            if s[0] == 'f' and s[1] == 0 or (s[0] == 'x' and cval(s[1]) == 0):
                q = q[:-1]
                if self.same_ty(self.type_at(ptr.r, q), ty):
                    return Ptr(ptr.r, q)
            else:
                break
        return None

    def same_size(self, a, b):
        if a.size is None or b.size is None:
            return self.same_ty(a, b)
        return str(a.size) == str(b.size)

    def step(self, st, ptr, ty, n):
        """ptr + n*sizeof(ty)"""
        if isinstance(n, int) and n == 0:
            return ptr
        # ascend to an array step with matching element size
        q = ptr.p
        while q:
            s = q[-1]
            if s[0] == 'x':
                at = self.type_at(ptr.r, q[:-1])
                if self.same_size(at.elem, ty):
                    return Ptr(ptr.r, q[:-1] + (self.mkx(st, ptr.r, q[:-1], s[1], n),) + ptr.p[len(q):])
                if cval(s[1]) != 0:
                    break
            elif s[1] != 0:
                break
            q = q[:-1]
        # descend
        p, t = ptr.p, self.type_at(ptr.r, ptr.p)
        while True:
            if t.k == 'array':
                if self.same_size(t.elem, ty):
                    return Ptr(ptr.r, p + (self.mkx(st, ptr.r, p, 0, n),))
                p, t = p + (('x', 0),), t.elem
            elif t.k == 'struct' and t.fields and not is_elem(t):
                p, t = p + (('f', 0),), t.fields[0]
            else:
                break
        if ty.size is not None and not isinstance(ty.size, Aff):
            if isinstance(n, int):
                return self.byte_gep(st, ptr, n * ty.size)
            # scaled stepping over a larger element (e.g. i8 stepping by multiple)
            return self.byte_gep(st, ptr, Scaled(ty.size, n))
        if n == 1 and isinstance(n, int) and self.same_ty(self.type_at(ptr.r, ptr.p), ty):
            # one past an object that is just an array: one past its last element
            p, t = ptr.p, ty
            while t.k == 'struct' and len(t.fields) == 1 and not is_elem(t):
                p, t = p + (('f', 0),), t.fields[0]
            if t.k == 'array':
                return Ptr(ptr.r, p + (('x', self.aff(t.count)),))
        raise Unsupported("pointer step %r over %r" % (ptr, ty))

    def signed(self, st, v, bits):
        if isinstance(v, Scaled):
            return v
        if isinstance(v, bool):
            return -1 if v else 0
        if isinstance(v, int):
            return v - (1 << bits) if v >= (1 << (bits - 1)) else v
        if st.prove(v < 2 ** (bits - 1)):
            return v
        if st.prove(v >= 2 ** (bits - 1)):
            return simp(v - 2 ** bits)
        return z3.If(v < 2 ** (bits - 1), v, v - 2 ** bits)

    def unscale(self, st, v):
        t = simp(i2z(v.t) * v.k)
        return self.wrap(st, t, 64)

    def is_padding(self, ptr, off):
        """is the byte at distance `off` behind `ptr` a padding byte of one of the enclosing structures (no field covers it)?"""
        q = ptr.p
        while q and q[-1][0] == 'f':
            t = self.type_at(ptr.r, q[:-1])
            offs = self.field_offsets(t)
            i = q[-1][1]
            if any(not isinstance(x, int) for x in offs) or not isinstance(t.size, int):
                return False
            off, q = off + offs[i], q[:-1]
            if off < t.size:
                for o, f in zip(offs, t.fields):
                    if not isinstance(f.size, int):
                        return False
                    if o <= off < o + f.size:
                        while f.k == 'struct' and f.fields and not is_elem(f):   # padding inside the field
                            fo = self.field_offsets(f)
                            if any(not isinstance(x, int) for x in fo):
                                return False
                            inner = [(x, g) for x, g in zip(fo, f.fields) if isinstance(g.size, int) and o + x <= off < o + x + g.size]
                            if not inner:
                                return True
                            o, f = o + inner[0][0], inner[0][1]
                        return False
                return True
        return False

    def byte_gep(self, st, ptr, off):
        """add a byte offset"""
        if isinstance(off, Scaled):
            k, t = off.k, off.t
            q = ptr.p
            while q:
                s = q[-1]
                if s[0] == 'x':
                    at = self.type_at(ptr.r, q[:-1])
                    es = at.elem.size
                    if isinstance(es, int) and k % es == 0:
                        return Ptr(ptr.r, q[:-1] + (self.mkx(st, ptr.r, q[:-1], s[1], simp(i2z(t) * (k // es))),) + ptr.p[len(q):])
                    if cval(s[1]) != 0:
                        break
                elif s[1] != 0:
                    break
                q = q[:-1]
            p, ty = ptr.p, self.type_at(ptr.r, ptr.p)
            while True:
                if ty.k == 'array':
                    es = ty.elem.size
                    if isinstance(es, int) and k % es == 0:
                        return Ptr(ptr.r, p + (self.mkx(st, ptr.r, p, 0, simp(i2z(t) * (k // es))),))
                    p, ty = p + (('x', 0),), ty.elem
                elif ty.k == 'struct' and ty.fields and not is_elem(ty):
                    p, ty = p + (('f', 0),), ty.fields[0]
                else:
                    break
            raise Unsupported("scaled byte offset")
        if cval(off) == 0 and isinstance(cval(off), int):
            return ptr
        # ascend to the outermost zero-offset enclosing object, then navigate down
        cands = [ptr.p]
        q = ptr.p
        while q and (q[-1] == ('f', 0) or (q[-1][0] == 'x' and cval(q[-1][1]) == 0)):
            q = q[:-1]
            cands.append(q)
        for base in cands:
            r = self.nav(st, ptr.r, base, self.type_at(ptr.r, base), off)
            if r is not None:
                return r
        # stepping within an enclosing array by whole elements
        q = ptr.p
        while q:
            if q[-1][0] == 'x':
                at = self.type_at(ptr.r, q[:-1])
                es = at.elem.size
                c = cval(off)
                if isinstance(es, int) and isinstance(c, int) and c % es == 0:
                    return Ptr(ptr.r, q[:-1] + (self.mkx(st, ptr.r, q[:-1], q[-1][1], c // es),))
                if isinstance(es, int) and c is None:
                    t = simp(i2z(off))
                    quo = self.exact_div(t, es)
                    if quo is not None:
                        return Ptr(ptr.r, q[:-1] + (self.mkx(st, ptr.r, q[:-1], q[-1][1], quo),))
                break
            if q[-1][1] != 0:
                # field offset inside an array element: convert to (element, field offset)
                st_t = self.type_at(ptr.r, q[:-1])
                fo = self.field_offsets(st_t)[q[-1][1]]
                return self.byte_gep(st, Ptr(ptr.r, q[:-1]), add(off, fo))
            q = q[:-1]
        raise Unsupported("byte offset %s from %r" % (off, ptr))

    def past_end(self, ptr):
        """the compiler spells the address of the field that follows an array as array + count: use the field"""
        for j, s in enumerate(ptr.p):
            if s[0] != 'x' or cval(s[1]) == 0 or isinstance(s[1], int):
                continue
            at = self.type_at(ptr.r, ptr.p[:j])
            n = self.aff(at.count)
            if isinstance(n, int) or str(s[1]) != str(n):
                continue
            i = j - 1
            while i >= 0 and ptr.p[i] == ('f', 0):
                i -= 1
            while i < j:
                if i >= 0 and ptr.p[i][0] == 'f' or i < 0 and False:
                    f = ptr.p[i][1]
                    pt = self.type_at(ptr.r, ptr.p[:i])
                    if f + 1 < len(pt.fields):
                        q = Ptr(ptr.r, ptr.p[:i] + (('f', f + 1),))
                        z = self.reshape(q, Ptr(ptr.r, ptr.p[:j + 1]))
                        if z is not None:
                            return q
                i += 1
        return ptr

    def reshape(self, a, b):
        """spell pointer a (the address just past an array = the next field) as an index into the array b points into"""
        i = 0
        while i < min(len(a.p), len(b.p)) and a.p[i] == b.p[i]:
            i += 1
        if i >= len(a.p) or i >= len(b.p) or a.p[i][0] != 'f' or b.p[i][0] != 'f' or a.p[i][1] != b.p[i][1] + 1:
            return None
        if any(s != ('f', 0) and not (s[0] == 'x' and cval(s[1]) == 0) for s in a.p[i + 1:]):
            return None
        j = i + 1
        while j < len(b.p) and b.p[j] == ('f', 0):
            j += 1
        if j >= len(b.p) or b.p[j][0] != 'x':
            return None
        pt = self.type_at(b.r, b.p[:i])
        at = self.type_at(b.r, b.p[:j])
        fo = self.field_offsets(pt)
        es = at.elem.size
        if not isinstance(es, int) or str(simp(i2z(fo[a.p[i][1]]) - i2z(fo[b.p[i][1]]) - es * i2z(self.aff(at.count)))) != '0':
            return None
        return Ptr(b.r, b.p[:j] + (('x', self.aff(at.count)),) + tuple(s if s[0] == 'f' else ('x', 0) for s in b.p[j + 1:]))

    def exact_div(self, t, k):
        """t / k when every coefficient of linear t is divisible"""
        t = z3.simplify(t, som=True)
        args = t.children() if z3.is_add(t) else [t]
        out = 0
        for a in args:
            if z3.is_int_value(a):
                if a.as_long() % k:
                    return None
                out = add(out, a.as_long() // k)
            elif z3.is_mul(a) and z3.is_int_value(a.arg(0)) and a.num_args() == 2 and a.arg(0).as_long() % k == 0:
                out = add(out, simp((a.arg(0).as_long() // k) * a.arg(1)))
            elif k == 1:
                out = add(out, a)
            else:
                return None
        return out

    def nav(self, st, r, p, t, off):
        c = cval(off)
        if isinstance(c, int) and c == 0 and not isinstance(c, bool):
            return Ptr(r, p)
        if is_elem(t) or t.k in ('int', 'ptr', 'float'):
            return None
        if t.k == 'array':
            es = t.elem.size
            if isinstance(es, int) and isinstance(c, int):
                if c < 0:
                    return None
                q, rem = divmod(c, es)
                return self.nav(st, r, p + (self.mkx(st, r, p, 0, q),), t.elem, rem)
            if isinstance(es, int):
                quo = self.exact_div(i2z(off), es)
                if quo is not None:
                    return Ptr(r, p + (self.mkx(st, r, p, 0, quo),))
            return None
        if t.k == 'struct':
            offs = self.field_offsets(t)
            best = None
            for i, o in enumerate(offs):
                if o is None:
                    break
                d = sub(off, o)
                cd = cval(d)
                if cd is not None:
                    if cd >= 0:
                        fs = t.fields[i].size
                        if cd == 0 or not isinstance(fs, int) or cd < fs:
                            best = (i, d)
                            if cd == 0:
                                break
                elif st.prove(d >= 0):
                    fs = t.fields[i].size
                    fs = self.aff(fs) if fs is not None else None
                    if fs is not None and st.prove(i2z(d) < i2z(fs)):
                        best = (i, d)
            if best is None:
                return None
            i, d = best
            return self.nav(st, r, p + (('f', i),), t.fields[i], d)
        return None

    def gep(self, st, ptr, sty, ix):
        if isinstance(ptr, PtrInt):
            ptr = ptr.ptr
        if not isinstance(ptr, Ptr):
            raise Unsupported("gep on %r" % (ptr,))
        if ptr.r is None:
            raise Unsupported("gep on null")
        n = ix[0]
        if isinstance(n, Scaled) and sty.k == 'int' and sty.bits == 8:
            ptr = self.byte_gep(st, ptr, n)
        elif sty.k == 'int' and sty.bits == 8 and len(ix) == 1:
            t = None
            try:
                ptr2 = self.step(st, ptr, sty, n)
            except Unsupported:
                ptr2 = self.byte_gep(st, ptr, n)
            return ptr2
        else:
            if isinstance(n, Scaled):
                n = simp(i2z(n.t) * n.k)
            ptr = self.step(st, ptr, sty, n)
        if len(ix) == 1:
            return ptr
        ptr = self.past_end(ptr)
        q = self.norm_to(ptr, sty)
        if q is None:
            # navigate by layout
            off, t = 0, sty
            for s in ix[1:]:
                if t.k == 'struct':
                    off = add(off, self.field_offsets(t)[s])
                    t = t.fields[s]
                else:
                    off = add(off, simp(i2z(s) * i2z(self.aff(t.elem.size))))
                    t = t.elem
            return self.byte_gep(st, ptr, off)
        t = sty
        p = q.p
        for s in ix[1:]:
            if t.k == 'struct':
                p, t = p + (('f', s),), t.fields[s]
            else:
                if isinstance(s, Scaled):
                    s = simp(i2z(s.t) * s.k)
                p, t = p + (self.mkx(st, q.r, p, 0, s),), t.elem
        return Ptr(q.r, p)

    # ------------------------------------------------------------ circular arrays
    def mkx(self, st, r, prefix, cur, n):
        """array step cur + n; on a circular array a wrapped index is kept as its unwrapped position in the window"""
        ci = self.circ.get(r)
        if ci is None or tmpl(prefix) != ci.path:
            return ('x', add(cur, n))
        if cval(n) == 0:
            return ('x', cur)
        if cval(cur) != 0:
            if st.prove(i2z(self.circ_w(st, ci)) == 0):
                return ('x', add(cur, n))
            raise Unsupported("pointer arithmetic across a circular buffer")
        if z3.is_expr(n) and z3.is_app(n) and n.decl().name() == "vslot" and st.prove(n.arg(1) == i2z(ci.n)):
            return ('x', self.circ_norm(st, ci, n.arg(0)))
        if st.prove(i2z(self.circ_w(st, ci)) == 0):
            return ('x', n)      # physical slot i is position i while the window starts at 0
        raise Unsupported("raw index into a circular buffer")

    def circ_w(self, st, ci):
        """first position of the window: that of the element at the front"""
        if st.ghost.get(ci.key) == 'raw':
            return z3.IntVal(0)
        return simp(i2z(st.mem[(ci.r, ci.start, 'v')]) - ci.offset)

    def circ_norm(self, st, ci, z):
        w, n, z = i2z(self.circ_w(st, ci)), i2z(ci.n), i2z(z)
        if st.prove(z3.And(z >= w, z < w + n)):
            return simp(z)
        if st.prove(z3.And(z >= w + n, z < w + 2 * n)):
            return simp(z - n)
        if st.prove(z3.And(z >= w - n, z < w)):
            return simp(z + n)
        self.oblige(st, z3.And(z >= w - n, z < w + 2 * n), "circular-position-near-window", ("functional", "bounds"), None)
        return z3.If(z >= w + n, z - n, z3.If(z < w, z + n, z))

    def circ_z(self, st, ix, ci):
        return simp(i2z(ix) - ci.offset)

    def circ_start_written(self, st, ci, v):
        """the start field changes: the window moves with it, slots that leave it at one end re-enter at the other"""
        z = i2z(simp(i2z(v) - ci.offset))
        w, n = i2z(self.circ_w(st, ci)), i2z(ci.n)
        st.ghost[ci.key] = None
        if st.prove(z == w):
            return
        keys = [k for k in st.mem if k[0] is ci.r and tmpl(k[1])[:len(ci.path)] == ci.path and any(x[0] == 'x' for x in k[1])]
        d = 1 if st.prove(z == w + 1) else -1 if st.prove(z == w - 1) else None
        if d is None and st.prove(z3.And(z >= w - n, z <= w + n)):
            d = 0
        for key in keys:
            a = st.mem[key]
            if d in (1, -1):
                to, fr = (w + n, w) if d == 1 else (w - 1, w - 1 + n)
                st.mem[key] = z3.Store(a, simp(to), z3.Select(a, simp(fr)))
                if self.writes is not None:
                    self.writes.append((key, [simp(to)], z3.Select(a, simp(fr))))
                continue
            if d == 0:
                k = z3.Int("k!win")
                m = self.fresh("win", a.sort())
                st.assume(z3.ForAll([k], z3.Implies(z3.And(k >= z, k < z + n), z3.Select(m, k) == z3.Select(a, z3.If(k < w, k + n, z3.If(k >= w + n, k - n, k)))), patterns=[z3.Select(m, k)]))
                st.mem[key] = m
            elif key[2] == 'a':
                k = self.fresh("k")
                if not self.check_full(st, z3.Implies(z3.And(k >= w, k < w + n), z3.Not(z3.Select(a, k))))[0]:
                    raise Unsupported("circular buffer restarted while elements are alive")
                st.mem[key] = z3.K(I, FALSE)
            else:
                st.mem[key] = self.fresh("rebase", a.sort())
            if self.writes is not None:
                self.writes.append((key, ['seg'], None))

    def copy_object(self, st, d, s, loc):
        """copy every leaf under s's type to d (same type)"""
        t = self.type_at(s.r, s.p)
        self.bounds(st, s, loc, "copy-src")
        self.bounds(st, d, loc, "copy-dst")
        if d.r in self.circ:
            if s.r not in self.circ or s.p or d.p:
                raise Unsupported("partial copy of a circular buffer")
            cd, cs = self.circ[d.r], self.circ[s.r]
            if st.ghost.get(cs.key) == 'raw':
                raise Unsupported("copy of an unconstructed circular buffer")
            st.mem[(d.r, cd.start, 'v')] = st.mem[(s.r, cs.start, 'v')]     # same window: the slots correspond one to one
            st.ghost[cd.key] = None
        for tp, kind, lt in self.leaves(t):
            if kind == 'elem':
                # copying the bytes of a live element creates no element: the destination must hold none, and holds none afterwards
                nx = sum(1 for x in tp if x[0] == 'x')
                if nx > 1:
                    raise Unsupported("bitwise copy of nested element arrays")
                k = [self.fresh("k")] * nx
                sk, dk = (s.r, tmpl(s.p) + tp), (d.r, tmpl(d.p) + tp)
                self.oblige(st, z3.Not(self.rd(st, dk + ('a',), list(idxs(d.p)) + k)), "bitwise-copy-over-live-element", ("lifetime",), loc, assume_after=False)
                sa, sr = self.rd(st, sk + ('a',), idxs(s.p)), self.rd(st, sk + ('r',), idxs(s.p))
                nr = self.fresh("raw", sr.sort())
                if nx:
                    j = z3.Int("j!raw")
                    st.assume(z3.ForAll([j], z3.Implies(z3.Not(z3.Select(sa, j)), z3.Select(nr, j) == z3.Select(sr, j)), patterns=[z3.Select(nr, j)]))
                else:
                    st.assume(z3.Implies(z3.Not(sa), nr == sr))
                self.wr(st, dk + ('r',), idxs(d.p), nr)
                self.wr(st, dk + ('v',), idxs(d.p), self.fresh("raw", self.rd(st, dk + ('v',), idxs(d.p)).sort()))
                continue
            for vw, _ in self.views(kind):
                ks, kd = (s.r, tmpl(s.p) + tp, vw), (d.r, tmpl(d.p) + tp, vw)
                v = st.mem[ks]
                if isinstance(v, (Ptr, Opaque)) or v is None:
                    if not idxs(d.p):
                        st.mem[kd] = v
                    continue
                si, di = idxs(s.p), idxs(d.p)
                for i in si:
                    v = z3.Select(v, i2z(i))
                self.wr(st, kd, di, v)

    # ------------------------------------------------------------ pointer comparison
    def align_paths(self, a, b):
        """make two paths in the same region the same shape (zero-offset steps)"""
        if tmpl(a.p) == tmpl(b.p):
            return a.p, b.p
        ap, bp = list(a.p), list(b.p)
        i = 0
        while i < min(len(ap), len(bp)) and ap[i][0] == bp[i][0] and (ap[i][0] == 'x' or ap[i][1] == bp[i][1]):
            i += 1

        def zero(s):
            return (s[0] == 'f' and s[1] == 0) or (s[0] == 'x' and cval(s[1]) == 0)

        if all(zero(s) or s[0] == 'x' for s in bp[i:]) and i == len(ap):
            return tuple(ap + [s if s[0] == 'f' else ('x', 0) for s in bp[i:]]), tuple(bp)
        if all(zero(s) or s[0] == 'x' for s in ap[i:]) and i == len(bp):
            return tuple(ap), tuple(bp + [s if s[0] == 'f' else ('x', 0) for s in ap[i:]])
        return None, None

    def ptr_cmp_terms(self, a, b):
        ap, bp = self.align_paths(a, b)
        if ap is None:
            return None
        diffs = [(x[1], y[1], k) for k, (x, y) in enumerate(zip(ap, bp)) if x[0] == 'x']
        return ap, bp, diffs

    def ptr_eq(self, a, b):
        if a.r is None and b.r is None:
            return True
        if a.r is not b.r:
            return False
        r = self.ptr_cmp_terms(a, b)
        if r is None:
            ca, cb = self.byte_off(a), self.byte_off(b)
            if ca is not None and cb is not None:
                return simp(i2z(ca) == i2z(cb))
            raise Unsupported("pointer comparison %r %r" % (a, b))
        return simp(z3.And([i2z(x) == i2z(y) for x, y, _ in r[2]] + [TRUE]))

    def byte_off(self, a):
        off, t = 0, a.r.ty
        for s in a.p:
            if s[0] == 'f':
                o = self.field_offsets(t)[s[1]]
                if o is None:
                    return None
                off = add(off, o)
                t = t.fields[s[1]]
            else:
                es = t.elem.size
                if not isinstance(es, int):
                    return None
                off = add(off, simp(i2z(s[1]) * es))
                t = t.elem
        return off

    def ptr_diff(self, a, b):
        """byte difference as Scaled"""
        if a.r is not b.r:
            raise Unsupported("pointer difference across objects")
        if a.r is None:
            return 0
        r = self.ptr_cmp_terms(a, b)
        if r is not None:
            ap, bp, d = r
            nz = [(x, y, k) for x, y, k in d if not (cval(sub(x, y)) == 0)]
            if not nz:
                return 0
            if len(nz) == 1:
                x, y, k = nz[0]
                at = self.type_at(a.r, ap[:k])
                if isinstance(at.elem.size, int):
                    return Scaled(at.elem.size, sub(x, y))
        ca, cb = self.byte_off(a), self.byte_off(b)
        if ca is None or cb is None:
            raise Unsupported("pointer difference")
        return sub(ca, cb)

    def ptr_lt(self, a, b, strict):
        d = self.ptr_diff(a, b)
        t = d.t if isinstance(d, Scaled) else d
        return simp(i2z(t) < 0) if strict else simp(i2z(t) <= 0)

    # ------------------------------------------------------------ integer ops
    def wrap(self, st, t, bits):
        t = simp(t)
        if isinstance(t, int):
            return t % (2 ** bits)
        M = 2 ** bits
        if st.prove(z3.And(t >= 0, t < M)):
            return t
        if st.prove(z3.And(t >= 0, t < 2 * M)):
            return z3.If(t < M, t, t - M)
        if st.prove(z3.And(t >= -M, t < M)):
            if st.prove(t < 0):
                return simp(t + M)
            return z3.If(t >= 0, t, t + M)
        if st.prove(z3.And(t >= -M, t < 0)):
            return simp(t + M)
        return t % M

    def toint(self, st, v, bits=64):
        if isinstance(v, Scaled):
            return self.unscale(st, v)
        if isinstance(v, bool):
            return 1 if v else 0
        if z3.is_expr(v) and z3.is_bool(v):
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if isinstance(v, Opaque):
            return self.fresh_int(st, "undef", bits)
        return v

    def tobool(self, st, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, int):
            return v % 2 == 1
        if z3.is_expr(v) and z3.is_bool(v):
            return v
        if isinstance(v, Opaque):
            return self.fresh("undef", B)
        raise Unsupported("bool of %r" % (v,))

    def divmod(self, st, a, b, loc):
        a, b = i2z(a), i2z(b)
        self.oblige(st, b > 0, "division-by-zero", ("bounds",), loc)
        if z3.is_int_value(b):
            return simp(a / b), simp(a % b)
        if z3.is_int_value(a) and a.as_long() == 0:
            return 0, 0
        if st.prove(z3.And(a < b)):
            return 0, a
        if st.prove(z3.And(a >= b, a < 2 * b)):
            return 1, simp(a - b)
        q, r = self.fresh("q"), self.fresh("r")
        st.assume(z3.And(r >= 0, r < b, q >= 0, q <= a, a == q * b + r))
        st.ghost.setdefault('divs', [])
        st.ghost['divs'] = st.ghost['divs'] + [(a, b, q, r)]
        if st.prove(a < 2 * b):
            st.assume(z3.Or(z3.And(q == 0, r == a), z3.And(q == 1, r == a - b)))
        return q, r

    def binop(self, st, op, a, b, bits, loc):
        if op in ('add', 'sub') and (isinstance(a, PtrInt) or isinstance(b, PtrInt)):
            if op == 'sub' and isinstance(a, PtrInt) and isinstance(b, PtrInt):
                if (a.ptr.r is None) != (b.ptr.r is None):
                    return self.fresh_int(st, "addr", 64)
                return self.ptr_diff(a.ptr, b.ptr)
            raise Unsupported("pointer integer arithmetic")
        if isinstance(a, PtrInt) or isinstance(b, PtrInt):
            raise Unsupported("pointer integer arithmetic")
        if isinstance(a, Scaled) or isinstance(b, Scaled):
            if op in ('sdiv',) and isinstance(a, Scaled) and isinstance(b, int) and a.k % b == 0:
                r = simp(i2z(a.t) * (a.k // b))
                return self.wrap(st, r, bits)
            if op in ('ashr', 'lshr') and isinstance(a, Scaled) and isinstance(b, int) and a.k % (1 << b) == 0 and \
                    (op == 'ashr' or st.prove(i2z(a.t) >= 0)):
                return self.wrap(st, simp(i2z(a.t) * (a.k >> b)), bits)
            if op == 'udiv' and isinstance(a, Scaled) and isinstance(b, int) and a.k % b == 0 and st.prove(i2z(a.t) >= 0):
                return simp(i2z(a.t) * (a.k // b))
            if op in ('add', 'sub') and isinstance(a, Scaled) and isinstance(b, Scaled) and a.k == b.k:
                return Scaled(a.k, add(a.t, b.t) if op == 'add' else sub(a.t, b.t))
            if op == 'sub' and a == 0 and isinstance(b, Scaled):
                return Scaled(b.k, sub(0, b.t))
            a, b = self.toint(st, a), self.toint(st, b)
        if bits == 1:
            a, b = self.tobool(st, a), self.tobool(st, b)
            if op == 'and':
                return simp(z3.And(b2z(a), b2z(b)))
            if op == 'or':
                return simp(z3.Or(b2z(a), b2z(b)))
            if op in ('xor', 'add', 'sub'):
                return simp(z3.Xor(b2z(a), b2z(b)))
            raise Unsupported("i1 " + op)
        a, b = self.toint(st, a, bits), self.toint(st, b, bits)
        M = 2 ** bits
        if isinstance(a, int) and isinstance(b, int):
            sa, sb = self.signed(st, a, bits), self.signed(st, b, bits)
            if op == 'add':
                return (a + b) % M
            if op == 'sub':
                return (a - b) % M
            if op == 'mul':
                return (a * b) % M
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op == 'shl':
                return (a << b) % M if b < bits else 0
            if op == 'lshr':
                return a >> b
            if op == 'ashr':
                return (sa >> b) % M
            if op in ('udiv', 'urem') and b:
                return a // b if op == 'udiv' else a % b
        if op == 'add':
            if isinstance(b, int) and b >= M // 2:
                return self.wrap(st, i2z(a) - (M - b), bits)
            if isinstance(a, int) and a >= M // 2:
                return self.wrap(st, i2z(b) - (M - a), bits)
            return self.wrap(st, i2z(a) + i2z(b), bits)
        if op == 'sub':
            if isinstance(b, int) and b >= M // 2:
                return self.wrap(st, i2z(a) + (M - b), bits)
            return self.wrap(st, i2z(a) - i2z(b), bits)
        if op == 'mul':
            if isinstance(b, int) and b >= M // 2:
                return self.wrap(st, i2z(a) * (b - M), bits)
            if isinstance(a, int) and a >= M // 2:
                return self.wrap(st, i2z(b) * (a - M), bits)
            return self.wrap(st, i2z(a) * i2z(b), bits)
        if op == 'udiv':
            return self.divmod(st, a, b, loc)[0]
        if op == 'urem':
            return self.divmod(st, a, b, loc)[1]
        if op in ('sdiv', 'srem'):
            if isinstance(b, int) and 0 < b < M // 2:
                s = i2z(self.signed(st, a, bits))
                if st.prove(s >= 0):
                    q, r = simp(s / b), simp(s % b)
                    return q if op == 'sdiv' else r
                e = self.exact_div(s, b)
                if e is not None:
                    return self.wrap(st, i2z(e), bits) if op == 'sdiv' else 0
                q = z3.If(s >= 0, s / b, -((-s) / b))
                r = simp(s - q * b)
                return self.wrap(st, q if op == 'sdiv' else r, bits)
            if st.prove(z3.And(i2z(a) < M // 2, i2z(b) < M // 2)):
                q, r = self.divmod(st, a, b, loc)
                return q if op == 'sdiv' else r
            raise Unsupported(op)
        if op == 'shl' and isinstance(b, int):
            return self.wrap(st, i2z(a) * (1 << b), bits)
        if op == 'lshr' and isinstance(b, int):
            return simp(i2z(a) / (1 << b))
        if op == 'ashr' and isinstance(b, int):
            s = self.signed(st, a, bits)
            return self.wrap(st, i2z(s) / (1 << b), bits)
        if op == 'and':
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int):
                if b == M - 1:
                    return a
                if b == 0:
                    return 0
                if (b & (b + 1)) == 0:
                    return simp(i2z(a) % (b + 1))
                c = M - b
                if (c & (c - 1)) == 0:  # high mask
                    if c == M // 2:
                        return z3.If(i2z(a) >= c, z3.IntVal(c), z3.IntVal(0))
                    return simp(i2z(a) - i2z(a) % c)
                if (b & (b - 1)) == 0:
                    return simp(((i2z(a) / b) % 2) * b)
            if z3.is_expr(a) and z3.is_expr(b) and a.eq(b):
                return a
        if op == 'or':
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int):
                if b == 0:
                    return a
                if b == M // 2:
                    return self.pick(st, i2z(a) >= b, a, i2z(a) + b)
                if (b & (b - 1)) == 0:
                    bit = (i2z(a) / b) % 2
                    return simp(i2z(a) + z3.If(bit == 0, z3.IntVal(b), z3.IntVal(0)))
            # x*2^k | y with y < 2^k
            for x, y in ((a, b), (b, a)):
                for k in (32, 16, 8, 63, 1):
                    if k < bits and not isinstance(y, int) and st.prove(z3.And(i2z(y) < 2 ** k, i2z(x) % (2 ** k) == 0)):
                        return simp(i2z(x) + i2z(y))
        if op == 'xor':
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int):
                if b == M - 1:
                    return simp(M - 1 - i2z(a))
                if (b & (b - 1)) == 0:
                    bit = (i2z(a) / b) % 2
                    return simp(z3.If(bit == 0, i2z(a) + b, i2z(a) - b))
        # uninterpreted fallback, with the range known
        self.note_assumed("uninterpreted %s i%d" % (op, bits))
        f = z3.Function("ui_%s_%d" % (op, bits), I, I, I)
        v = f(i2z(a), i2z(b))
        st.assume(z3.And(v >= 0, v < M))
        if op == 'and':
            st.assume(z3.And(v <= i2z(a), v <= i2z(b)))
        return v

    def pick(self, st, c, a, b):
        if st.prove(c):
            return simp(i2z(a))
        if st.prove(z3.Not(c)):
            return simp(i2z(b))
        return z3.If(c, i2z(a), i2z(b))

    def note_assumed(self, s):
        self.assumed_calls.add(s)

    cmplog = None

    def icmp(self, st, pred, a, b, ty):
        r = self.icmp0(st, pred, a, b, ty)
        if self.cmplog is not None:
            for x, y in ((a, b),):
                if isinstance(x, PtrInt):
                    x = x.ptr
                if isinstance(y, PtrInt):
                    y = y.ptr
                if isinstance(x, Ptr) and isinstance(y, Ptr):
                    if x.r is y.r and x.r is not None:
                        q = self.ptr_cmp_terms(x, y)
                        if q:
                            for u, v, _ in q[2]:
                                self.cmplog.append((u, v))
                elif isinstance(x, Scaled) or isinstance(y, Scaled):
                    for u in (x, y):
                        if isinstance(u, Scaled):
                            self.cmplog.append((u.t, u.t))
                else:
                    self.cmplog.append((x, y))
        return r

    def icmp0(self, st, pred, a, b, ty):
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            raise Unsupported("function pointer comparison")
        if isinstance(a, PtrInt):
            a = a.ptr
        if isinstance(b, PtrInt):
            b = b.ptr
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if not (isinstance(a, Ptr) and isinstance(b, Ptr)):
                if isinstance(a, Ptr) and b == 0:
                    b = NULL
                elif isinstance(b, Ptr) and a == 0:
                    a = NULL
                else:
                    raise Unsupported("pointer/int comparison")
            if pred in ('eq', 'ne'):
                e = self.ptr_eq(a, b)
                return simp(z3.Not(b2z(e))) if pred == 'ne' else e
            if pred in ('ult', 'slt'):
                return self.ptr_lt(a, b, True)
            if pred in ('ule', 'sle'):
                return self.ptr_lt(a, b, False)
            if pred in ('ugt', 'sgt'):
                return self.ptr_lt(b, a, True)
            return self.ptr_lt(b, a, False)
        if ty.k == 'int' and ty.bits == 1:
            a, b = b2z(self.tobool(st, a)), b2z(self.tobool(st, b))
            if pred == 'eq':
                return simp(a == b)
            if pred == 'ne':
                return simp(a != b)
            raise Unsupported("i1 compare")
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return self.fresh("undefcmp", B)
        if isinstance(a, Scaled) and isinstance(b, Scaled) and a.k == b.k and pred in ('eq', 'ne', 'slt', 'sgt', 'sle', 'sge'):
            x, y = i2z(a.t), i2z(b.t)
        elif isinstance(a, Scaled) and isinstance(b, int) and b == 0 and pred in ('eq', 'ne', 'slt', 'sgt', 'sle', 'sge'):
            x, y = i2z(a.t), z3.IntVal(0)
        else:
            a, b = self.toint(st, a), self.toint(st, b)
            if pred[0] == 's':
                a, b = self.signed(st, a, ty.bits), self.signed(st, b, ty.bits)
            x, y = i2z(a), i2z(b)
        o = pred if pred in ('eq', 'ne') else pred[1:]
        return simp({'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[o])

    # ------------------------------------------------------------ evaluation
    def ev(self, st, v):
        k = v.k
        if k == 'v':
            return st.env[v.v]
        if k == 'c':
            if v.ty.bits == 1:
                return bool(v.v)
            return self.aff(v.v, st, v.ty.bits)
        if k == 'null':
            return NULL
        if k == 'undef':
            if v.ty.k == 'int':
                return self.fresh_int(st, "undef", v.ty.bits)
            if v.ty.k in ('struct', 'array'):
                n = len(v.ty.fields) if v.ty.k == 'struct' else v.ty.count
                return tuple(Opaque("undef") for _ in range(n))
            return Opaque("undef")
        if k == 'zero':
            return self.zero(v.ty)
        if k == 'g':
            return self.global_ptr(st, v.v)
        if k == 'fn':
            return FnPtr(v.v)
        if k == 'cexpr':
            if v.v == 'gep':
                return self.gep(st, self.ev(st, v.ops[0]), v.x, [self.evi(st, o) for o in v.ops[1:]])
            if v.v in ('bitcast', 'addrspacecast'):
                return self.ev(st, v.ops[0])
            if v.v == 'ptrtoint':
                return PtrInt(self.ev(st, v.ops[0]))
            raise Unsupported("constexpr " + str(v.v))
        if k == 'agg':
            return tuple(self.ev(st, o) for o in v.ops)
        return Opaque(k)

    def zero(self, t):
        if t.k == 'int':
            return False if t.bits == 1 else 0
        if t.k == 'ptr':
            return NULL
        if t.k == 'struct':
            return tuple(self.zero(f) for f in t.fields)
        if t.k == 'array' and isinstance(t.count, int) and t.count <= 4096:
            return tuple(self.zero(t.elem) for _ in range(t.count))
        return Opaque("zero")

    def global_ptr(self, st, name):
        key = ('glob', name)
        if key not in st.ghost:
            t, iv, const = self.prog.glob(name)
            r = Region("@" + name, t, 'global', const)
            st.ghost[key] = r
            n0 = len(st.regs)
            try:
                self.init_region(st, r)
                if const and iv is not None:
                    self.init_global(st, r, (), t, iv)
            finally:
                del st.regs[n0:]
        return Ptr(st.ghost[key])

    def init_global(self, st, r, p, t, iv):
        if t.k == 'struct':
            for i, f in enumerate(t.fields):
                self.init_global(st, r, p + (('f', i),), f, iv.ops[i] if iv.k == 'agg' else iv)
        elif t.k == 'array':
            if isinstance(t.count, int) and t.count <= 4096:
                for i in range(t.count):
                    self.init_global(st, r, p + (('x', i),), t.elem, iv.ops[i] if iv.k == 'agg' else iv)
        elif t.k == 'int' and iv.k in ('c', 'zero'):
            key = (r, tmpl(p), 'v')
            v = self.ev(st, iv) if iv.k == 'c' else (False if t.bits == 1 else 0)
            ix = idxs(p)
            w, self.writes = self.writes, None
            self.wr(st, key, ix, b2z(v) if t.bits == 1 else i2z(v))
            self.writes = w
        elif t.k == 'ptr' and not idxs(p):
            if iv.k in ('zero', 'null'):
                st.mem[(r, tmpl(p), 'v')] = NULL
            elif iv.k in ('g', 'cexpr'):
                st.mem[(r, tmpl(p), 'v')] = self.ev(st, iv)

    def evi(self, st, v):
        """index operand: signed interpretation"""
        x = self.ev(st, v)
        if isinstance(x, Scaled):
            return x
        if isinstance(x, Opaque):
            raise Unsupported("undef index")
        x = self.toint(st, x, v.ty.bits)
        return self.signed(st, x, v.ty.bits)

    # ------------------------------------------------------------ CFG
    def cfg(self, f):
        if f.name in self.loopinfo:
            return self.loopinfo[f.name]
        n = len(f.blocks)
        succ = [[] for _ in range(n)]
        for b in f.blocks:
            t = b.ins[-1]
            if t.op == 'br':
                succ[b.idx] = [o.v for o in t.ops if o.k == 'bb']
            elif t.op == 'switch':
                succ[b.idx] = [o.v for o in t.ops if o.k == 'bb']
        pred = [[] for _ in range(n)]
        for i, s in enumerate(succ):
            for j in s:
                pred[j].append(i)
        reach = set()
        stk = [0]
        while stk:
            x = stk.pop()
            if x in reach:
                continue
            reach.add(x)
            stk += succ[x]
        dom = {i: set(reach) for i in reach}
        dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for i in sorted(reach):
                if i == 0:
                    continue
                ps = [dom[p] for p in pred[i] if p in reach]
                nd = set.intersection(*ps) | {i} if ps else {i}
                if nd != dom[i]:
                    dom[i] = nd
                    ch = True
        loops = {}
        for i in reach:
            for j in succ[i]:
                if j in dom[i]:
                    body = loops.setdefault(j, {j})
                    stk = [i]
                    while stk:
                        x = stk.pop()
                        if x in body:
                            continue
                        body.add(x)
                        stk += [p for p in pred[x] if p in reach]
        # irreducibility check
        color = {}
        order = []

        def dfs(root):
            st = [(root, iter(succ[root]))]
            color[root] = 1
            while st:
                x, it = st[-1]
                adv = False
                for y in it:
                    if color.get(y, 0) == 1 and y not in dom[x]:
                        raise Unsupported("irreducible control flow")
                    if color.get(y, 0) == 0:
                        color[y] = 1
                        st.append((y, iter(succ[y])))
                        adv = True
                        break
                if not adv:
                    color[x] = 2
                    st.pop()

        dfs(0)
        self.loopinfo[f.name] = (succ, pred, loops)
        return self.loopinfo[f.name]

    # ------------------------------------------------------------ execution
    def run(self, f, st):
        """execute function body from the entry; returns [(state, retval)]"""
        self.f = f
        self.cfg(f)
        self.entry_state = st.fork()
        outs = self.exec_from(st, 0, None, None)
        rets = []
        for o in outs:
            if o[0] == 'ret':
                rets.append((o[1], o[2]))
            else:
                raise Unsupported("unexpected outcome")
        return rets

    def enter(self, st, blk, prev):
        vals = []
        for ins in self.f.blocks[blk].ins:
            if ins.op != 'phi':
                break
            for v, b in ins.ops:
                if b == prev:
                    vals.append((ins.id, self.ev(st, v)))
                    break
            else:
                raise Unsupported("phi without incoming edge")
        for i, v in vals:
            st.env[i] = v

    def exec_from(self, st, blk, prev, within, at_header=False):
        succ, pred, loops = self.cfg(self.f)
        out = []
        work = [(st, blk, prev, at_header)]
        while work:
            st, blk, prev, athdr = work.pop()
            if not athdr:
                if within is not None:
                    if blk == within:
                        self.enter(st, blk, prev)
                        out.append(('back', st, prev))
                        continue
                    if blk not in loops[within]:
                        out.append(('exit', st, blk, prev))
                        continue
                if blk in loops:
                    for o in self.do_loop(blk, st, prev):
                        if o[0] == 'exit':
                            work.append((o[1], o[2], o[3], False))
                        else:
                            out.append(o)
                    continue
                self.enter(st, blk, prev)
            try:
                res = self.exec_block(st, blk)
            except PathEnd:
                self.paths += 1
                continue
            for r in res:
                if r[0] == 'goto':
                    work.append((r[1], r[2], blk, False))
                else:
                    self.paths += 1
                    out.append(r)
            if len(out) + len(work) + self.paths > self.MAXPATHS:
                raise Unsupported("too many paths")
            if self.deadline and time.time() > self.deadline:
                raise Unsupported("time budget for this function exhausted")
        return out

    def exec_block(self, st, blk):
        """returns list of ('goto', st, blk) / ('ret', st, v)"""
        states = [(st, 0)]
        res = []
        block = self.f.blocks[blk]
        while states:
            s, i = states.pop()
            n = len(block.ins)
            dead = False
            while i < n:
                ins = block.ins[i]
                i += 1
                if ins.op == 'phi':
                    continue
                if ins.loc and not self.quiet:
                    self.covered_locs.add(ins.loc)
                if ins.op in ('br', 'switch', 'ret', 'unreachable'):
                    res += self.term(s, ins)
                    dead = True
                    break
                try:
                    forks = self.instr(s, ins)
                except PathEnd:
                    self.paths += 1
                    dead = True
                    break
                if forks is not None:
                    for fs in forks[1:]:
                        states.append((fs, i))
                    if not forks:
                        dead = True
                        break
                    s = forks[0]
        return res

    def term(self, st, ins):
        if ins.op == 'ret':
            v = self.ev(st, ins.ops[0]) if ins.ops else None
            return [('ret', st, v)]
        if ins.op == 'unreachable':
            self.oblige(st, FALSE, "reached-unreachable", ("bounds",), ins.loc)
            return []
        if ins.op == 'br':
            if len(ins.ops) == 1:
                return [('goto', st, ins.ops[0].v)]
            c = self.tobool(st, self.ev(st, ins.ops[0]))
            if isinstance(c, bool):
                return [('goto', st, ins.ops[1].v if c else ins.ops[2].v)]
            r = []
            a = st.fork()
            a.assume(c)
            if a.feasible():
                r.append(('goto', a, ins.ops[1].v))
            st.assume(z3.Not(c))
            if st.feasible():
                r.append(('goto', st, ins.ops[2].v))
            return r
        if ins.op == 'switch':
            v = self.toint(st, self.ev(st, ins.ops[0]))
            dflt = ins.ops[1].v
            cases = [(self.ev(st, ins.ops[k]), ins.ops[k + 1].v) for k in range(2, len(ins.ops), 2)]
            if isinstance(v, int):
                for c, b in cases:
                    if c == v:
                        return [('goto', st, b)]
                return [('goto', st, dflt)]
            r = []
            for c, b in cases:
                a = st.fork()
                a.assume(i2z(v) == i2z(c))
                if a.feasible():
                    r.append(('goto', a, b))
            for c, b in cases:
                st.assume(i2z(v) != i2z(c))
            if st.feasible():
                r.append(('goto', st, dflt))
            return r

    def instr(self, st, ins):
        op = ins.op
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            if ins.ty.k != 'int':
                st.env[ins.id] = Opaque(op)
                return
            st.env[ins.id] = self.binop(st, op, self.ev(st, ins.ops[0]), self.ev(st, ins.ops[1]), ins.ty.bits, ins.loc)
        elif op == 'icmp':
            st.env[ins.id] = self.icmp(st, ins.x, self.ev(st, ins.ops[0]), self.ev(st, ins.ops[1]), ins.ops[0].ty)
        elif op == 'gep':
            st.env[ins.id] = self.gep(st, self.ev(st, ins.ops[0]), ins.x, [self.evi(st, o) for o in ins.ops[1:]])
        elif op == 'load':
            p = self.ev(st, ins.ops[0])
            if isinstance(p, Opaque):
                raise Unsupported("load from opaque pointer")
            st.env[ins.id] = self.load(st, p, ins.ty, ins.loc)
        elif op == 'store':
            p = self.ev(st, ins.ops[1])
            v = self.ev(st, ins.ops[0])
            if isinstance(v, Opaque) and ins.ops[0].k == 'undef':
                return
            self.store(st, p, v, ins.ops[0].ty, ins.loc)
        elif op == 'alloca':
            n = cval(self.ev(st, ins.ops[0]))
            r = Region("%s" % ins.id, ins.x, 'alloca')
            # re-execution of the same alloca (loop) gets a new region
            self.init_region(st, r, alive=False)
            st.env[ins.id] = Ptr(r)
        elif op == 'select':
            c = self.tobool(st, self.ev(st, ins.ops[0]))
            a, b = self.ev(st, ins.ops[1]), self.ev(st, ins.ops[2])
            if isinstance(c, bool):
                st.env[ins.id] = a if c else b
                return
            if ins.ty.k == 'int':
                if isinstance(a, (Scaled, PtrInt)) or isinstance(b, (Scaled, PtrInt)):
                    a, b = self.toint(st, a), self.toint(st, b)
                if ins.ty.bits == 1:
                    a, b = b2z(self.tobool(st, a)), b2z(self.tobool(st, b))
                    st.env[ins.id] = simp(z3.If(c, a, b))
                else:
                    a, b = self.toint(st, a), self.toint(st, b)
                    if st.prove(c):
                        st.env[ins.id] = a
                    elif st.prove(z3.Not(c)):
                        st.env[ins.id] = b
                    else:
                        st.env[ins.id] = simp(z3.If(c, i2z(a), i2z(b)))
                return
            s2 = st.fork()
            st.assume(c)
            st.env[ins.id] = a
            s2.assume(z3.Not(c))
            s2.env[ins.id] = b
            return [s for s in (st, s2) if s.feasible()]
        elif op in ('zext', 'trunc', 'sext', 'bitcast', 'freeze', 'inttoptr', 'ptrtoint'):
            v = self.ev(st, ins.ops[0])
            sb, db = ins.ops[0].ty.bits, ins.ty.bits
            if op == 'zext':
                if isinstance(v, Scaled):
                    v = self.toint(st, v)
                st.env[ins.id] = self.toint(st, v, sb)
            elif op == 'trunc':
                v = self.toint(st, v, sb)
                if db == 1:
                    if isinstance(v, int):
                        st.env[ins.id] = v % 2 == 1
                    elif z3.is_app_of(v, z3.Z3_OP_ITE) and cval(v.arg(1)) == 1 and cval(v.arg(2)) == 0:
                        st.env[ins.id] = v.arg(0)
                    elif st.prove(v <= 1):
                        st.env[ins.id] = simp(v == 1)
                    else:
                        st.env[ins.id] = simp(v % 2 == 1)
                elif isinstance(v, int):
                    st.env[ins.id] = v % (2 ** db)
                elif st.prove(v < 2 ** db):
                    st.env[ins.id] = v
                else:
                    st.env[ins.id] = simp(v % (2 ** db))
            elif op == 'sext':
                if sb == 1:
                    c = self.tobool(st, v)
                    st.env[ins.id] = (2 ** db - 1 if c else 0) if isinstance(c, bool) else z3.If(c, z3.IntVal(2 ** db - 1), z3.IntVal(0))
                else:
                    s = self.signed(st, self.toint(st, v, sb), sb)
                    st.env[ins.id] = self.wrap(st, i2z(s), db)
            elif op == 'ptrtoint':
                st.env[ins.id] = PtrInt(v)
            elif op == 'inttoptr':
                if isinstance(v, PtrInt):
                    st.env[ins.id] = v.ptr
                else:
                    raise Unsupported("inttoptr")
            else:
                st.env[ins.id] = v
        elif op == 'extractvalue':
            v = self.ev(st, ins.ops[0])
            for k in ins.x:
                v = v[k]
            st.env[ins.id] = v
        elif op == 'insertvalue':
            v = self.ev(st, ins.ops[0])
            if len(ins.x) != 1:
                raise Unsupported("nested insertvalue")
            v = list(v)
            v[ins.x[0]] = self.ev(st, ins.ops[1])
            st.env[ins.id] = tuple(v)
        elif op == 'call':
            return self.call(st, ins)
        elif op == 'fcmp':
            st.env[ins.id] = self.fresh("fcmp", B)
        else:
            raise Unsupported("instruction " + op)

    def call(self, st, ins):
        tgt = ins.x
        if tgt.k != 'fn':
            raise Unsupported("indirect call")
        name = tgt.v
        dem = self.prog.dem.get(name, name)
        if name.startswith("llvm."):
            return self.intrinsic(st, ins, name)
        args = [self.ev(st, o) if o.k != 'other' else None for o in ins.ops]
        h = self.mcache.get(name)
        if h is None:
            for rx, fn in self.models:
                if re.search(rx, dem):
                    h = self.mcache[name] = (rx, fn)
                    break
        if h is None:
            raise Unsupported("call to unmodelled function " + dem)
        self.callees.add((dem, h[0]))
        r = h[1](self, st, args, ins, dem)
        if r is None:
            return
        if isinstance(r, list):  # [(state, retval)]
            for s, v in r:
                if ins.ty.k != 'void':
                    s.env[ins.id] = v
            return [s for s, _ in r]
        st.env[ins.id] = r[0] if isinstance(r, tuple) and len(r) == 1 else r

    def intrinsic(self, st, ins, name):
        if name.startswith(("llvm.lifetime", "llvm.dbg", "llvm.experimental.noalias", "llvm.invariant")):
            return
        if name.startswith("llvm.assume"):
            return
        a = [self.ev(st, o) if o.k != 'other' else None for o in ins.ops]
        if name.startswith("llvm.expect"):
            st.env[ins.id] = a[0]
            return
        if name.startswith("llvm.is.constant"):
            st.env[ins.id] = False
            return
        if name.startswith(("llvm.umin", "llvm.umax", "llvm.smin", "llvm.smax")):
            x, y = self.toint(st, a[0]), self.toint(st, a[1])
            bits = ins.ty.bits
            if name[5] == 's':
                cx, cy = i2z(self.signed(st, x, bits)), i2z(self.signed(st, y, bits))
            else:
                cx, cy = i2z(x), i2z(y)
            c = cx < cy if 'min' in name else cx > cy
            st.env[ins.id] = self.pick(st, c, x, y)
            return
        if name.startswith(("llvm.memcpy", "llvm.memmove")):
            return self.memcpy(st, a[0], a[1], a[2], ins.loc)
        if name.startswith("llvm.memset"):
            return self.memset(st, a[0], a[1], a[2], ins.loc)
        if name.startswith(("llvm.uadd.with.overflow", "llvm.usub.with.overflow", "llvm.umul.with.overflow")):
            op = name[6:9]
            bits = ins.ty.fields[0].bits
            x, y = i2z(self.toint(st, a[0])), i2z(self.toint(st, a[1]))
            t = {'add': x + y, 'sub': x - y, 'mul': x * y}[op]
            st.env[ins.id] = (self.wrap(st, t, bits), simp(z3.Or(t < 0, t >= 2 ** bits)))
            return
        raise Unsupported("intrinsic " + name)

    # ---- bulk memory
    def elem_unit(self, ptr, nbytes_term):
        pass

    def memcpy(self, st, d, s, n, loc):
        if isinstance(n, Scaled):
            pass
        c = cval(n) if not isinstance(n, Scaled) else None
        if c == 0 and c is not None and not isinstance(n, Scaled):
            return
        if not isinstance(d, Ptr) or not isinstance(s, Ptr):
            raise Unsupported("memcpy of opaque pointer")
        d, s = self.past_end(d), self.past_end(s)
        # whole-object copy: find enclosing zero-offset types of that size on both sides
        if not isinstance(n, Scaled):
            sd, ss = self.obj_of_size(d, n), self.obj_of_size(s, n)
            for x in sd:
                for y in ss:
                    tx, ty_ = self.type_at(x.r, x.p), self.type_at(y.r, y.p)
                    if self.same_ty(tx, ty_):
                        return self.copy_object(st, x, y, loc)
            # shapes differ: padded copies (e.g. tail padding only)
            if c is not None:
                return self.copy_bytes(st, d, s, c, loc)
        # array segment copy
        dp, sp = self.array_elem_ptr(d), self.array_elem_ptr(s)
        if dp is None or sp is None:
            raise Unsupported("memcpy shape")
        (dq, di, det), (sq, si, set_) = dp, sp
        es = det.size
        if set_.size != es or not isinstance(es, int):
            raise Unsupported("memcpy element size mismatch")
        cnt = self.div_exact(st, n, es)
        self.seg_copy(st, (d.r, dq, di, det), (s.r, sq, si, set_), cnt, loc)

    def div_exact(self, st, n, es):
        if isinstance(n, Scaled):
            if n.k % es:
                raise Unsupported("segment size")
            return simp(i2z(n.t) * (n.k // es))
        q = self.exact_div(i2z(n), es)
        if q is None:
            raise Unsupported("segment size %s" % n)
        return q

    def obj_of_size(self, ptr, n):
        out = []
        p = ptr.p
        t = self.type_at(ptr.r, p)
        chain = [p]
        q = p
        while q and (q[-1] == ('f', 0) or (q[-1][0] == 'x' and cval(q[-1][1]) == 0)):
            q = q[:-1]
            chain.append(q)
        q, u = p, t
        while not is_elem(u) and (u.k == 'array' or (u.k == 'struct' and u.fields)):
            if u.k == 'array':
                q, u = q + (('x', 0),), u.elem
            else:
                q, u = q + (('f', 0),), u.fields[0]
            chain.append(q)
        for q in chain:
            t = self.type_at(ptr.r, q)
            sz = self.sizeof(t)
            if sz is not None and cval(sub(sz, n)) == 0:
                out.append(Ptr(ptr.r, q))
        return out

    def copy_bytes(self, st, d, s, n, loc):
        """concrete-size copy of consecutive int leaves"""
        off = 0
        while off < n:
            try:
                sp, sk, stt = self.to_leaf(self.byte_gep(st, s, off))
                dp, dk, dt = self.to_leaf(self.byte_gep(st, d, off))
            except Unsupported:
                # padding bytes
                off += 1
                continue
            if sk == dk == 'int' and stt.bits == dt.bits:
                v = self.load(st, sp, stt, loc)
                self.store(st, dp, v, dt, loc)
                off += stt.bits // 8
            elif sk == dk == 'ptr':
                self.store(st, dp, self.load(st, sp, stt, loc), dt, loc)
                off += 8
            else:
                raise Unsupported("byte copy")

    def array_elem_ptr(self, ptr):
        """(template prefix path, index, elem type) of the innermost array this pointer designates an element of"""
        q = ptr.p
        while q:
            if q[-1][0] == 'x':
                at = self.type_at(ptr.r, q[:-1])
                return q[:-1], q[-1][1], at.elem
            if q[-1][1] != 0:
                break
            q = q[:-1]
        p, t = ptr.p, self.type_at(ptr.r, ptr.p)
        while True:
            if t.k == 'array':
                return p, 0, t.elem
            if t.k == 'struct' and t.fields and not is_elem(t):
                p, t = p + (('f', 0),), t.fields[0]
            else:
                return None

    def seg_copy(self, st, D, S, cnt, loc):
        (dr, dq, di, det), (sr, sq, si, set_) = D, S
        cnt, di, si = i2z(cnt), i2z(di), i2z(si)
        if any(x[0] == 'x' for x in dq) or any(x[0] == 'x' for x in sq):
            raise Unsupported("segment copy in nested array")
        dn = i2z(self.aff(self.type_at(dr, dq).count))
        sn = i2z(self.aff(self.type_at(sr, sq).count))
        self.oblige(st, cnt >= 0, "memmove-size", ("bounds",), loc)
        self.oblige(st, z3.Implies(cnt > 0, z3.And(di >= 0, di + cnt <= dn)), "memmove-dst-in-bounds", ("bounds",), loc)
        self.oblige(st, z3.Implies(cnt > 0, z3.And(si >= 0, si + cnt <= sn)), "memmove-src-in-bounds", ("bounds",), loc)
        dl = list(self.leaves(det))
        sl = list(self.leaves(set_))
        if [x[1] for x in dl] != [x[1] for x in sl]:
            raise Unsupported("segment copy leaf mismatch")
        news = []
        for (tp, kind, lt), (tp2, _, lt2) in zip(dl, sl):
            if kind != 'int':
                raise Unsupported("segment copy of non-int")
            kd, ks = (dr, tmpl(dq) + (('x',),) + tp, 'v'), (sr, tmpl(sq) + (('x',),) + tp2, 'v')
            old, src = st.mem[kd], st.mem[ks]
            new = self.fresh("mv", old.sort())
            k = z3.Int("k!mv")
            st.assume(z3.ForAll([k], z3.Select(new, k) == z3.If(z3.And(k >= di, k < di + cnt), z3.Select(src, k - di + si),
                                                              z3.Select(old, k)), patterns=[z3.Select(new, k)]))
            st.assume(z3.ForAll([k], z3.Implies(z3.And(k >= si, k < si + cnt), z3.Select(new, k - si + di) == z3.Select(src, k)),
                                patterns=[z3.Select(src, k)]))
            if self.writes is not None:
                self.writes.append((kd, ['seg'], None))
            news.append((kd, new))
        for kd, new in news:
            st.mem[kd] = new

    def memset(self, st, d, v, n, loc):
        if isinstance(d, Ptr):
            d = self.past_end(d)
        c = cval(n) if not isinstance(n, Scaled) else None
        cv = cval(v)
        objs = self.obj_of_size(d, n) if not isinstance(n, Scaled) else []
        if objs and cv == 0:
            o = objs[0]
            self.bounds(st, o, loc, "memset")
            for tp, kind, lt in self.leaves(self.type_at(o.r, o.p)):
                if kind == 'elem':
                    key = (o.r, tmpl(o.p) + tp, 'r')
                    nx = sum(1 for s in tp if s[0] == 'x')
                    al = self.rd(st, (o.r, tmpl(o.p) + tp, 'a'), list(idxs(o.p)) + [self.fresh("k") for _ in range(nx)])
                    self.oblige(st, z3.Not(al), "memset-over-a-live-element", ("lifetime",), loc, assume_after=False)
                    z = z3.IntVal(0)
                    for _ in range(nx):
                        z = z3.K(I, z)
                    self.wr(st, key, idxs(o.p), z)
                    continue
                key = (o.r, tmpl(o.p) + tp, 'v')
                if kind == 'int':
                    z = FALSE if lt.bits == 1 else z3.IntVal(0)
                    nx = sum(1 for s in tp if s[0] == 'x')
                    for _ in range(nx):
                        z = z3.K(I, z)
                    self.wr(st, key, idxs(o.p), z)
                elif kind == 'ptr':
                    st.mem[key] = NULL
            return
        ap = self.array_elem_ptr(d)
        if ap is None:
            raise Unsupported("memset shape")
        q, i, et = ap
        while et.k == 'struct' and len(et.fields) == 1:
            et = et.fields[0]
        lv = list(self.leaves(self.type_at(d.r, q).elem))
        if len(lv) != 1 or lv[0][1] != 'int' or (lv[0][2].bits != 8 and cv != 0):
            raise Unsupported("memset element")
        cnt = self.div_exact(st, n, lv[0][2].bits // 8)
        kd = (d.r, tmpl(q) + (('x',),) + lv[0][0], 'v')
        old = st.mem[kd]
        new = self.fresh("ms", old.sort())
        k = z3.Int("k!ms")
        i, cnt = i2z(i), i2z(cnt)
        dn = i2z(self.aff(self.type_at(d.r, q).count))
        self.oblige(st, cnt >= 0, "memset-size", ("bounds",), loc)
        self.oblige(st, z3.Implies(cnt > 0, z3.And(i >= 0, i + cnt <= dn)), "memset-in-bounds", ("bounds",), loc)
        st.assume(z3.ForAll([k], z3.Select(new, k) == z3.If(z3.And(k >= i, k < i + cnt), i2z(v), z3.Select(old, k)),
                            patterns=[z3.Select(new, k)]))
        if self.writes is not None:
            self.writes.append((kd, ['seg'], None))
        st.mem[kd] = new

    # ------------------------------------------------------------ loops
    from .loops import do_loop
