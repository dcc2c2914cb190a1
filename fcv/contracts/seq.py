"""Sequence contracts shared by FixedVector / FixedDeque / FixedCircularDeque / FixedString.

A View gives the abstraction: len(s), at(s,k), inv(s) for a container region in a state s.
"""
import z3
from ..engine import *
from ..spec import Spec
from ..models import *

F, L, P, BD = ("functional",), ("lifetime",), ("policy",), ("bounds",)


class VecView:
    """FixedVector: {size, array[N]} - located by type, not by position"""
    lenbits = 64

    def __init__(self, ex, r, cap):
        self.r, self.ex, self.cap = r, ex, cap
        ls = list(ex.leaves(r.ty))
        arr = [(tp, k, t) for tp, k, t in ls if any(s[0] == 'x' for s in tp)]
        sc = [(tp, k, t) for tp, k, t in ls if not any(s[0] == 'x' for s in tp) and k == 'int' and t.bits == 64]
        if len(arr) != 1 or len(sc) != 1:
            raise Unsupported("unexpected FixedVector layout")
        self.tp, self.kind, self.lt = arr[0]
        self.sz = (r, sc[0][0], 'v')
        self.opaque = self.kind == 'elem'

    def len(self, s):
        return i2z(s.mem[self.sz])

    def slot(self, s, k):
        return k

    def base(self, s):
        """position of element 0 in the backing array"""
        return z3.IntVal(0)

    def scal_base(self, s):
        """value of the code's index variables for element 0"""
        return self.base(s)

    def raw(self, s, i):
        return z3.Select(s.mem[(self.r, self.tp, 'v')], i2z(i))

    def at(self, s, k):
        return self.raw(s, self.slot(s, k))

    def alive(self, s, i):
        return z3.Select(s.mem[(self.r, self.tp, 'a')], i2z(i))

    def inv_assume(self, s):
        out = [self.len(s) >= 0, self.len(s) <= self.cap]
        if self.opaque:
            k = z3.Int("k!inv")
            a = s.mem[(self.r, self.tp, 'a')]
            out.append(z3.ForAll([k], z3.Select(a, k) == z3.And(k >= 0, k < self.len(s)), patterns=[z3.Select(a, k)]))
        return out

    def inv_goals(self, s):
        k = self.ex.fresh("k")
        out = [("inv-size<=capacity", F + BD, z3.And(self.len(s) >= 0, self.len(s) <= self.cap))]
        if self.opaque:
            out.append(("inv-live-iff-below-size", L, self.alive(s, k) == z3.And(k >= 0, k < self.len(s))))
        return out

    def ptr(self, s, k):
        """pointer to element k"""
        p = []
        for st in self.tp:
            p.append(st if st[0] == 'f' else ('x', self.slot(s, k)))
        return Ptr(self.r, tuple(p))

    def all_dead(self, s):
        k = self.ex.fresh("k")
        return [("no-element-left-alive", L, z3.Not(self.alive(s, k)))] if self.opaque else []

    def trigger(self, s, k):
        return []


class DequeView(VecView):
    """FixedDeque: circular array + {start, distance}; element k is at position start - OFFSET + k, taken modulo the capacity"""
    OFFSET = 2 ** 63 - 1

    def __init__(self, ex, r, cap):
        self.r, self.ex, self.cap = r, ex, cap
        ls = list(ex.leaves(r.ty))
        arr = [(tp, k, t) for tp, k, t in ls if any(s[0] == 'x' for s in tp)]
        sc = [(tp, k, t) for tp, k, t in ls if not any(s[0] == 'x' for s in tp) and k == 'int' and t.bits == 64]
        if len(arr) != 1 or len(sc) != 2:
            raise Unsupported("unexpected FixedDeque layout")
        self.tp, self.kind, self.lt = arr[0]
        self.start, self.sz = (r, sc[0][0], 'v'), (r, sc[1][0], 'v')
        self.opaque = self.kind == 'elem'
        i = [j for j, s in enumerate(self.tp) if s[0] == 'x'][0]
        self.ci = Circ(r, self.tp[:i], sc[0][0], cap, self.OFFSET)
        ex.circ[r] = self.ci

    def init(self, st, raw):
        st.ghost[self.ci.key] = 'raw' if raw else None

    def z(self, s):
        return simp(i2z(s.mem[self.start]) - self.OFFSET)

    def base(self, s):
        return i2z(self.z(s))

    def scal_base(self, s):
        return i2z(s.mem[self.start])

    def w(self, s):
        return i2z(self.ex.circ_w(s, self.ci))

    def slot(self, s, k):
        return simp(i2z(self.z(s)) + i2z(k))

    def inv_assume(self, s):
        z = i2z(self.z(s))
        out = [self.len(s) >= 0, self.len(s) <= self.cap, z >= -2 ** 62, z <= 2 ** 62]
        if self.opaque:
            k = z3.Int("k!inv")
            a = s.mem[(self.r, self.tp, 'a')]
            # positions outside the window denote no slot; they are taken to be dead, which constrains nothing
            out.append(z3.ForAll([k], z3.Select(a, k) == z3.And(k >= z, k < z + self.len(s)), patterns=[z3.Select(a, k)]))
        return out

    def inv_goals(self, s):
        k = self.ex.fresh("k")
        z, w, n = i2z(self.z(s)), self.w(s), self.cap
        e = getattr(self.ex, "entry_state", None)
        near = z == 0
        if e is not None:
            for r, ci in self.ex.circ.items():
                if (r, ci.start, 'v') in e.mem:
                    z0 = i2z(e.mem[(r, ci.start, 'v')]) - self.OFFSET
                    dr = n + getattr(self.ex, 'drift', 0)
                    near = z3.Or(near, z3.And(z >= -dr, z <= dr), z3.And(z >= z0 - dr, z <= z0 + dr))
        out = [("inv-size<=capacity", F + BD, z3.And(self.len(s) >= 0, self.len(s) <= n)), ("inv-start-moves-by-at-most-the-capacity", F + BD, near)]
        if self.opaque:
            out.append(("inv-live-iff-below-size", L, z3.Implies(z3.And(k >= w, k < w + n), self.alive(s, k) == (k < z + self.len(s)))))
        return out


def seq_is(v, s, n, fn, name="contents"):
    """len == n and forall k<n: at(k)==fn(k)"""
    k = v.ex.fresh("k")
    return [(name + ":size", F, v.len(s) == n),
            (name + ":elements", F, z3.Implies(z3.And(k >= 0, k < n), v.at(s, k) == fn(k)))]


class SeqContracts:
    xcap = 2

    def __init__(self, View, ty, elemty, trivial=False, circ=False, ty2=None):
        self.View, self.ty, self.et, self.triv, self.circ = View, ty, elemty, trivial, circ
        self.ty2 = ty2      # the same container with capacity 2N+xcap

    # ---- argument builders
    def self_(self, c, name="self", const=False, alive=None, cross=False):
        r = c.region(name, self.ty2 if cross else self.ty, alive=alive)
        v = self.View(c.ex, r, 2 * c.N + self.xcap if cross else c.N)
        if hasattr(v, 'init'):
            v.init(c.st, alive is False)
        if not const:
            c.modifies.add(name)
        return r, v

    def live(self, c, name="self", const=False, cross=False):
        r, v = self.self_(c, name, const, cross=cross)
        c.assume(v.inv_assume(c.st))
        c.x.setdefault('terms', []).append(v.len(c.st))
        return r, v

    def raw(self, c, name="self"):
        r, v = self.self_(c, name, alive=False)
        c.x.setdefault('uninit', set()).add(name)
        return r, v

    def elem(self, c, name="v", modifies=False):
        """single element argument in its own storage"""
        r = c.region(name, self.et, alive=None)
        if modifies:
            c.modifies.add(name)
        key = (r, (), 'v')
        if is_elem(self.et):
            c.assume(c.st.mem[(r, (), 'a')])
        c.x['v'] = c.st.mem[key]
        c.x['vr'] = r
        return Ptr(r)

    def vend(self, c, s, moved):
        """argument element is still alive; unchanged unless moved from"""
        r = c.x['vr']
        out = []
        if is_elem(self.et):
            out.append(("argument-still-alive", L, s.mem[(r, (), 'a')]))
        if not moved:
            out.append(("argument-unchanged", F, s.mem[(r, (), 'v')] == c.x['v']))
        return out

    def rng(self, c, name="rng"):
        """range [first, first+n) of live elements in its own storage"""
        n = c.nat("n_" + name, 2 ** 40)
        t = Ty('array', elem=self.et, count=n)
        r = c.region(name, t, alive=None)
        if is_elem(self.et):
            k = z3.Int("k!rng")
            a = c.st.mem[(r, (('x',),), 'a')]
            c.assume(z3.ForAll([k], z3.Select(a, k) == z3.And(k >= 0, k < n), patterns=[z3.Select(a, k)]))
        c.x['n'], c.x['rr'] = n, r
        if c.ex.fname.endswith('input_it'):
            c.ex.drift = n   # one push per incoming element
        c.x['rv'] = lambda k: z3.Select(c.S0.mem[(r, (('x',),), 'v')], k)
        c.x.setdefault('terms', []).append(n)
        return Ptr(r, (('x', 0),)), n

    # ---- generic spec
    def mk(self, fn, args, result, policy=None, ret=None, name=None, pre=None, extra=None, **kw):
        """args(c) -> list ; result(c) -> (n, fn(k)) expected contents of self or None if self is unchanged"""
        def setup(c):
            c.args = args(c)
            if pre:
                c.assume(pre(c))

        def post(c, s, rv):
            v = c.x['view']
            out = list(v.inv_goals(s))
            r = result(c) if result else (v.len(c.S0), lambda k: v.at(c.S0, k))
            out += seq_is(v, s, *r)
            if ret:
                out += ret(c, s, rv)
            if extra:
                out += extra(c, s, rv)
            return out
        return Spec(fn, setup, post, policy, name=name, **kw)

    def v(self, c):
        return c.x['view']

    def n0(self, c):
        return c.x['view'].len(c.S0)

    def a0(self, c, k):
        return c.x['view'].at(c.S0, k)

    def selfarg(self, c, const=False):
        r, v = self.live(c, const=const)
        c.x['view'] = v
        return Ptr(r)

    def rawarg(self, c):
        r, v = self.raw(c)
        c.x['view'] = v
        return Ptr(r)

    def elem_ret(self, c, s, rv, k, name="returns-element"):
        """returned pointer designates element k of self"""
        v = c.x['view']
        want = v.ptr(s, k)
        if not isinstance(rv, Ptr) or rv.r is not want.r:
            return [(name, F, FALSE)]
        return [(name, F, b2z(c.ex.ptr_eq(rv, want)))]

    # ------------------------------------------------------------------ the contracts
    def append_seq(self, c, val):
        n0 = self.n0(c)
        if self.circ:       # when full, the front element is discarded
            d = z3.If(n0 >= c.N, 1, 0)
            return n0 + 1 - d, lambda k: z3.If(k < n0 - d, self.a0(c, k + d), val(c))
        return n0 + 1, lambda k: z3.If(k < n0, self.a0(c, k), val(c))

    def insert_seq(self, c, i, m, fn):
        """contents after inserting m elements fn(0..m) at i"""
        n0 = self.n0(c)
        if self.circ:
            # when there is no room, elements before the position are discarded from the front, then incoming ones from their front
            ex = z3.If(n0 + m > c.N, n0 + m - c.N, 0)
            de = z3.If(ex > i, i, ex)
            di = ex - de
            c.x['drop'] = de
            return n0 + m - ex, lambda k: z3.If(k < i - de, self.a0(c, k + de), z3.If(k < i - de + (m - di), fn(k - (i - de) + di), self.a0(c, k - (m - di) + de)))
        return n0 + m, lambda k: z3.If(k < i, self.a0(c, k), z3.If(k < i + m, fn(k - i), self.a0(c, k - m)))

    def erase_seq(self, c, i, j):
        n0 = self.n0(c)
        return n0 - (j - i), lambda k: z3.If(k < i, self.a0(c, k), self.a0(c, k + (j - i)))

    def default_value(self, c):
        return dflE if is_elem(self.et) else z3.IntVal(0)

    def made_value(self, c):
        if is_elem(self.et):
            return mkE(c.x['i'])
        if self.et.bits > 32:
            return z3.If(c.x['i'] < 2 ** 31, c.x['i'], c.x['i'] + 2 ** self.et.bits - 2 ** 32)
        return c.x['i'] % (2 ** self.et.bits)

    def intarg(self, c):
        c.x['i'] = c.nat("ival", bits=32)
        return c.x['i']

    def pos(self, c, name="pos", hi=None):
        p = c.nat(name)
        n = c.x['view'].len(c.st)
        c.assume(p <= n if hi is None else p < n)
        c.x[name] = p
        c.x.setdefault('terms', []).append(p)
        return p

    def common(self):
        sp = []
        S, E_, R = self.selfarg, self.elem, self.rng
        full = (lambda c: {"length_error": self.n0(c) >= c.N}) if not self.circ else None
        rover = lambda n: (lambda c: {"length_error": n(c) > c.N})
        over = rover if not self.circ else lambda n: None
        cap_ = (lambda c, n: z3.If(n > c.N, c.N, n)) if self.circ else (lambda c, n: n)

        def add(*a, **k):
            sp.append(self.mk(*a, **k))

        add("ctor_default", lambda c: [self.rawarg(c)], lambda c: (z3.IntVal(0), lambda k: z3.IntVal(0)))
        add("ctor_count", lambda c: [self.rawarg(c), self.cnt(c)], lambda c: (cap_(c, c.x['cnt']), lambda k: self.default_value(c)),
            over(lambda c: c.x['cnt']))
        add("ctor_count_val", lambda c: [self.rawarg(c), self.cnt(c), E_(c)], lambda c: (cap_(c, c.x['cnt']), lambda k: c.x['v']),
            over(lambda c: c.x['cnt']), extra=lambda c, s, rv: self.vend(c, s, False))
        # a circular container keeps the last N elements
        rr = (lambda c: (c.x['n'], c.x['rv'])) if not self.circ else (lambda c: (cap_(c, c.x['n']), lambda k: c.x['rv'](k + c.x['n'] - cap_(c, c.x['n']))))
        add("ctor_range", lambda c: [self.rawarg(c), *R(c)], rr, over(lambda c: c.x['n']))
        add("ctor_ilist", lambda c: [self.rawarg(c), *R(c)], rr, over(lambda c: c.x['n']))

        # copy / move
        def other(c, const):
            r, v = self.live(c, "other", const)
            c.x['ov'] = v
            return Ptr(r)
        ov = lambda c: (c.x['ov'].len(c.S0), lambda k: c.x['ov'].at(c.S0, k))

        def other_same(c, s, rv):
            v = c.x['ov']
            return [(n + "(other)", t, g) for n, t, g in v.inv_goals(s) + seq_is(v, s, *ov(c), name="source-unchanged")]

        def other_cleared(c, s, rv):
            v = c.x['ov']
            if self.triv:
                return other_same(c, s, rv)
            return [(n + "(other)", t, g) for n, t, g in v.inv_goals(s) + [("source-cleared", F, v.len(s) == 0)]]

        def other_valid(c, s, rv):
            v = c.x['ov']
            return [(n + "(other)", t, g) for n, t, g in v.inv_goals(s)]
        add("copy_ctor", lambda c: [self.rawarg(c), other(c, True)], ov, extra=other_same)
        add("move_ctor", lambda c: [self.rawarg(c), other(c, False)], ov, extra=other_cleared)
        add("copy_assign", lambda c: [S(c), other(c, True)], ov, extra=other_same)
        add("move_assign", lambda c: [S(c), other(c, False)], ov, extra=other_valid)
        add("self_copy_assign", lambda c: [S(c)] * 2, None)
        add("self_move_assign", lambda c: [S(c)] * 2, None)

        def dpost(c, s, rv):
            return self.v(c).all_dead(s)
        sp.append(Spec("dtor", lambda c: setattr(c, 'args', [S(c)]), dpost))

        # sizes
        def rs(val):
            return lambda c: (c.x['cnt'], lambda k: z3.If(k < self.n0(c), self.a0(c, k), val(c)))
        if self.has('resize'):
            add("resize", lambda c: [S(c), self.cnt(c)], rs(self.default_value), rover(lambda c: c.x['cnt']))
            add("resize_val", lambda c: [S(c), self.cnt(c), E_(c)], rs(lambda c: c.x['v']), rover(lambda c: c.x['cnt']),
                extra=lambda c, s, rv: self.vend(c, s, False))
        app = lambda val: (lambda c: self.append_seq(c, val))
        add("push_back_copy", lambda c: [S(c), E_(c)], app(lambda c: c.x['v']), full, extra=lambda c, s, rv: self.vend(c, s, False))
        add("push_back_move", lambda c: [S(c), E_(c, modifies=True)], app(lambda c: c.x['v']), full, extra=lambda c, s, rv: self.vend(c, s, True))
        add("push_back_copy", lambda c: [S(c), self.alias(c)], app(lambda c: c.x['v']), full, name="push_back_copy@aliasing")
        add("emplace_back", lambda c: [S(c), self.intarg(c)], app(self.made_value), full,
            ret=lambda c, s, rv: [("returns-reference-to-new-back", F, i2z(rv) == 1)])
        add("pop_back", lambda c: [S(c)], lambda c: (self.n0(c) - 1, lambda k: self.a0(c, k)),
            lambda c: {"empty_container_access": self.n0(c) == 0})
        retpos = lambda c, s, rv: [("returns-position", F, i2z(rv) == c.x['pos'] - c.x.get('drop', 0))]
        one = lambda val: (lambda c: self.insert_seq(c, c.x['pos'], 1, lambda k: val(c)))
        add("insert_copy", lambda c: [S(c), self.pos(c), E_(c)], one(lambda c: c.x['v']), full, ret=retpos,
            extra=lambda c, s, rv: self.vend(c, s, False))
        add("insert_copy", lambda c: [S(c), self.pos(c), self.alias(c)], one(lambda c: c.x['v']), full, ret=retpos, name="insert_copy@aliasing")
        add("insert_move", lambda c: [S(c), self.pos(c), E_(c, modifies=True)], one(lambda c: c.x['v']), full, ret=retpos,
            extra=lambda c, s, rv: self.vend(c, s, True))
        add("emplace", lambda c: [S(c), self.pos(c), self.intarg(c)], one(self.made_value), full, ret=retpos)
        many = lambda c: self.insert_seq(c, c.x['pos'], c.x['n'], c.x['rv'])
        for fn in ("insert_range", "insert_ilist", "insert_input_it"):
            if self.circ and fn == "insert_input_it":
                continue   # bounded stand-in (groups.py)
            add(fn, lambda c: [S(c), self.pos(c), *R(c)], many, over(lambda c: self.n0(c) + c.x['n']), ret=retpos,
                unchanged=fn != "insert_input_it")
        add("assign_count", lambda c: [S(c), self.cnt(c), E_(c)], lambda c: (cap_(c, c.x['cnt']), lambda k: c.x['v']), over(lambda c: c.x['cnt']),
            extra=lambda c, s, rv: self.vend(c, s, False))
        for fn in ("assign_range", "assign_ilist", "assign_input_it"):
            add(fn, lambda c: [S(c), *R(c)], rr, over(lambda c: c.x['n']), unchanged=False)
        add("erase_one", lambda c: [S(c), self.pos(c, hi=1)], lambda c: self.erase_seq(c, c.x['pos'], c.x['pos'] + 1), ret=retpos)

        def er(c):
            return [S(c), self.pos(c), self.pos(c, "last")]
        add("erase_range", er, lambda c: self.erase_seq(c, c.x['pos'], c.x['last']), lambda c: {"invalid_argument": c.x['pos'] > c.x['last']}, ret=retpos)
        add("clear", lambda c: [S(c)], lambda c: (z3.IntVal(0), lambda k: z3.IntVal(0)))

        # observers
        def obs(fn, argf, retf, policy=None, **kw):
            add(fn, argf, None, policy, ret=retf, **kw)
        oor = lambda c: {"out_of_range": c.x['i'] >= self.n0(c)}

        def idx(c):
            c.x['i'] = c.nat("idx")
            return c.x['i']
        for fn in ("index_op", "index_op_mut", "at", "at_mut"):
            obs(fn, lambda c: [S(c, True), idx(c)], lambda c, s, rv: self.elem_ret(c, s, rv, c.x['i']), oor)
        emp = lambda c: {"empty_container_access": self.n0(c) == 0}
        for fn in ("front", "front_mut"):
            obs(fn, lambda c: [S(c, True)], lambda c, s, rv: self.elem_ret(c, s, rv, 0), emp)
        for fn in ("back", "back_mut"):
            obs(fn, lambda c: [S(c, True)], lambda c, s, rv: self.elem_ret(c, s, rv, self.n0(c) - 1), emp)
        val = lambda name, f: (lambda c, s, rv: [(name, F, (b2z(rv) if not isinstance(rv, int) or isinstance(rv, bool) else i2z(rv)) == f(c))])
        obs("size", lambda c: [S(c, True)], val("size", lambda c: self.n0(c)))
        obs("empty", lambda c: [S(c, True)], val("empty", lambda c: self.n0(c) == 0))
        obs("max_size", lambda c: [S(c, True)], val("max_size", lambda c: c.N))
        # iterators
        for fn in ("it_deref", "it_deref_mut"):
            obs(fn, lambda c: [S(c, True), self.pos(c, hi=1)], lambda c, s, rv: self.elem_ret(c, s, rv, c.x['pos']))
        obs("it_subscript", lambda c: [S(c, True), self.pos(c), self.pos(c, "last", hi=1)], lambda c, s, rv: self.elem_ret(c, s, rv, c.x['last']))
        for fn in ("rit_deref", "rit_deref_mut"):
            obs(fn, lambda c: [S(c, True), self.pos(c, hi=1)], lambda c, s, rv: self.elem_ret(c, s, rv, self.n0(c) - 1 - c.x['pos']))
        for fn in ("it_distance", "rit_distance"):
            obs(fn, lambda c: [S(c, True)], val("distance", lambda c: self.n0(c)))
        for fn in ("it_convert", "it_arrow", "it_plus_mut"):
            obs(fn, lambda c: [S(c, True), self.pos(c, hi=1)], lambda c, s, rv: self.elem_ret(c, s, rv, c.x['pos']))
        obs("rit_convert", lambda c: [S(c, True), self.pos(c, hi=1)], lambda c, s, rv: self.elem_ret(c, s, rv, self.n0(c) - 1 - c.x['pos']))
        for fn, rev in (("it_inc", 0), ("it_inc_mut", 0), ("rit_inc", 1)):
            obs(fn, lambda c: [S(c, True), self.pos(c)], lambda c, s, rv, rev=rev: self.elem_ret(c, s, rv, self.n0(c) - 2 - c.x['pos'] if rev else c.x['pos'] + 1),
                pre=lambda c: c.x['pos'] + 1 < c.x['view'].len(c.st))
        for fn, rev in (("it_dec", 0), ("it_dec_mut", 0), ("rit_dec", 1)):
            obs(fn, lambda c: [S(c, True), self.pos(c)], lambda c, s, rv, rev=rev: self.elem_ret(c, s, rv, self.n0(c) - c.x['pos'] if rev else c.x['pos'] - 1),
                pre=lambda c: c.x['pos'] >= 2)
        obs("rit_subscript", lambda c: [S(c, True), self.pos(c), self.pos(c, "last", hi=1)], lambda c, s, rv: self.elem_ret(c, s, rv, self.n0(c) - 1 - c.x['last']))
        sval = lambda name, f: (lambda c, s, rv: [(name, F, z3.Or(i2z(rv) == f(c), i2z(rv) == f(c) + 2 ** 64))])
        for fn in ("it_diff_mixed", "rit_diff"):
            obs(fn, lambda c: [S(c, True), self.pos(c), self.pos(c, "last")], sval("iterator-difference", lambda c: c.x['pos'] - c.x['last']))
        obs("rit_base", lambda c: [S(c, True), self.pos(c)], val("base-position", lambda c: self.n0(c) - c.x['pos']))

        def cmpv(c):
            i, j = c.x['pos'], c.x['last']
            w = lambda b, k: z3.If(b, z3.IntVal(k), z3.IntVal(0))
            return w(i < j, 1) + w(i > j, 2) + w(i <= j, 4) + w(i >= j, 8) + w(i == j, 16) + w(i != j, 32)
        for fn in ("it_cmp", "it_cmp_mut", "it_cmp_mixed", "rit_cmp", "rit_cmp_mixed"):
            obs(fn, lambda c: [S(c, True), self.pos(c), self.pos(c, "last")], val("iterator-order", cmpv))
        for fn in ("it_arith", "rit_arith"):
            obs(fn, lambda c: [S(c, True), self.pos(c), self.pos(c, "last")], val("iterator-arithmetic", lambda c: c.x['pos']),
                pre=lambda c: c.x['last'] <= c.x['pos'])
        # comparisons
        sp.append(self.equal_spec())
        sp.append(self.less_spec())
        if self.ty2 is not None:
            sp += [self.equal_spec("equal_other", True), self.less_spec("less_other", True)]
        return sp

    def front_specs(self):
        sp = []
        S, E_ = self.selfarg, self.elem
        full = (lambda c: {"length_error": self.n0(c) >= c.N}) if not self.circ else None
        plus1 = (lambda c: z3.If(self.n0(c) >= c.N, c.N, self.n0(c) + 1)) if self.circ else (lambda c: self.n0(c) + 1)
        pre = lambda val: (lambda c: (plus1(c), lambda k: z3.If(k == 0, val(c), self.a0(c, k - 1))))
        add = lambda *a, **k: sp.append(self.mk(*a, **k))
        add("push_front_copy", lambda c: [S(c), E_(c)], pre(lambda c: c.x['v']), full, extra=lambda c, s, rv: self.vend(c, s, False))
        add("push_front_copy", lambda c: [S(c), self.alias(c)], pre(lambda c: c.x['v']), full, name="push_front_copy@aliasing")
        add("push_front_move", lambda c: [S(c), E_(c, modifies=True)], pre(lambda c: c.x['v']), full, extra=lambda c, s, rv: self.vend(c, s, True))
        add("emplace_front", lambda c: [S(c), self.intarg(c)], pre(self.made_value), full, ret=lambda c, s, rv: [("returns-reference-to-new-front", F, i2z(rv) == 1)])
        add("pop_front", lambda c: [S(c)], lambda c: (self.n0(c) - 1, lambda k: self.a0(c, k + 1)), lambda c: {"empty_container_access": self.n0(c) == 0})
        return sp

    def filter_specs(self):
        """erase(container, value) / erase_if: the elements that do not match remain, in order"""
        cnt = z3.Function("cnt", I, I)
        keep = z3.Function("keepf", I, B)

        def mk(fn, args, match):
            def setup(c):
                c.args = args(c)
                v, st = c.x['view'], c.st
                k = z3.Int("k!cnt")
                a0 = v.at(st, k)
                n0 = v.len(st)
                c.assume(cnt(0) == 0)
                c.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n0), z3.And(keep(k) == z3.Not(match(c, a0)), cnt(k + 1) == cnt(k) + z3.If(keep(k), 1, 0))),
                                   patterns=[keep(k)]))
                ba = v.base(st)
                ap = v.at(st, k - ba)
                c.assume(z3.ForAll([k], z3.Implies(z3.And(k >= ba, k < ba + n0), keep(k - ba) == z3.Not(match(c, ap))), patterns=[match(c, ap)]))
                c.x['cnt'] = cnt

            def hints(c, li):
                v = c.x['view']
                out = []
                k = z3.Int("k!flt")
                n0 = v.len(c.S0)
                ba, sb = v.base(c.S0), v.scal_base(c.S0)
                scal = [(nm, lambda s, g=g: g(s) - sb) for nm, g in li.scal]
                for (na, ga) in scal + [("n0", lambda s: n0)]:
                    out.append(("cnt(%s)=%s" % (na, na), lambda s, ga=ga: cnt(ga(s)) == ga(s)))
                    out.append(("kept below %s" % na, lambda s, ga=ga: z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < ga(s)), z3.And(keep(k), cnt(k) == k)), patterns=[keep(k)])))
                    out.append(("cnt monotone to %s" % na, lambda s, ga=ga: z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < ga(s), keep(k)), z3.And(cnt(k) < cnt(ga(s)), cnt(k) >= 0)), patterns=[keep(k)])))
                    out.append(("compacted to %s" % na, lambda s, ga=ga: z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < ga(s), keep(k)), v.at(s, cnt(k)) == v.at(c.S0, k)), patterns=[keep(k)])))
                    out.append(("unread from %s" % na, lambda s, ga=ga: z3.ForAll([k], z3.Implies(z3.And(k >= ba + ga(s), k < ba + n0), v.at(s, k - ba) == v.at(c.S0, k - ba)), patterns=[v.at(s, k - ba)])))
                    for (nb, gb) in scal:
                        if nb != na:
                            out.append(("%s=cnt(%s)" % (nb, na), lambda s, ga=ga, gb=gb: gb(s) == cnt(ga(s))))
                return out

            def post(c, s, rv):
                v = c.x['view']
                n0 = v.len(c.S0)
                k = c.ex.fresh("k")
                return list(v.inv_goals(s)) + [
                    ("filtered:size", F, v.len(s) == cnt(n0)),
                    ("filtered:elements-in-order", F, z3.Implies(z3.And(k >= 0, k < n0, z3.Not(match(c, v.at(c.S0, k)))), v.at(s, cnt(k)) == v.at(c.S0, k))),
                    ("returns-number-removed", F, i2z(rv) == n0 - cnt(n0))]
            return Spec(fn, setup, post, hints=[hints], cost=3)
        if not is_elem(self.et):
            return []
        out = [mk("erase_value", lambda c: [self.selfarg(c), self.elem(c)], lambda c, x: self.velem_eq(x, c.x['v']))]
        if is_elem(self.et):
            def pargs(c):
                a = self.selfarg(c)
                r = c.region("pred", Ty('int', bits=8))
                return [a] + ([] if False else [])
            out.append(mk("erase_pred", lambda c: [self.selfarg(c)], lambda c, x: predE(x)))
        return out

    def has(self, what):
        return True

    def cnt(self, c):
        c.x['cnt'] = c.nat("cnt")
        c.x.setdefault('terms', []).append(c.x['cnt'])
        return c.x['cnt']

    def alias(self, c):
        """argument reference that designates an element of the container itself"""
        v = c.x['view']
        j = c.nat("aliasidx")
        c.assume(j < v.len(c.st))
        c.x['v'] = v.at(c.st, j)
        return v.ptr(c.st, j)

    def velem_eq(self, x, y):
        return eqE(x, y) if is_elem(self.et) else x == y

    def velem_ord(self, x):
        if is_elem(self.et):
            return ordE(x)
        b = self.et.bits
        return z3.If(x < 2 ** (b - 1), x, x - 2 ** b) if self.signed_elem() else x

    def signed_elem(self):
        return True

    def two(self, c, cross=False):
        r, v = self.live(c, "self", True)
        c.x['view'] = v
        r2, v2 = self.live(c, "other", True, cross)
        c.x['ov'] = v2
        return [Ptr(r), Ptr(r2)]

    def equal_spec(self, fn="equal", cross=False):
        def setup(c):
            c.args = self.two(c, cross)

        def post(c, s, rv):
            a, b = c.x['view'], c.x['ov']
            k = z3.Int("k!eq")
            ks = c.ex.fresh("k")
            n, m = a.len(c.S0), b.len(c.S0)
            rv = b2z(c.ex.tobool(s, rv))
            s, ba = c.S0, a.base(c.S0)
            return [("true-implies-equal", F, z3.Implies(rv, z3.And(n == m, z3.Implies(z3.And(ks >= 0, ks < n), self.velem_eq(a.at(s, ks), b.at(s, ks)))))),
                    ("false-implies-different", F, z3.Implies(z3.Not(rv), z3.Or(n != m, z3.Exists([k], z3.And(k >= ba, k < ba + n, z3.Not(self.velem_eq(a.at(s, k - ba), b.at(s, k - ba))))))))]
        return Spec(fn, setup, post)

    def less_spec(self, fn="less", cross=False):
        """lexicographic order, stated over the first difference d (which exists for any two finite sequences)"""
        def setup(c):
            c.args = self.two(c, cross)
            a, b, st = c.x['view'], c.x['ov'], c.st
            n, m, ba = a.len(st), b.len(st), a.base(st)
            d, k = z3.Int("firstdiff"), z3.Int("k!lex")
            o = self.velem_ord
            mn = z3.If(n < m, n, m)
            c.assume(z3.And(d >= 0, d <= mn, z3.Implies(d < mn, o(a.at(st, d)) != o(b.at(st, d)))))
            c.assume(z3.ForAll([k], z3.Implies(z3.And(k >= ba, k < ba + d), o(a.at(st, k - ba)) == o(b.at(st, k - ba))), patterns=[a.at(st, k - ba)]))
            c.x['d'] = d

        def post(c, s, rv):
            a, b = c.x['view'], c.x['ov']
            n, m, d = a.len(c.S0), b.len(c.S0), c.x['d']
            rv = b2z(c.ex.tobool(s, rv))
            o = self.velem_ord
            want = z3.Or(z3.And(d == n, d < m), z3.And(d < n, d < m, o(a.at(c.S0, d)) < o(b.at(c.S0, d))))
            return [("less-iff-lexicographic(true)", F, z3.Implies(rv, want)), ("less-iff-lexicographic(false)", F, z3.Implies(z3.Not(rv), z3.Not(want)))]
        return Spec(fn, setup, post)


def vec_specs(C):
    sp = C.common()
    S = C.selfarg
    val = lambda name, f: (lambda c, s, rv: [(name, F, (b2z(rv) if not isinstance(rv, int) or isinstance(rv, bool) else i2z(rv)) == f(c))])
    for fn in ("data", "data_mut"):
        sp.append(C.mk(fn, lambda c: [S(c, True)], None, ret=lambda c, s, rv: C.elem_ret(c, s, rv, 0)))
    sp.append(C.mk("capacity", lambda c: [S(c, True)], None, ret=val("capacity", lambda c: c.N)))
    sp.append(C.mk("is_full", lambda c: [S(c, True)], None, ret=val("is_full", lambda c: C.n0(c) == c.N)))
    sp += C.filter_specs()
    sp.append(C.mk("reserve", lambda c: [S(c), C.cnt(c)], None, lambda c: {"length_error": c.x['cnt'] > c.N}))
    return sp


def deque_specs(C):
    sp = C.common()
    S = C.selfarg
    val = lambda name, f: (lambda c, s, rv: [(name, F, (b2z(rv) if not isinstance(rv, int) or isinstance(rv, bool) else i2z(rv)) == f(c))])
    sp.append(C.mk("is_full", lambda c: [S(c, True)], None, ret=val("is_full", lambda c: C.n0(c) == c.N)))
    sp += C.filter_specs()
    sp += C.front_specs()
    return sp
