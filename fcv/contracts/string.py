"""FixedString: a bounded sequence of characters that is always NUL-terminated."""
from .seq import *

H32, H31 = 2 ** 32, 2 ** 31
sgn32 = lambda t: z3.If(t >= H31, t - H32, t)


class StrView(VecView):
    def inv_assume(self, s):
        return super().inv_assume(s) + [self.raw(s, self.len(s)) == 0]

    def inv_goals(self, s):
        return super().inv_goals(s) + [("inv-null-terminated", F, self.raw(s, self.len(s)) == 0)]


class StrContracts(SeqContracts):
    xcap = 1

    def velem_ord(self, x):
        return x

    def ch(self, c, name="v"):
        c.x['v'] = c.nat(name, bits=8)
        return c.x['v']

    def cstr(self, c, name="rng"):
        """NUL-terminated argument: the characters before its first NUL"""
        n = c.nat("n_" + name, 2 ** 40)
        r = c.region(name, Ty('array', elem=self.et, count=simp(n + 1)), alive=None)
        a, k = c.st.mem[(r, (('x',),), 'v')], z3.Int("k!rng")
        c.assume(z3.Select(a, n) == 0)
        c.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.Select(a, k) != 0), patterns=[z3.Select(a, k)]))
        c.x['n'], c.x['rr'] = n, r
        c.x['rv'] = lambda k: z3.Select(c.S0.mem[(r, (('x',),), 'v')], k)
        c.x.setdefault('terms', []).append(n)
        c.ex.cstr_len = lambda st, p: n if p.r is r else None
        return [Ptr(r, (('x', 0),))]

    def cmp_range(self, c):
        """self against the range argument: first difference d (exists for any two finite sequences)"""
        v, st = c.x['view'], c.st
        n, m = v.len(st), c.x['n']
        rv = lambda k: z3.Select(st.mem[(c.x['rr'], (('x',),), 'v')], k)
        return n, m, (lambda k: v.at(st, k)), rv

    def src(self, fn):
        return self.cstr if fn.endswith("_cstr") else self.rng

    def specs(self):
        sp = []
        S, R = self.selfarg, self.rng
        add = lambda *a, **k: sp.append(self.mk(*a, **k))
        over = lambda n: (lambda c: {"length_error": n(c) > c.N})
        nil = lambda c: (z3.IntVal(0), lambda k: z3.IntVal(0))
        rr = lambda c: (c.x['n'], c.x['rv'])
        cv = lambda c: (c.x['cnt'], lambda k: c.x['v'])
        me = lambda c, s, rv: [("returns-itself", F, i2z(rv) == 1)]
        retpos = lambda c, s, rv: [("returns-position", F, i2z(rv) == c.x['pos'])]
        val = lambda name, f: (lambda c, s, rv: [(name, F, (b2z(rv) if not isinstance(rv, int) or isinstance(rv, bool) else i2z(rv)) == f(c))])
        U = dict(unchanged=False)   # the length is checked after the characters were stored
        add("ctor_default", lambda c: [self.rawarg(c)], nil)
        add("ctor_count_val", lambda c: [self.rawarg(c), self.cnt(c), self.ch(c)], cv, over(lambda c: c.x['cnt']), **U)
        for fn in ("ctor_ilist", "ctor_view", "ctor_cstr"):
            add(fn, lambda c, R=self.src(fn): [self.rawarg(c), *R(c)], rr, over(lambda c: c.x['n']), **U)

        def other(c, const):
            r, v = self.live(c, "other", const)
            c.x['ov'] = v
            return Ptr(r)
        ov = lambda c: (c.x['ov'].len(c.S0), lambda k: c.x['ov'].at(c.S0, k))
        osame = lambda c, s, rv: [(n + "(other)", t, g) for n, t, g in c.x['ov'].inv_goals(s) + seq_is(c.x['ov'], s, *ov(c), name="source-unchanged")]
        ovalid = lambda c, s, rv: [(n + "(other)", t, g) for n, t, g in c.x['ov'].inv_goals(s)]
        add("copy_ctor", lambda c: [self.rawarg(c), other(c, True)], ov, extra=osame)
        add("move_ctor", lambda c: [self.rawarg(c), other(c, False)], ov, extra=ovalid)
        add("copy_assign", lambda c: [S(c), other(c, True)], ov, extra=osame)
        add("move_assign", lambda c: [S(c), other(c, False)], ov, extra=ovalid)
        rs = lambda val_: (lambda c: (c.x['cnt'], lambda k: z3.If(k < self.n0(c), self.a0(c, k), val_(c))))
        add("resize", lambda c: [S(c), self.cnt(c)], rs(lambda c: z3.IntVal(0)), over(lambda c: c.x['cnt']), **U)
        add("resize_val", lambda c: [S(c), self.cnt(c), self.ch(c)], rs(lambda c: c.x['v']), over(lambda c: c.x['cnt']), **U)
        app1 = lambda c: (self.n0(c) + 1, lambda k: z3.If(k < self.n0(c), self.a0(c, k), c.x['v']))
        full = over(lambda c: self.n0(c) + 1)
        add("push_back", lambda c: [S(c), self.ch(c)], app1, full, **U)
        add("plus_char", lambda c: [S(c), self.ch(c)], app1, full, ret=me, **U)
        add("pop_back", lambda c: [S(c)], lambda c: (self.n0(c) - 1, lambda k: self.a0(c, k)), lambda c: {"empty_container_access": self.n0(c) == 0})
        add("insert_char", lambda c: [S(c), self.pos(c), self.ch(c)], lambda c: self.insert_seq(c, c.x['pos'], 1, lambda k: c.x['v']), full, ret=retpos, **U)
        for fn in ("insert_range", "insert_ilist", "insert_view", "insert_input_it"):
            add(fn, lambda c: [S(c), self.pos(c), *R(c)], lambda c: self.insert_seq(c, c.x['pos'], c.x['n'], c.x['rv']), over(lambda c: self.n0(c) + c.x['n']), ret=retpos, **U)
        add("assign_count", lambda c: [S(c), self.cnt(c), self.ch(c)], cv, over(lambda c: c.x['cnt']), ret=me, **U)
        for fn in ("assign_range", "assign_ilist", "assign_view", "assign_cstr", "asg_cstr", "asg_view", "asg_ilist"):
            add(fn, lambda c, R=self.src(fn): [S(c), *R(c)], rr, over(lambda c: c.x['n']), ret=me, **U)
        appn = lambda c: (self.n0(c) + c.x['n'], lambda k: z3.If(k < self.n0(c), self.a0(c, k), c.x['rv'](k - self.n0(c))))
        for fn in ("append_range", "append_ilist", "append_view", "plus_view", "plus_ilist", "append_cstr", "plus_cstr"):
            add(fn, lambda c, R=self.src(fn): [S(c), *R(c)], appn, over(lambda c: self.n0(c) + c.x['n']), ret=me, **U)
        add("erase_one", lambda c: [S(c), self.pos(c, hi=1)], lambda c: self.erase_seq(c, c.x['pos'], c.x['pos'] + 1), ret=retpos)
        add("erase_range", lambda c: [S(c), self.pos(c), self.pos(c, "last")], lambda c: self.erase_seq(c, c.x['pos'], c.x['last']),
            lambda c: {"invalid_argument": c.x['pos'] > c.x['last']}, ret=retpos)
        add("clear", lambda c: [S(c)], nil)

        def obs(fn, argf, retf, policy=None, **kw):
            add(fn, argf, None, policy, ret=retf, **kw)

        def idx(c, name="i"):
            c.x[name] = c.nat("idx_" + name)
            return c.x[name]
        for fn in ("index_op", "index_op_mut", "at", "at_mut"):
            obs(fn, lambda c: [S(c, True), idx(c)], lambda c, s, rv: self.elem_ret(c, s, rv, c.x['i']), lambda c: {"out_of_range": c.x['i'] >= self.n0(c)})
        emp = lambda c: {"empty_container_access": self.n0(c) == 0}
        for fn in ("front", "front_mut"):
            obs(fn, lambda c: [S(c, True)], lambda c, s, rv: self.elem_ret(c, s, rv, 0), emp)
        for fn in ("back", "back_mut"):
            obs(fn, lambda c: [S(c, True)], lambda c, s, rv: self.elem_ret(c, s, rv, self.n0(c) - 1), emp)
        for fn in ("data", "data_mut", "c_str", "view_data"):
            obs(fn, lambda c: [S(c, True)], lambda c, s, rv: self.elem_ret(c, s, rv, 0))
        for fn, f in (("size", self.n0), ("length", self.n0), ("view_size", self.n0), ("it_distance", self.n0), ("rit_distance", self.n0), ("max_size", lambda c: c.N),
                      ("capacity", lambda c: c.N), ("empty", lambda c: self.n0(c) == 0), ("is_full", lambda c: self.n0(c) == c.N)):
            obs(fn, lambda c: [S(c, True)], val(fn, f))
        add("reserve", lambda c: [S(c), self.cnt(c)], None, lambda c: {"length_error": c.x['cnt'] > c.N})
        for fn in ("it_deref", "it_deref_mut"):
            obs(fn, lambda c: [S(c, True), self.pos(c, hi=1)], lambda c, s, rv: self.elem_ret(c, s, rv, c.x['pos']))
        obs("rit_deref", lambda c: [S(c, True), self.pos(c, hi=1)], lambda c, s, rv: self.elem_ret(c, s, rv, self.n0(c) - 1 - c.x['pos']))
        sub = lambda c: [S(c, True), idx(c, 'i'), idx(c, 'l')]
        oob = lambda c: {"out_of_range": c.x['i'] >= self.n0(c)}
        rest = lambda c: self.n0(c) - c.x['i']
        obs("substr_size", sub, val("substr-length", lambda c: z3.If(c.x['l'] < rest(c), c.x['l'], rest(c))), oob)
        obs("substr_data", sub, lambda c, s, rv: self.elem_ret(c, s, rv, c.x['i']), oob)
        # comparisons
        sp += [self.equal_spec(), self.less_spec(), self.equal_spec("equal_other", True), self.less_spec("less_other", True)]

        def first_diff(c, n, m, fa, fb):
            d, k = z3.Int("firstdiff"), z3.Int("k!lex")
            mn = z3.If(n < m, n, m)
            c.assume(z3.And(d >= 0, d <= mn, z3.Implies(d < mn, fa(d) != fb(d))))
            c.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < d), fa(k) == fb(k)), patterns=[fa(k)]))
            c.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < d), fa(k) == fb(k)), patterns=[fb(k)]))
            return d

        def vcmp(fn, f):
            def setup(c):
                c.args = [S(c, True), *self.src(fn)(c)]
                c.x['q'] = self.cmp_range(c)
                c.x['d'] = first_diff(c, *c.x['q'])

            def post(c, s, rv):
                n, m, fa, fb = c.x['q']
                d = c.x['d']
                eq = z3.And(n == m, d == n)
                lt = z3.Or(z3.And(d == n, d < m), z3.And(d < n, d < m, fa(d) < fb(d)))
                return f(c, s, rv, eq, lt)
            return Spec(fn, setup, post)
        tf = lambda c, s, rv: b2z(c.ex.tobool(s, rv))
        for x in ("view", "cstr"):
            sp.append(vcmp("equal_" + x, lambda c, s, rv, eq, lt: [("equal-iff-same-characters", F, tf(c, s, rv) == eq)]))
            sp.append(vcmp("less_" + x, lambda c, s, rv, eq, lt: [("less-iff-lexicographic", F, tf(c, s, rv) == lt)]))
            sp.append(vcmp("compare_" + x, lambda c, s, rv, eq, lt: [("compare-sign", F, z3.And((sgn32(i2z(rv)) == 0) == eq, (sgn32(i2z(rv)) < 0) == lt))]))

        def cmp_other():
            def setup(c):
                c.args = self.two(c, True)
                a, b, st = c.x['view'], c.x['ov'], c.st
                c.x['d'] = first_diff(c, a.len(st), b.len(st), lambda k: a.at(st, k), lambda k: b.at(st, k))

            def post(c, s, rv):
                a, b, d, s0 = c.x['view'], c.x['ov'], c.x['d'], c.S0
                n, m, g = a.len(s0), b.len(s0), sgn32(i2z(rv))
                return [("compare-sign", F, z3.And((g == 0) == z3.And(n == m, d == n), (g < 0) == z3.Or(z3.And(d == n, d < m), z3.And(d < n, d < m, a.at(s0, d) < b.at(s0, d)))))]
            return Spec("compare_other", setup, post)
        sp.append(cmp_other())

        def affix(fn, end):
            def setup(c):
                c.args = [S(c, True), *self.src(fn)(c)]
                n, m, fa, fb = self.cmp_range(c)
                off = n - m if end else z3.IntVal(0)
                c.x['q'] = (n, m)
                c.x['d'] = first_diff(c, z3.If(n < m, 0, m), z3.If(n < m, 0, m), lambda k: fa(k + off), fb)
            return Spec(fn, setup, lambda c, s, rv: [(fn, F, tf(c, s, rv) == z3.And(c.x['q'][1] <= c.x['q'][0], c.x['d'] == c.x['q'][1]))])
        for x in ("view", "cstr"):
            sp += [affix("starts_with_" + x, False), affix("ends_with_" + x, True)]
        obs("starts_with_char", lambda c: [S(c, True), self.ch(c)], lambda c, s, rv: [("starts-with", F, tf(c, s, rv) == z3.And(self.n0(c) > 0, self.a0(c, 0) == c.x['v']))])
        obs("ends_with_char", lambda c: [S(c, True), self.ch(c)], lambda c, s, rv: [("ends-with", F, tf(c, s, rv) == z3.And(self.n0(c) > 0, self.a0(c, self.n0(c) - 1) == c.x['v']))])

        NPOS = 2 ** 64 - 1

        def fnd(fn, back, dflt=None):
            def post(c, s, rv):
                k = c.ex.fresh("k")
                n, p, rv = self.n0(c), c.x['p'] if dflt is None else i2z(dflt), i2z(rv)
                hit = lambda j: self.a0(c, j) == c.x['v']
                dom = (lambda j: z3.And(j >= 0, j < n, j <= p)) if back else (lambda j: z3.And(j >= p, j < n))
                bet = (k > rv) if back else (k < rv)
                return [("found-position", F, z3.Implies(rv != NPOS, z3.And(dom(rv), hit(rv)))),
                        ("found-is-first", F, z3.Implies(z3.And(rv != NPOS, dom(k), bet), z3.Not(hit(k)))),
                        ("npos-means-absent", F, z3.Implies(z3.And(rv == NPOS, dom(k)), z3.Not(hit(k))))]

            def setup(c):
                c.args = [S(c, True), self.ch(c)] + ([idx(c, 'p')] if dflt is None else [])
            return Spec(fn, setup, post)
        sp += [fnd("find_char", False), fnd("rfind_char", True)]
        sp += [fnd("find_char_def", False, 0), fnd("rfind_char_def", True, NPOS)]
        from ..models import SVF, SVC, FINDS
        for f in FINDS:
            for kind in ("view", "n", "cstr", "other", "char"):
                for dflt in (None, NPOS if f in ("rfind", "find_last_of", "find_last_not_of") else 0):
                    if (kind == "n" and dflt is not None) or (kind == "char" and f in ("find", "rfind")):
                        continue
                    sp.append(self.search(f, kind, dflt, idx, SVF[f], SVC[f]))
        return sp

    def search(self, f, kind, dflt, idx, UF, UC):
        def setup(c):
            if kind == "other":
                a = self.two(c, True)
            elif kind == "char":
                a = [self.selfarg(c, True), self.ch(c)]
            else:
                a = [self.selfarg(c, True), *(self.cstr if kind == "cstr" else self.rng)(c)]
            if dflt is None:
                p = [idx(c, 'p')]
                a = a[:2] + p + a[2:] if kind == "n" else a + p
            c.args = a

        def post(c, s, rv):
            v, s0 = c.x['view'], c.S0
            arr = lambda v: (s0.mem[(v.r, v.tp, 'v')], z3.IntVal(0), v.len(s0))
            p = i2z(dflt) if dflt is not None else c.x['p']
            if kind == "char":
                want = UC(*arr(v), c.x['v'] % 256, p)
            elif kind == "other":
                want = UF(*arr(v), *arr(c.x['ov']), p)
            else:
                want = UF(*arr(v), s0.mem[(c.x['rr'], (('x',),), 'v')], z3.IntVal(0), c.x['n'], p)
            return [("searches-these-characters-from-this-position", F, i2z(c.ex.toint(s, rv)) == want)]
        return Spec(f + "_" + kind + ("_def" if dflt is not None else ""), setup, post)


def string_specs(ty, et, ty2):
    return StrContracts(StrView, ty, et, trivial=True, ty2=ty2).specs()
