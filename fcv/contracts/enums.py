"""EnumSet / EnumMap / EnumArray over an enum-like type with N labels (ordinal of label k is k).

Abstraction: pres(k) - label k is present; ghost cnt(k) - number of present labels below k, so that size == cnt(N).
"""
import z3
from ..engine import *
from ..spec import Spec
from ..models import *
from .seq import F, L, P, BD, SeqContracts, VecView

AII = z3.ArraySort(I, I)
END = 2 ** 64 - 1            # index of a reverse iterator past the first label


class Acc:
    def __init__(self, **k):
        self.__dict__.update(k)

    def but(self, **k):
        d = dict(self.__dict__)
        d.update(k)
        return Acc(**d)


class EnumView:
    def __init__(self, ex, r, cap):
        self.r, self.ex, self.cap = r, ex, cap
        ls = list(ex.leaves(r.ty))
        arr = [(tp, k, t) for tp, k, t in ls if any(s[0] == 'x' for s in tp)]
        sc = [(tp, k, t) for tp, k, t in ls if not any(s[0] == 'x' for s in tp)]
        pr = [x for x in arr if x[1] == 'int' and x[2].bits == 8 and sum(1 for s in x[0] if s[0] == 'x') == 1]
        va = [x for x in arr if x not in pr]
        if len(pr) != 1 or len(sc) != 1 or len(va) > 1:
            raise Unsupported("unexpected enum container layout")
        self.ptp = pr[0][0]
        self.PR, self.sz = (r, self.ptp, 'v'), (r, sc[0][0], 'v')
        self.map = bool(va)
        self.opaque = False
        self.apath = tuple(s for s in self.ptp if s[0] == 'f')
        if va:
            self.tp, self.kind, self.lt = va[0]
            self.opaque = self.kind == 'elem'
            self.V, self.A = (r, self.tp, 'v'), (r, self.tp, 'a')
        self.G = (r, (('f', 'cnt'),), 'g')
        ex.enums = getattr(ex, 'enums', {})
        ex.enums[r] = self

    def init(self, st, raw):
        st.mem[self.G] = self.ex.fresh(self.r.name + ".cnt", AII)

    def keys(self):
        return [self.PR, self.sz] + ([self.V] if self.map else []) + ([self.A] if self.opaque else [])

    def acc(self, s):
        m = s.mem
        d = Acc(pres=lambda k: z3.Select(m[self.PR], i2z(k)), cnt=lambda k: z3.Select(m[self.G], i2z(k)), size=i2z(m[self.sz]))
        if self.opaque:
            d.alive = lambda k: z3.Select(m[self.A], i2z(k))
        return d

    def clauses(self, a, goal=False):
        N = i2z(self.cap)
        k, j = (self.ex.fresh("k"), self.ex.fresh("j")) if goal else (z3.Int("k!en"), z3.Int("j!en"))
        inr = z3.And(k >= 0, k < N)
        q = (lambda vs, b, *p: b) if goal else (lambda vs, b, *p: z3.ForAll(vs, b, patterns=[z3.MultiPattern(*p) if len(p) > 1 else p[0]]))
        out = [("inv-size-counts-labels", F, z3.And(a.cnt(0) == 0, a.size == a.cnt(N))),
               ("inv-flags", F, q([k], z3.Implies(inr, z3.And(a.pres(k) >= 0, a.pres(k) <= 1)), a.pres(k))),
               ("inv-count-steps", F, q([k], z3.Implies(inr, a.cnt(k + 1) == a.cnt(k) + a.pres(k)), a.pres(k))),
               ("inv-count-monotone", F, q([j, k], z3.Implies(z3.And(j >= 0, j <= k, k <= N), z3.And(a.cnt(k) >= a.cnt(j), a.cnt(k) - a.cnt(j) <= k - j)), a.cnt(j), a.cnt(k)))]
        if self.opaque:
            out.append(("inv-value-alive-iff-present", L + F, q([k], a.alive(k) == z3.And(inr, a.pres(k) == 1), a.alive(k))))
        return out

    def inv_assume(self, s):
        return [f for _, _, f in self.clauses(self.acc(s))]

    def inv_goals(self, s, acc=None):
        return self.clauses(acc or self.acc(s), goal=True)

    def len(self, s):
        return i2z(s.mem[self.sz])

    def has(self, s, k):
        return z3.Select(s.mem[self.PR], i2z(k)) == 1

    def cnt(self, s, k):
        return z3.Select(s.mem[self.G], i2z(k))

    def val(self, s, k):
        return z3.Select(s.mem[self.V], i2z(k))

    def ptr(self, s, k):
        return Ptr(self.r, tuple(st if st[0] == 'f' else ('x', k) for st in self.tp))

    def setptr(self):
        return Ptr(self.r, self.apath)

    def valptr(self):
        i = [n for n, st in enumerate(self.tp) if st[0] == 'x'][0]
        return Ptr(self.r, self.tp[:i])

    def all_dead(self, s):
        k = self.ex.fresh("k")
        return [("no-value-left-alive", L, z3.Not(z3.Select(s.mem[self.A], k)))] if self.opaque else []


def hints(c, li):
    ex, ent = li.ex, li.ent
    out = []
    k = z3.Int("k!eh")
    vs = list(getattr(ex, 'enums', {}).values())
    phis = [p for p in li.phis if p.ty.k == 'int' and p.ty.bits == 64]
    cur = [(p.id, lambda s, i=p.id: i2z(s.env[i]), i2z(ent.env[p.id])) for p in phis if p.id in li.phimod and (isinstance(ent.env[p.id], int) or z3.is_expr(ent.env[p.id]))]
    fixed = [("0", z3.IntVal(0))] + [(n, c.x[n]) for n in ("o", "pos", "last") if n in c.x] + [("pos+1", c.x['pos'] + 1) for _ in (0,) if 'pos' in c.x] + [("o+1", c.x['o'] + 1) for _ in (0,) if 'o' in c.x]
    for v in vs:
        r, N = v.r, i2z(v.cap)
        P_ = lambda s, v=v: s.mem[v.PR]
        P0, n0 = ent.mem[v.PR], v.len(ent)
        for nm, g, e in cur:
            for ln, lo in fixed + [("entry", e)]:
                out.append(("absent(%s,[%s,%s))" % (r.name, ln, nm), lambda s, v=v, g=g, lo=lo: z3.ForAll([k], z3.Implies(z3.And(k >= lo, k < g(s), k < N), z3.Select(s.mem[v.PR], k) == 0), patterns=[z3.Select(s.mem[v.PR], k)])))
            out.append(("absent(%s,[%s,entry))" % (r.name, nm), lambda s, v=v, g=g, e=e: z3.ForAll([k], z3.Implies(z3.And(k >= g(s), k < e, k >= 0), z3.Select(s.mem[v.PR], k) == 0), patterns=[z3.Select(s.mem[v.PR], k)])))
            out.append(("in-range(%s)" % nm, lambda s, g=g: z3.And(g(s) >= 0, g(s) <= N)))
            out.append(("from-entry(%s)" % nm, lambda s, g=g, e=e: g(s) >= e))
            out.append(("upto-entry(%s)" % nm, lambda s, g=g, e=e: g(s) <= e))
            out.append(("end-or-present(%s,%s)" % (r.name, nm), lambda s, v=v, g=g: z3.Or(g(s) == N, z3.And(g(s) >= 0, g(s) < N, v.has(s, g(s))))))
            if 'first' in c.x:
                out.append(("source-index(%s)" % nm, lambda s, g=g: g(s) <= c.x['n']))
            if v.PR in li.modset and 'first' not in c.x:
                S0 = c.S0.mem[v.PR] if v.PR in c.S0.mem else P0
                for en, A0 in (("entry", P0), ("start", S0)):
                    out.append(("unvisited(%s,%s,%s)" % (r.name, nm, en), lambda s, v=v, g=g, A0=A0: z3.ForAll([k], z3.Implies(z3.And(k >= g(s), k < N), z3.Select(s.mem[v.PR], k) == z3.Select(A0, k)), patterns=[z3.Select(s.mem[v.PR], k)])))
                    out.append(("before-entry(%s,%s,%s)" % (r.name, nm, en), lambda s, v=v, e=e, A0=A0: z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < e), z3.Select(s.mem[v.PR], k) == z3.Select(A0, k)), patterns=[z3.Select(s.mem[v.PR], k)])))
                out.append(("size-counts(%s,%s)" % (r.name, nm), lambda s, v=v, g=g, e=e, n0=n0: v.len(s) == n0 - (v.cnt(s, g(s)) - v.cnt(s, e))))
                out.append(("all-below(%s,%s)" % (r.name, nm), lambda s, v=v, g=g: z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < N), (z3.Select(s.mem[v.PR], k) == 1) == (k < g(s))), patterns=[z3.Select(s.mem[v.PR], k)])))
            if v.opaque and v.A in li.modset and 'first' not in c.x:
                out.append(("constructed-below(%s,%s)" % (r.name, nm), lambda s, v=v, g=g: z3.ForAll([k], z3.Select(s.mem[v.A], k) == z3.And(k >= 0, k < g(s), v.has(s, k)), patterns=[z3.Select(s.mem[v.A], k)])))
                for w in vs:
                    if w is not v and w.opaque:
                        out.append(("copied-below(%s,%s,%s)" % (r.name, w.r.name, nm), lambda s, v=v, w=w, g=g: z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < g(s), v.has(s, k)), v.val(s, k) == w.val(c.S0, k)), patterns=[v.val(s, k)])))
            if v.opaque and v.V in li.modset and 'first' not in c.x:
                out.append(("values-from(%s,%s)" % (r.name, nm), lambda s, v=v, g=g: z3.ForAll([k], z3.Implies(k >= g(s), v.val(s, k) == v.val(c.S0, k)), patterns=[v.val(s, k)])))
        for p in phis:
            for q in phis:
                if p is not q:
                    pass
        if v.PR in li.modset:
            out.append(("flags(%s)" % r.name, lambda s, v=v: z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < N), z3.And(z3.Select(s.mem[v.PR], k) >= 0, z3.Select(s.mem[v.PR], k) <= 1)), patterns=[z3.Select(s.mem[v.PR], k)])))
            for i in range(len(v.clauses(v.acc(ent))) if 'first' not in c.x else 0):
                out.append(("inv%d(%s)" % (i, r.name), lambda s, v=v, i=i: v.clauses(v.acc(s))[i][2]))
            if 'first' in c.x:
                fi = c.x['first']
                for nm, g, e in src_cursors(c, li, cur):
                    out.append(("lean:inserted-so-far(%s,%s)" % (r.name, nm), lambda s, v=v, g=g: z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < N), v.has(s, k) == z3.Or(c.x['had'](k), fi(k) < g(s))), patterns=[z3.Select(s.mem[v.PR], k)])))
                    for i in range(len(v.clauses(v.acc(ent)))):
                        out.append(("inv%d-counted(%s,%s)" % (i, r.name, nm), lambda s, v=v, i=i, g=g: v.clauses(v.acc(s).but(cnt=lambda k: c.x['C'](g(s), i2z(k))))[i][2]))
                    if v.map:
                        out.append(("values-so-far(%s,%s)" % (r.name, nm), lambda s, v=v, g=g: z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < N, v.has(s, k)), v.val(s, k) == c.x['mergeval'](k)), patterns=[v.val(s, k)])))
                    if nm not in [n_ for n_, _, _ in cur]:
                        out.append(("source-position(%s)" % nm, lambda s, g=g: z3.And(g(s) >= 0, g(s) <= c.x['n'])))
        if v.opaque and (v.A in li.modset):
            out.append(("alive-iff-present(%s)" % r.name, lambda s, v=v: z3.ForAll([k], z3.Select(s.mem[v.A], k) == z3.And(k >= 0, k < N, v.has(s, k)), patterns=[z3.Select(s.mem[v.A], k)])))
    if len(vs) == 2:
        a, b = vs
        N = i2z(a.cap)
        for nm, g, e in cur:
            out.append(("same-below(%s)" % nm, lambda s, g=g: z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < g(s), k < N), z3.And(a.has(s, k) == b.has(s, k), z3.Implies(a.has(s, k), c.x['eqv'](a.val(s, k), b.val(s, k))) if a.map and 'eqv' in c.x else TRUE)), patterns=[z3.Select(s.mem[a.PR], k)])))
            for nm2, g2, e2 in cur + [(n_, (lambda s, i=n_: i2z(s.env[i])), None) for n_ in [p.id for p in phis if p.id not in li.phimod]]:
                if nm2 == nm:
                    continue
                for x, y, tag in ((a, b, "ab"), (b, a, "ba")):
                    lo = lambda s, g=g, g2=g2: z3.And(k >= 0, k < g(s), k < g2(s))
                    out.append(("agree-below-both(%s,%s)" % (nm, nm2), lambda s, lo=lo: z3.ForAll([k], z3.Implies(lo(s), a.has(s, k) == b.has(s, k)), patterns=[z3.Select(s.mem[a.PR], k)])))
                    out.append(("gap-%s(%s,%s)" % (tag, nm, nm2), lambda s, x=x, g=g, g2=g2: z3.ForAll([k], z3.Implies(z3.And(k >= 0, k >= g2(s), k < g(s), k < N), z3.Not(x.has(s, k))), patterns=[z3.Select(s.mem[x.PR], k)])))
                    out.append(("atp-%s(%s)" % (tag, nm), lambda s, x=x, g=g: z3.Or(g(s) == N, z3.And(g(s) >= 0, g(s) < N, x.has(s, g(s))))))
    return out


def src_cursors(c, li, cur):
    """how far the source range has been consumed: integer loop variables and pointers into the range"""
    out = list(cur)
    rr = c.x.get('rr')
    for p in li.phis:
        v = li.ent.env.get(p.id)
        if isinstance(v, Ptr) and v.r is rr:
            def g(s, i=p.id):
                q = s.env[i]
                ix = [st[1] for st in q.p if st[0] == 'x']
                return i2z(ix[0]) if ix else z3.IntVal(0)
            out.append((p.id, g, None))
    return out


class EnumContracts(SeqContracts):
    def __init__(self, ty, et, trivial, la, its, kind, pair=None):
        SeqContracts.__init__(self, EnumView, ty, et, trivial=trivial)
        self.la, self.kind, self.pair = la, kind, pair
        self.It, self.CIt, self.RIt, self.CRIt, self.IB = its

    # ---- arguments
    def labels(self, c):
        """the label table: label k has ordinal k"""
        if 'labels' in c.x or self.kind == 2:
            return
        p = c.ex.global_ptr(c.st, "g_labels")
        tp, kind, t = list(c.ex.leaves(p.r.ty))[0]
        k = z3.Int("k!lab")
        a = c.st.mem[(p.r, tp, 'v')]
        c.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < c.N), z3.Select(a, k) == k), patterns=[z3.Select(a, k)]))
        c.x['labels'] = p.r

    def live(self, c, name="self", const=False, cross=False):
        self.labels(c)
        return SeqContracts.live(self, c, name, const)

    def rawarg(self, c):
        self.labels(c)
        return SeqContracts.rawarg(self, c)

    def key(self, c, name="o"):
        lt = self.la.fields[0].elem if self.la.k == 'struct' else self.la.elem
        r = c.region("key_" + name, lt)
        (tp, kind, t), = list(c.ex.leaves(lt))
        o = c.nat(name, bits=32)
        c.assume(o < c.N)
        c.st.mem[(r, tp, 'v')] = o
        c.x[name] = o
        c.x.setdefault('terms', []).append(o)
        return Ptr(r)

    def it_fill(self, c, st, r, idx, v):
        ptrs = 0
        for tp, kind, t in c.ex.leaves(r.ty):
            if kind == 'ptr':
                st.mem[(r, tp, 'v')] = v.setptr() if ptrs == 0 else v.valptr()
                ptrs += 1
            elif t.bits == 64:
                st.mem[(r, tp, 'v')] = idx

    def cursor(self, c, name="pos", hi=None, ty=None, modifies=False):
        v = c.x['view']
        p = c.nat(name)
        c.assume(z3.Or(p == c.N, z3.And(p < c.N, v.has(c.st, p))) if hi is None else z3.And(p < c.N, v.has(c.st, p)))
        c.x[name] = p
        c.x.setdefault('terms', []).append(p)
        r = c.region("it_" + name, ty or self.CIt)
        self.it_fill(c, c.st, r, p, v)
        if modifies:
            c.modifies.add("it_" + name)
        c.x['it_' + name] = r
        return Ptr(r)

    def rcursor(self, c, name="pos", end=False, modifies=False):
        v = c.x['view']
        p = c.nat(name)
        pres = z3.And(p < c.N, v.has(c.st, p))
        c.assume(z3.Or(p == END, pres) if end else pres)
        c.x[name] = p
        r = c.region("it_" + name, self.CRIt)
        self.it_fill(c, c.st, r, p, v)
        if modifies:
            c.modifies.add("it_" + name)
        c.x['it_' + name] = r
        return Ptr(r)

    def out(self, c, ty):
        r = c.region("out", ty)
        c.modifies.add("out")
        c.x.setdefault('uninit', set()).add("out")
        c.x['out'] = r
        return Ptr(r)

    def pairarg(self, c, modifies=False):
        r = c.region("kv", self.pair)
        o = c.nat("o", bits=32)
        c.assume(o < c.N)
        c.x['o'] = o
        c.x.setdefault('terms', []).append(o)
        for tp, kind, t in c.ex.leaves(self.pair):
            if kind == 'elem':
                c.assume(c.st.mem[(r, tp, 'a')])
                c.x['v'], c.x['kvtp'] = c.st.mem[(r, tp, 'v')], tp
            elif 'kvk' not in c.x:
                c.x['kvk'] = 1
                c.st.mem[(r, tp, 'v')] = o
            else:
                c.x['v'] = i2z(c.st.mem[(r, tp, 'v')])
        if modifies:
            c.modifies.add("kv")
        c.x['kv'] = r
        return Ptr(r)

    def pair_end(self, c, s, rv):
        if 'kvtp' in c.x:
            return [("argument-still-alive", L, s.mem[(c.x['kv'], c.x['kvtp'], 'a')])]
        return []

    def krng(self, c, keep0, all_labels=False):
        """a range of n labels (or label/value pairs) in its own storage; first(k) is the position of the first occurrence of label k (>= n: none);
        C(i, k) counts the labels below k present once the first i entries have been inserted"""
        v = c.x['view']
        ex = c.ex
        if all_labels:
            n, r = c.N, c.x['labels']
            tp = [tp for tp, kind, t in ex.leaves(r.ty)][0]
            key = lambda i: z3.Select(c.st.mem[(r, tp, 'v')], i)
            ptr = None
        else:
            n = c.nat("n_rng", 2 ** 40)
            lt = self.la.fields[0].elem if self.la.k == 'struct' else self.la.elem
            et = self.pair if self.kind == 1 else lt
            r = c.region("rng", Ty('array', elem=et, count=n), alive=None)
            ls = list(ex.leaves(r.ty))
            ptr = Ptr(r, (('x', 0),))
            karr = c.st.mem[(r, ls[0][0], 'v')]
            key = lambda i: z3.Select(karr, i)
            if len(ls) > 1:
                tp, kind, t = ls[1]
                varr = c.st.mem[(r, tp, 'v')]
                c.x['srcval'] = lambda i: z3.Select(varr, i)
                if kind == 'elem':
                    k = z3.Int("k!rng")
                    a = c.st.mem[(r, tp, 'a')]
                    c.assume(z3.ForAll([k], z3.Select(a, k) == z3.And(k >= 0, k < n), patterns=[z3.Select(a, k)]))
        k, i = z3.Int("k!rng"), z3.Int("i!rng")
        fst, C = z3.Function("first!rng", I, I), z3.Function("C!rng", I, I, I)
        inr = z3.And(i >= 0, i < n)
        c.assume(z3.ForAll([i], z3.Implies(inr, z3.And(key(i) >= 0, key(i) < c.N, fst(key(i)) >= 0, fst(key(i)) <= i)), patterns=[key(i)]))
        c.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < c.N, fst(k) < n), z3.And(fst(k) >= 0, key(fst(k)) == k)), patterns=[fst(k)]))
        c.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < c.N), fst(k) >= 0), patterns=[fst(k)]))
        has0 = (lambda k: v.has(c.st, k)) if keep0 else (lambda k: FALSE)
        P0, G0 = c.st.mem[v.PR], c.st.mem[v.G]
        had = (lambda k: z3.Select(P0, k) == 1) if keep0 else (lambda k: FALSE)
        cn0 = (lambda k: z3.Select(G0, k)) if keep0 else (lambda k: z3.IntVal(0))
        c.assume(z3.ForAll([k], C(0, k) == cn0(k), patterns=[C(0, k)]))
        c.assume(z3.ForAll([i, k], z3.Implies(inr, C(i + 1, k) == C(i, k) + z3.If(z3.And(fst(key(i)) == i, z3.Not(had(key(i))), k > key(i)), 1, 0)), patterns=[C(i + 1, k), z3.MultiPattern(C(i, k), key(i))]))
        c.x.update(n=n, rr=r, first=fst, C=C, keep0=keep0, had=had)
        if self.kind == 1:
            V0 = c.st.mem[v.V]
            c.x['mergeval'] = lambda k: z3.If(had(k), z3.Select(V0, k), c.x['srcval'](fst(k)))
        c.x.setdefault('terms', []).append(n)
        return ptr, n

    # ---- results
    def idx_of(self, c, s, r):
        x = [tp for tp, kind, t in c.ex.leaves(r.ty) if kind == 'int' and t.bits == 64]
        return i2z(s.mem[(r, x[0], 'v')])

    def it_valid(self, c, s, r, name):
        v = c.x['view']
        o, ptrs = [], 0
        for tp, kind, t in c.ex.leaves(r.ty):
            if kind == 'ptr':
                x = s.mem[(r, tp, 'v')]
                want = v.setptr() if ptrs == 0 else v.valptr()
                ptrs += 1
                o.append((name + ":container", F, b2z(c.ex.ptr_eq(x, want)) if isinstance(x, Ptr) and x.r is v.r else FALSE))
        return o

    def at_index(self, c, s, i, r=None, name="returned-iterator"):
        r = r or c.x['out']
        return self.it_valid(c, s, r, name) + [(name + ":label", F, self.idx_of(c, s, r) == i)]

    def first_from(self, c, s, x, r=None, name="returned-iterator"):
        """designates the first label present at or after x, or the end"""
        r = r or c.x['out']
        v = c.x['view']
        j, k = self.idx_of(c, s, r), c.ex.fresh("k")
        return self.it_valid(c, s, r, name) + [(name + ":in-range", F, z3.And(j >= x, j <= c.N)), (name + ":present-or-end", F, z3.Or(j == c.N, v.has(s, j))),
                                              (name + ":first", F, z3.Implies(z3.And(k >= x, k < j), z3.Not(v.has(s, k))))]

    def last_below(self, c, s, x, r=None, name="returned-iterator"):
        """designates the last label present below x, or the reverse end"""
        r = r or c.x['out']
        v = c.x['view']
        j, k = self.idx_of(c, s, r), c.ex.fresh("k")
        lo = z3.If(j == END, 0, j + 1)
        return self.it_valid(c, s, r, name) + [(name + ":present-or-end", F, z3.Or(j == END, z3.And(j >= 0, j < x, v.has(s, j)))),
                                              (name + ":last", F, z3.Implies(z3.And(k >= lo, k < x), z3.Not(v.has(s, k))))]

    def flag(self, c, s, want):
        r = c.x['out']
        x = [tp for tp, kind, t in c.ex.leaves(r.ty) if kind == 'int' and t.bits == 8]
        tp = [t for t in x if t == (('f', 1),)][0]
        return [("returned-flag", F, (i2z(s.mem[(r, tp, 'v')]) == 1) == want)]

    def mk(self, fn, args, pres=None, val=None, cnt=None, policy=None, ret=None, name=None, pre=None, raw=False, **kw):
        """pres/val/cnt: contents after the call as functions of (c, k); None: unchanged"""
        def setup(c):
            c.args = args(c)
            if pre:
                c.assume(pre(c))

        def post(c, s, rv):
            v = c.x['view']
            k = c.ex.fresh("k")
            inr = z3.And(k >= 0, k < c.N)
            a = v.acc(s)
            if cnt:
                a = a.but(cnt=lambda k: cnt(c, i2z(k)))
            out = list(v.inv_goals(s, a))
            p = (lambda k: pres(c, k)) if pres else (lambda k: v.has(c.S0, k))
            out.append(("labels-present", F, z3.Implies(inr, v.has(s, k) == p(k))))
            if v.map:
                f = (lambda k: val(c, k)) if val else (lambda k: v.val(c.S0, k))
                out.append(("values", F, z3.Implies(z3.And(inr, p(k)), v.val(s, k) == f(k))))
            if ret:
                out += ret(c, s, rv)
            return out
        return Spec(fn, setup, post, policy, name=name, hints=[hints], **kw)

    def specs(self):
        sp = []
        S = self.selfarg
        V = self.v
        mp = self.kind == 1

        def add(*a, **k):
            sp.append(self.mk(*a, **k))
        zero = lambda c, k: z3.IntVal(0)
        none = lambda c, k: FALSE
        has0 = lambda c, k: V(c).has(c.S0, k)
        cnt0 = lambda c, k: V(c).cnt(c.S0, k)
        val0 = lambda c, k: V(c).val(c.S0, k)
        add("ctor_default", lambda c: [self.rawarg(c)], none, zero, zero)

        def other(c, const):
            r, v = self.live(c, "other", const)
            c.x['ov'] = v
            return Ptr(r)
        oh = lambda c, k: c.x['ov'].has(c.S0, k)
        ov = lambda c, k: c.x['ov'].val(c.S0, k)
        oc = lambda c, k: c.x['ov'].cnt(c.S0, k)

        def osame(c, s, rv):
            v = c.x['ov']
            k = c.ex.fresh("k")
            inr = z3.And(k >= 0, k < c.N)
            o = v.inv_goals(s) + [("source-labels-unchanged", F, z3.Implies(inr, v.has(s, k) == v.has(c.S0, k)))]
            if v.map:
                o.append(("source-values-unchanged", F, z3.Implies(z3.And(inr, v.has(s, k)), v.val(s, k) == v.val(c.S0, k))))
            return [(n + "(other)", t, g) for n, t, g in o]

        def ocleared(c, s, rv):
            if not (mp and not self.triv):
                return osame(c, s, rv)
            v = c.x['ov']
            return [(n + "(other)", t, g) for n, t, g in v.inv_goals(s, v.acc(s).but(cnt=lambda k: z3.IntVal(0))) + [("source-cleared", F, v.len(s) == 0)]]

        def ovalid(c, s, rv):
            v = c.x['ov']
            return [(n + "(other)", t, g) for n, t, g in v.inv_goals(s)]
        add("copy_ctor", lambda c: [self.rawarg(c), other(c, True)], oh, ov, oc, ret=osame)
        add("move_ctor", lambda c: [self.rawarg(c), other(c, False)], oh, ov, oc, ret=ocleared)
        add("copy_assign", lambda c: [S(c), other(c, True)], oh, ov, oc, ret=osame)
        add("move_assign", lambda c: [S(c), other(c, False)], oh, ov, oc, ret=ovalid)
        add("self_copy_assign", lambda c: [S(c)] * 2)
        add("self_move_assign", lambda c: [S(c)] * 2)
        sp.append(Spec("dtor", lambda c: setattr(c, 'args', [S(c)]), lambda c, s, rv: V(c).all_dead(s), hints=[hints]))
        add("clear", lambda c: [S(c)], none, zero, zero)
        sh = lambda c: [S(c, True)]
        skey = lambda c: [S(c, True), self.key(c)]
        num = lambda f: (lambda c, s, rv: [("returns", F, i2z(rv) == f(c))])
        boo = lambda f: (lambda c, s, rv: [("returns", F, b2z(c.ex.tobool(s, rv)) == f(c))])
        N0 = lambda c: V(c).len(c.S0)
        hk = lambda c: has0(c, c.x['o'])
        add("size", sh, ret=num(N0))
        add("size", sh, ret=lambda c, s, rv: [("size-counts-present-labels", F, i2z(rv) == cnt0(c, c.N))], name="size@count")
        add("max_size", sh, ret=num(lambda c: c.N))
        add("empty", sh, ret=boo(lambda c: N0(c) == 0))
        add("is_full_", sh, ret=boo(lambda c: N0(c) == c.N))
        add("contains", skey, ret=boo(hk))
        # insertion / erasure of label o
        insP = lambda c, k: z3.Or(has0(c, k), k == c.x['o'])
        insC = lambda c, k: cnt0(c, k) + z3.If(z3.And(z3.Not(hk(c)), k > c.x['o']), 1, 0)
        delP = lambda c, k: z3.And(has0(c, k), k != c.x['o'])
        delC = lambda c, k: cnt0(c, k) - z3.If(z3.And(hk(c), k > c.x['o']), 1, 0)
        insV = lambda f: (lambda c, k: z3.If(z3.And(k == c.x['o'], z3.Not(hk(c))), f(c), val0(c, k)))
        asgV = lambda f: (lambda c, k: z3.If(k == c.x['o'], f(c), val0(c, k)))
        add("erase_key", lambda c: [S(c), self.key(c)], delP, None, delC, ret=num(lambda c: z3.If(hk(c), 1, 0)))

        def oa(c, ty, rest, const=False):
            s = S(c, const)
            return [self.out(c, ty), s] + rest()
        posO = lambda c: c.x.__setitem__('o', c.x['pos'])

        def cur1(c, ty=None):
            r = self.cursor(c, hi=1, ty=ty)
            posO(c)
            return r
        for fn, ty in (("erase_one", self.CIt),) + ((("erase_one_mut", self.It),) if mp else ()):
            add(fn, lambda c, ty=ty: oa(c, self.It, lambda: [cur1(c, ty)]), delP, None, delC, ret=lambda c, s, rv: self.first_from(c, s, c.x['pos']))
        rgP = lambda c, k: z3.And(has0(c, k), z3.Or(k < c.x['pos'], k >= c.x['last']))
        rgC = lambda c, k: z3.If(k <= c.x['pos'], cnt0(c, k), z3.If(k <= c.x['last'], cnt0(c, c.x['pos']), cnt0(c, k) - (cnt0(c, c.x['last']) - cnt0(c, c.x['pos']))))
        add("erase_range", lambda c: oa(c, self.It, lambda: [self.cursor(c), self.cursor(c, "last")]), rgP, None, rgC, pre=lambda c: c.x['pos'] <= c.x['last'],
            ret=lambda c, s, rv: self.at_index(c, s, c.x['last']))
        for fn, ty in (("find_const", self.CIt),) + ((("find_mut", self.It),) if mp else ()):
            add(fn, lambda c, ty=ty: oa(c, ty, lambda: [self.key(c)], True), ret=lambda c, s, rv: self.at_index(c, s, z3.If(hk(c), c.x['o'], c.N)))
        # iterators
        for fn, ty in (("it_begin", self.It), ("it_cbegin", self.CIt)):
            add(fn, lambda c, ty=ty: oa(c, ty, lambda: [], True), ret=lambda c, s, rv: self.first_from(c, s, z3.IntVal(0)))
        for fn, ty in (("it_end", self.It), ("it_cend", self.CIt)):
            add(fn, lambda c, ty=ty: oa(c, ty, lambda: [], True), ret=lambda c, s, rv: self.at_index(c, s, c.N))
        with_self = lambda f: (lambda c: (S(c, True), f(c))[1])
        ir = lambda c: c.x['it_pos']
        add("it_inc", with_self(lambda c: [self.cursor(c, hi=1, modifies=True)]), ret=lambda c, s, rv: self.first_from(c, s, c.x['pos'] + 1, ir(c), "iterator"))
        some = lambda c: z3.Exists([z3.Int("k!some")], z3.And(z3.Int("k!some") >= 0, z3.Int("k!some") < c.x['pos'], V(c).has(c.st, z3.Int("k!some"))))
        add("it_dec", with_self(lambda c: [self.cursor(c, modifies=True)]), pre=some, ret=lambda c, s, rv: self.last_below(c, s, c.x['pos'], ir(c), "iterator"))
        add("it_post_inc", with_self(lambda c: [self.out(c, self.CIt), self.cursor(c, hi=1, modifies=True)]),
            ret=lambda c, s, rv: self.first_from(c, s, c.x['pos'] + 1, ir(c), "iterator") + self.at_index(c, s, c.x['pos']))
        add("it_post_dec", with_self(lambda c: [self.out(c, self.CIt), self.cursor(c, modifies=True)]), pre=some,
            ret=lambda c, s, rv: self.last_below(c, s, c.x['pos'], ir(c), "iterator") + self.at_index(c, s, c.x['pos']))
        add("it_eq", with_self(lambda c: [self.cursor(c), self.cursor(c, "last")]), ret=boo(lambda c: c.x['pos'] == c.x['last']))
        add("rit_begin", lambda c: oa(c, self.CRIt, lambda: [], True), ret=lambda c, s, rv: self.last_below(c, s, c.N))
        add("rit_end", lambda c: oa(c, self.CRIt, lambda: [], True), ret=lambda c, s, rv: self.at_index(c, s, z3.IntVal(END)))
        add("rit_inc", with_self(lambda c: [self.rcursor(c, modifies=True)]), ret=lambda c, s, rv: self.last_below(c, s, c.x['pos'], ir(c), "iterator"))
        up = lambda c: z3.If(c.x['pos'] == END, 0, c.x['pos'] + 1)
        kk = z3.Int("k!some")
        add("rit_dec", with_self(lambda c: [self.rcursor(c, end=True, modifies=True)]), pre=lambda c: z3.Exists([kk], z3.And(kk >= up(c), kk < c.N, V(c).has(c.st, kk))),
            ret=lambda c, s, rv: self.first_from(c, s, up(c), ir(c), "iterator"))
        add("rit_base", with_self(lambda c: [self.out(c, self.CIt), self.rcursor(c, end=True)]), ret=lambda c, s, rv: self.first_from(c, s, up(c)))
        add("rit_eq", with_self(lambda c: [self.rcursor(c, end=True), self.rcursor(c, "last", end=True)]), ret=boo(lambda c: c.x['pos'] == c.x['last']))

        # comparison
        def two(c):
            a = S(c, True)
            b = other(c, True)
            c.x['eqv'] = self.velem_eq
            d = c.nat("d")
            c.x['d'] = d
            k = z3.Int("k!d")
            A, B_ = c.x['view'], c.x['ov']
            dif = lambda k: z3.Or(A.has(c.st, k) != B_.has(c.st, k), z3.And(A.has(c.st, k), z3.Not(self.velem_eq(A.val(c.st, k), B_.val(c.st, k))) if mp else FALSE))
            c.assume(z3.And(d <= c.N, z3.Implies(d < c.N, dif(d))))
            c.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < d), z3.Not(dif(k))), patterns=[z3.Select(c.st.mem[A.PR], k)]))
            return [a, b]
        add("equal", two, ret=boo(lambda c: c.x['d'] == c.N))
        if not mp:
            # d: first label on which the sets differ; the one holding d is smaller unless the other has nothing beyond d
            ka = z3.Int("k!la")

            def less(c):
                A, B_, d = c.x['view'], c.x['ov'], c.x['d']
                some = lambda X: z3.Exists([ka], z3.And(ka > d, ka < c.N, X.has(c.S0, ka)))
                return z3.And(d < c.N, z3.If(A.has(c.S0, d), some(B_), z3.Not(some(A))))
            add("less", two, ret=boo(less))
            for fn in ("insert", "emplace"):
                add(fn, lambda c: oa(c, self.IB, lambda: [self.key(c)]), insP, None, insC, ret=lambda c, s, rv: self.at_index(c, s, c.x['o']) + self.flag(c, s, z3.Not(hk(c))))
            for fn in ("insert_hint", "emplace_hint"):
                add(fn, lambda c: oa(c, self.It, lambda: [self.cursor(c), self.key(c)]), insP, None, insC, ret=lambda c, s, rv: self.at_index(c, s, c.x['o']))
            add("it_deref", with_self(lambda c: [self.cursor(c, hi=1)]), ret=num(lambda c: c.x['pos']))
            add("rit_deref", with_self(lambda c: [self.rcursor(c)]), ret=num(lambda c: c.x['pos']))
            add("ctor_none", lambda c: [self.rawarg(c)], none, zero, zero)
            self.range_specs(add, S)
            add("ctor_all", lambda c: [self.rawarg(c), self.krng(c, False, True)][:1], lambda c, k: TRUE, None, lambda c, k: c.x['C'](c.x['n'], k))
            return sp
        el = self.elem
        vv = lambda c: c.x['v']
        oor = lambda c: {"out_of_range": z3.Not(hk(c))}
        er = lambda k: (lambda c, s, rv: self.elem_ret(c, s, rv, k(c)))
        O = lambda c: c.x['o']
        add("at", skey, ret=er(O), policy=oor)
        add("at_mut", lambda c: [S(c), self.key(c)], ret=er(O), policy=oor)
        add("count", skey, ret=num(lambda c: z3.If(hk(c), 1, 0)))
        for fn in ("subscript", "subscript_move"):
            add(fn, lambda c: [S(c), self.key(c)], insP, insV(self.default_value), insC, ret=er(O))
        ib = lambda rest: (lambda c: oa(c, self.IB, lambda: rest(c)))
        rf = lambda c, s, rv: self.at_index(c, s, c.x['o']) + self.flag(c, s, z3.Not(hk(c)))
        rv_ = lambda m: (lambda c, s, rv: rf(c, s, rv) + self.vend(c, s, m))
        # a value that is moved from keeps its value when nothing is inserted
        add("insert", ib(lambda c: [self.pairarg(c)]), insP, insV(vv), insC, ret=lambda c, s, rv: rf(c, s, rv) + self.pair_end(c, s, rv))
        add("insert_move", ib(lambda c: [self.pairarg(c, True)]), insP, insV(vv), insC, ret=lambda c, s, rv: rf(c, s, rv) + self.pair_end(c, s, rv))
        add("insert_or_assign_copy", ib(lambda c: [self.key(c), el(c)]), insP, asgV(vv), insC, ret=rv_(False))
        add("insert_or_assign_move", ib(lambda c: [self.key(c), el(c, modifies=True)]), insP, asgV(vv), insC, ret=rv_(True))
        add("insert_or_assign_hint", lambda c: oa(c, self.It, lambda: [self.cursor(c), self.key(c), el(c)]), insP, asgV(vv), insC, ret=lambda c, s, rv: self.at_index(c, s, c.x['o']))
        kept = lambda c, s, rv: rf(c, s, rv) + [("argument-kept-when-present", F, z3.Implies(hk(c), s.mem[(c.x['vr'], (), 'v')] == c.x['v']))] + self.vend(c, s, True)
        add("try_emplace_copy", ib(lambda c: [self.key(c), el(c)]), insP, insV(vv), insC, ret=rv_(False))
        add("try_emplace_move", ib(lambda c: [self.key(c), el(c, modifies=True)]), insP, insV(vv), insC, ret=kept)
        add("try_emplace_make", ib(lambda c: [self.key(c), self.intarg(c)]), insP, insV(self.made_value), insC, ret=rf)
        add("try_emplace_none", ib(lambda c: [self.key(c)]), insP, insV(self.default_value), insC, ret=rf)
        add("try_emplace_hint", ib(lambda c: [self.cursor(c), self.key(c), el(c)]), insP, insV(vv), insC, ret=rf)
        add("emplace", ib(lambda c: [self.key(c), el(c)]), insP, insV(vv), insC, ret=rv_(False))
        add("it_deref_key", with_self(lambda c: [self.cursor(c, hi=1)]), ret=num(lambda c: c.x['pos']))
        pp = lambda c: c.x['pos']
        add("it_deref", with_self(lambda c: [self.cursor(c, hi=1)]), ret=er(pp))
        add("it_deref_mut", with_self(lambda c: [self.cursor(c, hi=1, ty=self.It)]), ret=er(pp))
        add("it_arrow", with_self(lambda c: [self.cursor(c, hi=1)]), ret=er(pp))
        add("it_convert", with_self(lambda c: [self.out(c, self.CIt), self.cursor(c, ty=self.It)]), ret=lambda c, s, rv: self.at_index(c, s, c.x['pos']))
        add("rit_deref", with_self(lambda c: [self.rcursor(c)]), ret=er(pp))
        self.range_specs(add, S)
        return sp

    def range_specs(self, add, S):
        """every label of the range becomes present; a label that occurs several times keeps its first value, one that was present keeps its value"""
        pres = lambda c, k: z3.Or(c.x['had'](k), c.x['first'](k) < c.x['n'])
        val = lambda c, k: c.x['mergeval'](k)
        cnt = lambda c, k: c.x['C'](c.x['n'], k)
        fns = [("insert_range", True), ("insert_ilist", True), ("ctor_range", False)] + ([("ctor_ilist", False)] if self.kind == 0 else [])
        for fn, keep in fns:
            add(fn, lambda c, keep=keep: [S(c) if keep else self.rawarg(c)] + list(self.krng(c, keep)), pres, val, cnt)


def enum_specs(p, kind, trivial):
    ty = lambda n: p.glob(n)[0].fields[0]
    its = [ty("g_" + n) for n in ("It", "CIt", "RIt", "CRIt", "IB")]
    return EnumContracts(ty("g_S"), ty("g_T"), trivial, ty("g_LA"), its, kind, ty("g_PR") if kind == 1 else None).specs()


class ArrView(VecView):
    """EnumArray: one element per label, always all alive"""
    def __init__(self, ex, r, cap):
        self.r, self.ex, self.cap = r, ex, cap
        ls = list(ex.leaves(r.ty))
        if len(ls) != 1 or sum(1 for s in ls[0][0] if s[0] == 'x') != 1:
            raise Unsupported("unexpected EnumArray layout")
        self.tp, self.kind, self.lt = ls[0]
        self.opaque = self.kind == 'elem'

    def init(self, st, raw):
        pass

    def len(self, s):
        return i2z(self.cap)


class ArrContracts(EnumContracts):
    def __init__(self, ty, et, trivial, la):
        SeqContracts.__init__(self, ArrView, ty, et, trivial=trivial)
        self.la, self.kind = la, 2

    def specs(self):
        sp = []
        S = self.selfarg
        add = lambda *a, **k: sp.append(SeqContracts.mk(self, *a, **k))
        O = lambda c: c.x['o']
        er = lambda k: (lambda c, s, rv: self.elem_ret(c, s, rv, k(c)))
        for fn in ("at", "subscript"):
            add(fn, lambda c: [S(c, True), self.key(c)], None, ret=er(O))
        for fn in ("at_mut", "subscript_mut"):
            add(fn, lambda c: [S(c), self.key(c)], None, ret=er(O))
        for fn in ("front", "front_mut", "data", "it_begin"):
            add(fn, lambda c: [S(c, True)], None, ret=er(lambda c: z3.IntVal(0)))
        for fn in ("back", "back_mut", "it_last", "rit_begin"):
            add(fn, lambda c: [S(c, True)], None, ret=er(lambda c: c.N - 1))
        for fn in ("size", "max_size"):
            add(fn, lambda c: [S(c, True)], None, ret=lambda c, s, rv: [("returns", F, i2z(rv) == c.N)])
        add("empty", lambda c: [S(c, True)], None, ret=lambda c, s, rv: [("returns", F, b2z(c.ex.tobool(s, rv)) == (c.N == 0))])
        add("fill", lambda c: [S(c), self.elem(c)], lambda c: (c.N, lambda k: c.x['v']), ret=lambda c, s, rv: self.vend(c, s, False))
        sp.append(self.equal_spec("equal"))
        return sp


def array_specs(p, trivial):
    ty = lambda n: p.glob(n)[0].fields[0]
    return ArrContracts(ty("g_S"), ty("g_T"), trivial, ty("g_LA")).specs()
