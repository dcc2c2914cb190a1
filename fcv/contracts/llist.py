"""FixedDoublyLinkedListBase / FixedList: pool storage with a free list, and a circular doubly linked chain through a sentinel.

Ghost state of a list: at (position -> slot), pos (slot -> position), fat (free-list position -> slot), fpos (its inverse);
for trivially copyable elements also al (slot is in use). Slot N denotes the sentinel / the end of the free list.
The class invariant (`clauses`) says that next/prev/free links and the live slots are exactly those the ghost sequences describe.
"""
import z3, re
from ..engine import *
from ..spec import Spec
from ..models import *
from . import seq
from .seq import F, L, P, BD, SeqContracts, seq_is

AII, AIB = z3.ArraySort(I, I), z3.ArraySort(I, B)
GHOSTS = ("at", "pos", "fat", "fpos")


class Acc:
    """the list as seen through arrays (or, for contracts with explicit ghost witnesses, through functions)"""

    def __init__(self, **k):
        self.__dict__.update(k)

    def but(self, **k):
        d = dict(self.__dict__)
        d.update(k)
        return Acc(**d)


def sel(a):
    f = lambda i: z3.Select(a, i2z(i))
    f.pat = lambda i: z3.Select(a, i)
    return f


class ListView:
    lenbits = 64

    def __init__(self, ex, r, cap, trivial=None):
        self.r, self.ex, self.cap = r, ex, cap
        ls = list(ex.leaves(r.ty))
        arr = [(tp, k, t) for tp, k, t in ls if any(s[0] == 'x' for s in tp)]
        sc = [(tp, k, t) for tp, k, t in ls if not any(s[0] == 'x' for s in tp)]
        if len(arr) != 3 or len(sc) != 2:
            raise Unsupported("unexpected list layout")
        self.tp, self.kind, self.lt = arr[0]
        self.opaque = self.kind == 'elem'
        self.V = (r, self.tp, 'v')
        self.R = (r, self.tp, 'r' if self.opaque else 'v')
        self.PREV, self.NEXT = (r, arr[1][0], 'v'), (r, arr[2][0], 'v')
        self.NX, self.sz = (r, sc[0][0], 'v'), (r, sc[1][0], 'v')
        self.G = {g: (r, (('f', g),), 'g') for g in GHOSTS}
        self.A = (r, self.tp, 'a') if self.opaque else (r, (('f', 'al'),), 'g')
        ex.lists[r] = self

    def init(self, st, raw):
        for g, k in self.G.items():
            st.mem[k] = self.ex.fresh("%s.%s" % (self.r.name, g), AII)
        if not self.opaque:
            st.mem[self.A] = self.ex.fresh("%s.al" % self.r.name, AIB) if not raw else z3.K(I, FALSE)

    def keys(self):
        """everything an insertion or erasure may change"""
        return [self.V, self.R, self.PREV, self.NEXT, self.NX, self.sz, self.A] + list(self.G.values())

    def acc(self, s):
        m = s.mem
        return Acc(at=sel(m[self.G['at']]), pos=sel(m[self.G['pos']]), fat=sel(m[self.G['fat']]), fpos=sel(m[self.G['fpos']]), mem=sel(m[self.A]),
                   next=sel(m[self.NEXT]), prev=sel(m[self.PREV]), raw=sel(m[self.R]), head=i2z(m[self.NX]), len=i2z(m[self.sz]))

    def clauses(self, a, goal=False):
        """class invariant: (name, tags, formula); quantified with patterns, or over fresh constants when it is to be proved"""
        N, n = i2z(self.cap), a.len
        fl = N - n
        out = [("inv-size<=capacity", F + BD, z3.And(n >= 0, n <= N)),
               ("inv-ends", F, z3.And(a.at(-1) == N, a.at(n) == N, a.pos(N) == n, a.next(N) == a.at(0), a.prev(N) == a.at(n - 1))),
               ("inv-free-list-ends", F, z3.And(a.fat(fl) == N, a.head == a.fat(0)))]

        def q(name, tags, body, *pats):
            if goal:
                k = self.ex.fresh("k")
                out.append((name, tags, body(k)))
            else:
                k = z3.Int("k!" + name)
                for i, p in enumerate(pats):
                    out.append((name + str(i), tags, z3.ForAll([k], body(k), patterns=[p.pat(k)])))
        q("inv-sequence", F, lambda k: z3.Implies(z3.And(k >= 0, k < n), z3.And(a.at(k) >= 0, a.at(k) < N, a.mem(a.at(k)), a.pos(a.at(k)) == k)), a.at)
        q("inv-members", L + F, lambda i: z3.Implies(a.mem(i), z3.And(i >= 0, i < N, a.pos(i) >= 0, a.pos(i) < n, a.at(a.pos(i)) == i)), a.mem, a.pos)
        q("inv-next", F, lambda i: z3.Implies(a.mem(i), a.next(i) == a.at(a.pos(i) + 1)), a.next)
        q("inv-prev", F, lambda i: z3.Implies(a.mem(i), a.prev(i) == a.at(a.pos(i) - 1)), a.prev)
        q("inv-prev-next", F, lambda i: z3.Implies(z3.Or(i == N, a.mem(i)), z3.And(a.next(a.prev(i)) == i, z3.Implies(a.prev(i) == N, a.pos(i) == 0), z3.Implies(a.prev(i) != N, z3.And(a.mem(a.prev(i)), a.pos(a.prev(i)) == a.pos(i) - 1)))), a.prev)
        q("inv-free", F, lambda k: z3.Implies(z3.And(k >= 0, k < fl), z3.And(a.fat(k) >= 0, a.fat(k) < N, z3.Not(a.mem(a.fat(k))), a.fpos(a.fat(k)) == k)), a.fat)
        q("inv-nonmembers", F, lambda i: z3.Implies(z3.And(z3.Not(a.mem(i)), i >= 0, i < N), z3.And(a.fpos(i) >= 0, a.fpos(i) < fl, a.fat(a.fpos(i)) == i)), a.fpos)
        q("inv-free-links", F, lambda i: z3.Implies(z3.And(z3.Not(a.mem(i)), i >= 0, i < N), z3.And(a.raw(i) == a.fat(a.fpos(i) + 1), a.fpos(i) >= 0, a.fpos(i) < fl, a.fat(a.fpos(i)) == i)), a.raw)
        return out

    def inv_assume(self, s):
        return [f for _, _, f in self.clauses(self.acc(s))]

    def inv_goals(self, s, acc=None):
        return self.clauses(acc or self.acc(s), goal=True)

    def len(self, s):
        return i2z(s.mem[self.sz])

    def idx(self, s, k):
        return z3.Select(s.mem[self.G['at']], i2z(k))

    def base(self, s):
        return z3.IntVal(0)

    scal_base = base

    def pos_of(self, s, i):
        """position of slot i; the sentinel counts as the end"""
        i = i2z(i)
        return z3.Select(s.mem[self.G['pos']], i)

    def member(self, s, i):
        return z3.Select(s.mem[self.A], i2z(i))

    def val(self, s, i):
        return z3.Select(s.mem[self.V], i2z(i))

    def at(self, s, k):
        return self.val(s, self.idx(s, k))

    def alive(self, s, i):
        return z3.Select(s.mem[self.A], i2z(i))

    def ptr(self, s, k):
        return self.slotptr(self.idx(s, k))

    def slotptr(self, i):
        return Ptr(self.r, tuple(st if st[0] == 'f' else ('x', i) for st in self.tp))

    def all_dead(self, s):
        k = self.ex.fresh("k")
        return [("no-element-left-alive", L, z3.Not(self.alive(s, k)))] if self.opaque else []

    # ---- the contracts of the list primitives: list after the operation, as a function of the list before
    def after_emplace(self, a, idx, k=None, new=None):
        N = i2z(self.cap)
        if k is None:
            k = z3.If(i2z(idx) == N, 0, a.pos(idx) + 1)
            new = a.fat(0)
        return k, new, dict(at=lambda j: z3.If(i2z(j) < k, a.at(j), z3.If(i2z(j) == k, new, a.at(i2z(j) - 1))),
                            pos=lambda i: z3.If(i2z(i) == new, k, z3.If(a.pos(i) >= k, a.pos(i) + 1, a.pos(i))),
                            fat=lambda j: a.fat(i2z(j) + 1), fpos=lambda i: a.fpos(i) - 1,
                            mem=lambda i: z3.Or(i2z(i) == new, a.mem(i)), len=a.len + 1)

    def emplace_facts(self, a, b, idx, k, new):
        """consequences stated for callers (proved with the primitives)"""
        N = i2z(self.cap)
        return z3.And(k >= 0, k <= a.len, z3.Implies(idx == N, k == 0), z3.Implies(idx != N, z3.And(k == a.pos(idx) + 1, b.mem(idx), b.pos(idx) == k - 1)),
                      new >= 0, new < N, new != idx, z3.Not(a.mem(new)), b.mem(new), b.pos(new) == k, b.at(k) == new, b.at(k - 1) == idx,
                      a.next(idx) == a.at(k), a.pos(a.next(idx)) == k, b.pos(a.next(idx)) == k + 1, b.at(k + 1) == a.next(idx), a.next(idx) != new)

    def delete_facts(self, a, b, idx, k, nxt):
        N = i2z(self.cap)
        return z3.And(k >= 0, k < a.len, k == a.pos(idx), nxt >= 0, nxt <= N, nxt != idx, b.next(idx) == nxt, b.pos(nxt) == k, b.at(k) == nxt, a.pos(nxt) == k + 1,
                      z3.Implies(nxt == N, k == b.len), z3.Implies(nxt != N, z3.And(k < b.len, a.mem(nxt), b.mem(nxt))))

    def after_delete(self, a, idx, k=None):
        k = a.pos(idx) if k is None else k
        idx = i2z(idx)
        return k, dict(at=lambda j: z3.If(i2z(j) < k, a.at(j), a.at(i2z(j) + 1)),
                       pos=lambda i: z3.If(a.pos(i) > k, a.pos(i) - 1, a.pos(i)),
                       fat=lambda j: z3.If(i2z(j) == 0, idx, a.fat(i2z(j) - 1)), fpos=lambda i: z3.If(i2z(i) == idx, 0, a.fpos(i) + 1),
                       mem=lambda i: z3.And(i2z(i) != idx, a.mem(i)), len=a.len - 1)

    def after_ctor(self):
        N = i2z(self.cap)
        return dict(at=lambda j: N, pos=lambda i: z3.IntVal(0), fat=lambda j: i2z(j), fpos=lambda i: i2z(i), mem=lambda i: FALSE, len=z3.IntVal(0))


# ------------------------------------------------------------------ proofs of the primitives
class DllContracts(SeqContracts):
    def slot(self, c, end):
        v = c.x['view']
        i = c.nat("idx", bits=self.ibits)
        a = v.acc(c.st)
        c.assume(z3.Or(i == c.N, a.mem(i)) if end else a.mem(i))
        c.x['slot'] = i
        return i

    def specs(self):
        out = []

        def frame(c, s, but):
            v = c.x['view']
            k = c.ex.fresh("k")
            g = v.member(c.S0, k)
            return [("other-elements-stay-in-place", F + ("stability",), z3.Implies(z3.And(g, k != but), v.val(s, k) == v.val(c.S0, k)))]

        def emp(fn, val, extra, post=None, name=None):
            def setup(c):
                c.args = [self.selfarg(c), self.slot(c, True)] + extra(c)
                c.assume(self.v(c).len(c.st) < c.N)

            def post_(c, s, rv):
                v = c.x['view']
                a = v.acc(c.S0)
                k, new, g = v.after_emplace(a, c.x['slot'])
                b = v.acc(s)
                if v.opaque:
                    kk = c.ex.fresh("k")
                    o = [("live-slots-after-emplace", L + F, b.mem(kk) == g['mem'](kk))]
                else:
                    o = []
                o.append(("positions-after-emplace", F, v.emplace_facts(a, b.but(**g), c.x['slot'], k, new)))
                o += [("returns-new-slot", F, i2z(rv) == new), ("new-element-value", F, v.val(s, new) == val(c)), ("size", F, b.len == a.len + 1)]
                return o + v.inv_goals(s, b.but(**g)) + frame(c, s, new) + (post(c, s) if post else [])
            out.append(Spec(fn, setup, post_, name=name))
        emp("emplace_after_copy", lambda c: c.x['v'], lambda c: [self.elem(c)], lambda c, s: self.vend(c, s, False))
        emp("emplace_after_copy", lambda c: c.x['v'], lambda c: [self.alias(c)], name="emplace_after_copy@aliasing")
        emp("emplace_after_move", lambda c: c.x['v'], lambda c: [self.elem(c, modifies=True)], lambda c, s: self.vend(c, s, True))
        if not self.triv:
            emp("emplace_after_make", self.made_value, lambda c: [self.intarg(c)])
        emp("emplace_after_none", self.default_value, lambda c: [])

        def dsetup(c):
            c.args = [self.selfarg(c), self.slot(c, False)]

        def dpost(c, s, rv):
            v, i = c.x['view'], c.x['slot']
            a = v.acc(c.S0)
            k, g = v.after_delete(a, i)
            b = v.acc(s)
            o = [("returns-next-slot", F, i2z(rv) == a.at(k + 1)), ("size", F, b.len == a.len - 1)]
            b2, nx = b.but(**g), a.at(k + 1)
            o.append(("next-slot-takes-the-position", F, v.delete_facts(a, b2, i, k, nx)))
            if v.opaque:
                kk = c.ex.fresh("k")
                o.append(("live-slots-after-delete", L + F, b.mem(kk) == g['mem'](kk)))
            return o + v.inv_goals(s, b.but(**g)) + frame(c, s, i)
        out.append(Spec("delete_at", dsetup, dpost))

        def cpost(c, s, rv):
            v = c.x['view']
            b = v.acc(s)
            kk = c.ex.fresh("k")
            return v.inv_goals(s, b.but(**v.after_ctor())) + ([("no-element-alive", L, z3.Not(b.mem(kk)))] if v.opaque else []) + [("size", F, b.len == 0)]
        out.append(Spec("ctor_default", lambda c: setattr(c, 'args', [self.rawarg(c)]), cpost))
        return out


def dll_specs(ty, et, trivial, ibits=64):
    C = DllContracts(ListView, ty, et, trivial=trivial)
    C.ibits = ibits
    return C.specs()


# ------------------------------------------------------------------ callers: the primitives are calls, replaced by their contracts
def find_list(ex, p, what):
    if not isinstance(p, Ptr) or p.r not in ex.lists or any(s[0] == 'x' for s in p.p):
        raise Unsupported("list primitive on an unknown object: " + what)
    return ex.lists[p.r]


def set_key(ex, st, key, val):
    if ex.writes is not None:
        ex.writes.append((key, ['seg'], None))
    st.mem[key] = val


def restate(ex, st, v, g, names):
    """new ghost/link arrays after a primitive: defined by g, and satisfying the class invariant"""
    j = z3.Int("j!def")
    for nm in names:
        a = ex.fresh("%s.%s" % (v.r.name, nm), AII)
        st.assume(z3.ForAll([j], z3.Select(a, j) == g[nm](j), patterns=[z3.Select(a, j)]))
        set_key(ex, st, v.G[nm], a)
    for key in (v.NEXT, v.PREV):
        set_key(ex, st, key, ex.fresh("%s.ch" % v.r.name, AII))
    if v.opaque:
        set_key(ex, st, v.R, ex.fresh("%s.raw" % v.r.name, AII))
    nx = ex.fresh("%s.nx" % v.r.name)
    set_key(ex, st, v.NX, nx)


def check_pre(ex, st, v, loc):
    for name, tags, f in v.inv_goals(st):
        ex.oblige(st, f, "list-primitive-requires:" + name, tags, loc, assume_after=False)


def h_emplace(ex, st, a, ins, dem):
    v = find_list(ex, a[0], "emplace")
    loc = ins.loc
    idx = i2z(ex.toint(st, a[1]))
    acc = v.acc(st)
    check_pre(ex, st, v, loc)
    ex.oblige(st, z3.Or(idx == v.cap, acc.mem(idx)), "emplace-after-an-element-or-the-sentinel", F + BD, loc)
    ex.oblige(st, acc.len < v.cap, "emplace-only-when-not-full", F + BD, loc)
    m = re.search(r"emplace_after_index_and_return_index<(.*?)>\(", dem)
    targs = m.group(1) if m else ""
    et = v.lt
    if v.opaque:
        if len(a) == 2:
            val = dflE
        elif targs in ("E const&", "E", "E&"):
            b, ix = eloc(ex, st, a[2], loc, "emplace-source")
            need(ex, st, b, ix, loc, "emplace-source")
            val = ex.rd(st, b + ('v',), ix)
        elif targs in ("int&", "int", "int const&"):
            val = mkE(i2z(ex.toint(st, ex.load(st, a[2], Ty('int', bits=32), loc), 32)))
        else:
            raise Unsupported("emplace of <%s>" % targs)
    else:
        sb = 32 if targs in ("int&", "int", "int const&") else et.bits
        val = z3.IntVal(0) if len(a) == 2 else i2z(ex.toint(st, ex.load(st, a[2], Ty('int', bits=sb), loc), sb))
        if sb < et.bits:    # int to unsigned 64-bit conversion
            x = ex.fresh("ext")
            st.assume(x == z3.If(val < 2 ** (sb - 1), val, val + 2 ** et.bits - 2 ** sb))
            val = x
    k, nw = ex.fresh("k"), ex.fresh("slot")
    _, _, g = v.after_emplace(acc, idx, k, nw)
    n0 = acc.len
    ex.wr(st, v.V, [nw], val)
    if v.opaque:
        ex.wr(st, v.A, [nw], TRUE)
        if targs == "E":
            ex.wr(st, b + ('v',), ix, ex.fresh("moved"))
    else:
        set_key(ex, st, v.A, z3.Store(st.mem[v.A], nw, TRUE))
        # free slots other than the one taken keep their links (stated by the invariant); live values are unchanged
    st.assume(nw == acc.fat(0))
    restate(ex, st, v, g, GHOSTS)
    ex.wr(st, v.sz, [], simp(n0 + 1))
    st.assume(v.emplace_facts(acc, v.acc(st), idx, k, nw))
    st.assume(v.inv_assume(st))
    ex.note_assumed("list primitives emplace_after/delete_at/constructor by contract (proved in group dll)")
    return nw


def h_delete(ex, st, a, ins, dem):
    v = find_list(ex, a[0], "delete")
    loc = ins.loc
    idx = i2z(ex.toint(st, a[1]))
    acc = v.acc(st)
    check_pre(ex, st, v, loc)
    ex.oblige(st, acc.mem(idx), "delete-of-an-element", F + BD + L, loc)
    k, nxt = ex.fresh("k"), ex.fresh("nextslot")
    _, g = v.after_delete(acc, idx, k)
    st.assume(nxt == acc.at(k + 1))
    n0 = acc.len
    if v.opaque:
        ex.wr(st, v.A, [idx], FALSE)
        ex.wr(st, v.V, [idx], ex.fresh("gone"))
    else:
        set_key(ex, st, v.A, z3.Store(st.mem[v.A], idx, FALSE))
        ex.wr(st, v.V, [idx], acc.fat(0))
    restate(ex, st, v, g, GHOSTS)
    ex.wr(st, v.sz, [], simp(n0 - 1))
    st.assume(v.delete_facts(acc, v.acc(st), idx, k, nxt))
    st.assume(v.inv_assume(st))
    ex.note_assumed("list primitives emplace_after/delete_at/constructor by contract (proved in group dll)")
    return nxt


def h_ctor(ex, st, a, ins, dem):
    v = find_list(ex, a[0], "construct")
    if v.opaque:
        k = ex.fresh("k")
        ex.oblige(st, z3.Not(z3.Select(st.mem[v.A], k)), "construct-over-live-list", L, ins.loc, assume_after=False)
    set_key(ex, st, v.A, z3.K(I, FALSE))
    if not v.opaque:
        set_key(ex, st, v.V, ex.fresh("%s.v" % v.r.name, AII))
    restate(ex, st, v, v.after_ctor(), GHOSTS)
    ex.wr(st, v.sz, [], z3.IntVal(0))
    st.assume(v.inv_assume(st))
    ex.note_assumed("list primitives emplace_after/delete_at/constructor by contract (proved in group dll)")


PRIM = r"^(\w+ )?(\w+ )?fixed_containers::fixed_doubly_linked_list_detail::FixedDoublyLinkedListBase<.*>::"
KEEP = (PRIM + r"(emplace_after_index_and_return_index|delete_at_and_return_next_index)\b", PRIM + r"FixedDoublyLinkedListBase\(\)$")
LIST_MODELS = [(PRIM + "emplace_after_index_and_return_index", h_emplace), (PRIM + "delete_at_and_return_next_index", h_delete), (PRIM + r"FixedDoublyLinkedListBase\(\)$", h_ctor)]


def derived_scalars(ex, ent, phis):
    """loop scalars beyond the phis: list positions of loop-carried slots and of the contract's fixed slots"""
    out = []
    slots = [(p.id, (lambda pid: lambda s: i2z(s.env[pid]))(p.id)) for p in phis
             if p.ty.k == 'int' and p.ty.bits > 8 and (isinstance(ent.env[p.id], int) or (z3.is_expr(ent.env[p.id]) and z3.is_int(ent.env[p.id])))]
    c = getattr(ex, 'ctx', None)
    for nm, t in (c.x.get('slots', []) if c is not None else []) + getattr(ex, 'cmpslots', []):
        slots.append((nm, lambda s, t=t: t))
    for r, v in ex.lists.items():
        for nm, g in slots:
            out.append(("pos_%s(%s)" % (r.name, nm), lambda s, v=v, g=g: v.pos_of(s, g(s)), v, g))
    return out


def list_hints(c, li):
    ex, ent = li.ex, li.ent
    out = []
    k = z3.Int("k!lh")
    der = derived_scalars(ex, ent, li.phis)
    vals = c.x.get('newvals', [])          # candidate descriptions of incoming values: fn(offset)
    p0s = [("pos", c.x['pos'])] if 'pos' in c.x else []
    for r, v in ex.lists.items():
        mod = v.G['at'] in li.modset
        A0, V0, T0, n0 = ent.mem[v.A], ent.mem[v.V], ent.mem[v.G['at']], v.len(ent)
        if mod:
            for nm, tags, f in v.clauses(v.acc(ent)):
                pass
            nclause = len(v.clauses(v.acc(ent)))
            for i in range(nclause):
                out.append(("inv%d(%s)" % (i, r.name), lambda s, v=v, i=i: v.clauses(v.acc(s))[i][2]))
            out.append(("kept-values(%s)" % r.name, lambda s, v=v, A0=A0, V0=V0: z3.ForAll([k], z3.Implies(z3.Select(A0, k), z3.And(v.member(s, k), v.val(s, k) == z3.Select(V0, k))), patterns=[v.val(s, k)])))
            out.append(("kept-members(%s)" % r.name, lambda s, v=v, A0=A0, V0=V0: z3.ForAll([k], z3.Implies(z3.Select(A0, k), v.member(s, k)), patterns=[z3.Select(A0, k)])))
            out.append(("left-values(%s)" % r.name, lambda s, v=v, A0=A0, V0=V0: z3.ForAll([k], z3.Implies(v.member(s, k), z3.And(z3.Select(A0, k), v.val(s, k) == z3.Select(V0, k))), patterns=[v.val(s, k)])))
            out.append(("left-members(%s)" % r.name, lambda s, v=v, A0=A0, V0=V0: z3.ForAll([k], z3.Implies(v.member(s, k), z3.Select(A0, k)), patterns=[v.member(s, k)])))
            if v.opaque:
                out.append(("values-same(%s)" % r.name, lambda s, v=v: s.mem[v.V] == V0))
        elif v.A in li.modset or v.V in li.modset:
            pass
        bs = [(nm, g) for nm, g, vv, _ in der if vv is v] + [(nm, lambda s, t=t: t) for nm, t in p0s] + [("len", lambda s, v=v: v.len(s)), ("len0", lambda s, n0=n0: n0)]
        for nm, g, vv, sl in der:
            if vv is v:
                out.append(("slot(%s,%s)" % (r.name, nm), lambda s, v=v, sl=sl: z3.Or(sl(s) == v.cap, v.member(s, sl(s)))))
                out.append(("member(%s,%s)" % (r.name, nm), lambda s, v=v, sl=sl: v.member(s, sl(s))))
                out.append(("in-range(%s)" % nm, lambda s, g=g, v=v: z3.And(g(s) >= 0, g(s) <= v.len(s))))
        if mod:
            for nm, g in bs:
                out.append(("at-prefix(%s,%s)" % (r.name, nm), lambda s, v=v, g=g, T0=T0: z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < g(s)), v.idx(s, k) == z3.Select(T0, k)), patterns=[v.idx(s, k)])))
                out.append(("at-suffix(%s,%s)" % (r.name, nm), lambda s, v=v, g=g, T0=T0, n0=n0: z3.ForAll([k], z3.Implies(z3.And(k >= g(s), k < v.len(s)), v.idx(s, k) == z3.Select(T0, k + n0 - v.len(s))), patterns=[v.idx(s, k)])))
            lows = p0s + [("n0", n0)] + [("0", z3.IntVal(0))]
            for ln, lo in lows:
                for nm, g in bs:
                    for vi, fn in enumerate(vals):
                        out.append(("new%d(%s,[%s,%s))" % (vi, r.name, ln, nm), lambda s, v=v, g=g, lo=lo, fn=fn: z3.ForAll([k], z3.Implies(z3.And(k >= lo, k < g(s)), v.at(s, k) == fn(k - lo)), patterns=[v.idx(s, k)])))
                    # loop-carried "first inserted" slot
                for p in li.phis:
                    if p.ty.k == 'int' and p.ty.bits > 8 and p.id in li.phimod:
                        for sn, sl in c.x.get('slots', []) + [("cap", i2z(v.cap))]:
                            out.append(("first-inserted(%s,%s,%s)" % (p.id, ln, sn), lambda s, v=v, p=p, lo=lo, sl=sl, n0=n0: i2z(s.env[p.id]) == z3.If(v.len(s) > n0, v.idx(s, lo), sl)))
    ls = list(ex.lists.values())
    if len(ls) == 2:
        # two lists walked in lockstep
        for a, b in ((ls[0], ls[1]), (ls[1], ls[0])):
            for nm, g, vv, _ in der:
                if vv is not a:
                    continue
                if b.A in li.modset or b.V in li.modset:
                    if a.opaque:
                        pa = a.G['pos']
                        out.append(("copied-live(%s,%s)" % (b.r.name, nm), lambda s, a=a, b=b, g=g: z3.ForAll([k], b.member(s, k) == z3.And(a.member(li.ent, k), z3.Select(li.ent.mem[a.G['pos']], k) < g(s)), patterns=[b.member(s, k)])))
                        out.append(("copied-values(%s,%s)" % (b.r.name, nm), lambda s, a=a, b=b, g=g: z3.ForAll([k], z3.Implies(z3.And(a.member(li.ent, k), z3.Select(li.ent.mem[a.G['pos']], k) < g(s)), b.val(s, k) == a.val(li.ent, k)), patterns=[b.val(s, k)])))
                        out.append(("uncopied-source(%s,%s)" % (b.r.name, nm), lambda s, a=a, b=b, g=g: z3.ForAll([k], z3.Implies(z3.And(a.member(li.ent, k), z3.Select(li.ent.mem[a.G['pos']], k) >= g(s)), a.val(s, k) == a.val(li.ent, k)), patterns=[a.val(s, k)])))
                        out.append(("raw-of-dead(%s)" % b.r.name, lambda s, a=a, b=b: z3.ForAll([k], z3.Implies(z3.Not(a.member(li.ent, k)), z3.Select(s.mem[b.R], k) == z3.Select(li.ent.mem[b.R], k)), patterns=[z3.Select(s.mem[b.R], k)])))
                if not a.A in li.modset and not b.A in li.modset and 'eqv' in c.x:
                    E = c.x['eqv']
                    out.append(("agree-below(%s)" % nm, lambda s, a=a, b=b, g=g: z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < g(s)), E(ls[0].at(s, k), ls[1].at(s, k))), patterns=[ls[0].idx(s, k)])))
                    O = c.x['ordv']
                    out.append(("same-order-below(%s)" % nm, lambda s, a=a, b=b, g=g: z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < g(s)), O(ls[0].at(s, k)) == O(ls[1].at(s, k))), patterns=[ls[0].idx(s, k)])))
                    if 'd' in c.x:
                        out.append(("below-first-difference(%s)" % nm, lambda s, g=g: g(s) <= c.x['d']))
    return out


class ListContracts(SeqContracts):
    ibits = 64

    def it(self, c, name, slot, ty, modifies=False, lst=None):
        """iterator object {list, slot}"""
        r = c.region(name, ty)
        for tp, kind, t in c.ex.leaves(ty):
            if kind == 'ptr':
                c.st.mem[(r, tp, 'v')] = Ptr(lst or c.x['view'].r)
            else:
                c.st.mem[(r, tp, 'v')] = slot
        if modifies:
            c.modifies.add(name)
        return Ptr(r)

    def rcursor(self, c, ty):
        """reverse iterator whose base is at an arbitrary position p: it holds the slot of element p-1"""
        v = c.x['view']
        p = c.nat("pos")
        c.assume(p <= v.len(c.st))
        c.x['pos'] = p
        t = c.ex.fresh("slot_pos")
        c.assume(t == v.idx(c.st, p - 1))
        c.assume(z3.And(t >= 0, t <= v.cap, z3.Implies(p >= 1, z3.And(v.pos_of(c.st, t) == p - 1, t != v.cap)), z3.Implies(p == 0, t == v.cap)))
        return self.it(c, "it_pos", t, ty)

    def cursor(self, c, name="pos", hi=None, ty=None, modifies=False):
        """iterator argument at an arbitrary position"""
        v = c.x['view']
        p = c.nat(name)
        c.assume(p <= v.len(c.st) if hi is None else p < v.len(c.st))
        c.x[name] = p
        c.x.setdefault('terms', []).append(p)
        sl = v.idx(c.st, p)
        t = c.ex.fresh("slot_" + name)
        c.assume(t == sl)
        c.assume(z3.And(t >= 0, t <= v.cap, v.pos_of(c.st, t) == p))
        c.x.setdefault('slots', []).append((name, t))
        c.x.setdefault('terms', []).append(t)
        return self.it(c, "it_" + name, t, ty or self.CIt, modifies)

    def out(self, c, ty=None):
        r = c.region("out", ty or self.It)
        c.modifies.add("out")
        c.x.setdefault('uninit', set()).add("out")
        c.x['out'] = r
        return Ptr(r)

    def out_is(self, c, s, k, name="returned-iterator"):
        v = c.x['view']
        r = c.x['out']
        o = []
        for tp, kind, t in c.ex.leaves(r.ty):
            x = s.mem[(r, tp, 'v')]
            if kind == 'ptr':
                o.append((name + ":container", F, b2z(c.ex.ptr_eq(x, Ptr(v.r))) if isinstance(x, Ptr) and x.r is v.r else FALSE))
            else:
                o.append((name + ":position", F, i2z(x) == v.idx(s, k)))
        return o

    def slot_is(self, c, s, name, k, lbl):
        v = c.x['view']
        r = next(x for x in s.regs if x.name == "it_" + name)
        return [(lbl, F, i2z(s.mem[(r, tp, 'v')]) == v.idx(s, k)) for tp, kind, t in c.ex.leaves(r.ty) if kind != 'ptr']

    def mk(self, fn, args, result, policy=None, ret=None, name=None, pre=None, extra=None, newvals=None, stable=None, wit=None, **kw):
        def setup(c):
            c.args = args(c)
            if pre:
                c.assume(pre(c))
            if newvals:
                c.x['newvals'] = newvals(c)

        def post(c, s, rv):
            v = c.x['view']
            w = None
            if wit:       # the ghost sequences of the result are those of the source
                src = c.x['ov'].acc(c.S0)
                w = v.acc(s).but(at=src.at, pos=src.pos, fat=src.fat, fpos=src.fpos)
                if not v.opaque:
                    w.mem = src.mem
                else:
                    kk = c.ex.fresh("k")
                    out0 = [("live-slots-as-in-source", L, v.alive(s, kk) == src.mem(kk))]
            out = list(v.inv_goals(s, w))
            if wit:
                n, fn_ = result(c)
                k = c.ex.fresh("k")
                out += [("contents:size", F, v.len(s) == n), ("contents:elements", F, z3.Implies(z3.And(k >= 0, k < n), v.val(s, src.at(k)) == fn_(k)))]
                if v.opaque:
                    out += out0
            else:
                out += seq_is(v, s, *(result(c) if result else (v.len(c.S0), lambda k: v.at(c.S0, k))))
            if stable is not None:
                # references: the surviving elements stay in their slots
                k = c.ex.fresh("k")
                out.append(("surviving-elements-keep-their-address", ("stability",) + F, z3.Implies(z3.And(k >= 0, k < v.len(c.S0)), stable(c, s, k))))
            if ret:
                out += ret(c, s, rv)
            if extra:
                out += extra(c, s, rv)
            return out
        return Spec(fn, setup, post, policy, name=name, hints=[list_hints] + list(kw.pop('hints', [])), **kw)

    def specs(self):
        sp = []
        S, E_, R = self.selfarg, self.elem, self.rng
        full = lambda c: {"length_error": self.n0(c) >= c.N}
        over = lambda n: (lambda c: {"length_error": n(c) > c.N})
        emp = lambda c: {"empty_container_access": self.n0(c) == 0}
        vend = lambda m: (lambda c, s, rv: self.vend(c, s, m))

        def add(*a, **k):
            sp.append(self.mk(*a, **k))
        nothing = lambda c: (z3.IntVal(0), lambda k: z3.IntVal(0))
        one_ = lambda f: (lambda c: [lambda o: f(c)])
        rngv = lambda c: [lambda o: c.x['rv'](o)]
        # after inserting m elements at p, the element formerly at k is in the same slot, at k or k+m
        sl0 = lambda c, k: self.v(c).idx(c.S0, k)
        st_ins = lambda p, m: (lambda c, s, k: self.v(c).idx(s, z3.If(k < p(c), k, k + m(c))) == sl0(c, k))
        st_del = lambda p, m: (lambda c, s, k: z3.Implies(z3.Or(k < p(c), k >= p(c) + m(c)), self.v(c).idx(s, z3.If(k < p(c), k, k - m(c))) == sl0(c, k)))
        P_, ONE = (lambda c: c.x['pos']), (lambda c: z3.IntVal(1))
        N0 = self.n0
        add("ctor_default", lambda c: [self.rawarg(c)], nothing)
        add("ctor_count", lambda c: [self.rawarg(c), self.cnt(c)], lambda c: (c.x['cnt'], lambda k: self.default_value(c)), over(lambda c: c.x['cnt']), newvals=one_(self.default_value))
        add("ctor_count_val", lambda c: [self.rawarg(c), self.cnt(c), E_(c)], lambda c: (c.x['cnt'], lambda k: c.x['v']), over(lambda c: c.x['cnt']), extra=vend(False), newvals=one_(lambda c: c.x['v']))
        rr = lambda c: (c.x['n'], c.x['rv'])
        for fn in ("ctor_range", "ctor_ilist", "ctor_input_it"):
            add(fn, lambda c: [self.rawarg(c), *R(c)], rr, over(lambda c: c.x['n']), newvals=rngv)

        def other(c, const):
            r, v = self.live(c, "other", const)
            c.x['ov'] = v
            return Ptr(r)
        ov = lambda c: (c.x['ov'].len(c.S0), lambda k: c.x['ov'].at(c.S0, k))

        def other_(cleared, same):
            def f(c, s, rv):
                v = c.x['ov']
                o = v.inv_goals(s)
                if same or self.triv:
                    o += seq_is(v, s, *ov(c), name="source-unchanged")
                elif cleared:
                    o += [("source-cleared", F, v.len(s) == 0)]
                return [(n + "(other)", t, g) for n, t, g in o]
            return f
        add("copy_ctor", lambda c: [self.rawarg(c), other(c, True)], ov, extra=other_(0, 1), wit=1)
        add("move_ctor", lambda c: [self.rawarg(c), other(c, False)], ov, extra=other_(1, 0), wit=1)
        add("copy_assign", lambda c: [S(c), other(c, True)], ov, extra=other_(0, 1), wit=1)
        add("move_assign", lambda c: [S(c), other(c, False)], ov, extra=other_(0, 0), wit=1)
        same = lambda c, s, k: self.v(c).idx(s, k) == sl0(c, k)
        add("self_copy_assign", lambda c: [S(c)] * 2, None)
        add("self_move_assign", lambda c: [S(c)] * 2, None)
        sp.append(Spec("dtor", lambda c: setattr(c, 'args', [S(c)]), lambda c, s, rv: self.v(c).all_dead(s), hints=[list_hints]))
        rs = lambda val: (lambda c: (c.x['cnt'], lambda k: z3.If(k < N0(c), self.a0(c, k), val(c))))
        st_rs = lambda c, s, k: z3.Implies(k < c.x['cnt'], self.v(c).idx(s, k) == sl0(c, k))
        add("resize", lambda c: [S(c), self.cnt(c)], rs(self.default_value), over(lambda c: c.x['cnt']), newvals=one_(self.default_value), stable=st_rs)
        add("resize_val", lambda c: [S(c), self.cnt(c), E_(c)], rs(lambda c: c.x['v']), over(lambda c: c.x['cnt']), newvals=one_(lambda c: c.x['v']), extra=vend(False), stable=st_rs)
        V_ = lambda c: c.x['v']
        app = lambda val: (lambda c: self.append_seq(c, val))
        pre = lambda val: (lambda c: (N0(c) + 1, lambda k: z3.If(k == 0, val(c), self.a0(c, k - 1))))
        Z = lambda c: z3.IntVal(0)
        for side, f, p in (("back", app, N0), ("front", pre, Z)):
            add("push_%s_copy" % side, lambda c: [S(c), E_(c)], f(V_), full, extra=vend(False), stable=st_ins(p, ONE))
            add("push_%s_copy" % side, lambda c: [S(c), self.alias(c)], f(V_), full, name="push_%s_copy@aliasing" % side)
            add("push_%s_move" % side, lambda c: [S(c), E_(c, modifies=True)], f(V_), full, extra=vend(True), stable=st_ins(p, ONE))
            add("emplace_%s" % side, lambda c: [S(c), self.intarg(c)], f(self.made_value), full, stable=st_ins(p, ONE),
                ret=lambda c, s, rv, p=p: self.elem_ret(c, s, rv, p(c), "returns-reference-to-new-element"))
        add("pop_back", lambda c: [S(c)], lambda c: (N0(c) - 1, lambda k: self.a0(c, k)), emp, stable=st_del(lambda c: N0(c) - 1, ONE))
        add("pop_front", lambda c: [S(c)], lambda c: (N0(c) - 1, lambda k: self.a0(c, k + 1)), emp, stable=st_del(Z, ONE))
        one = lambda val: (lambda c: self.insert_seq(c, c.x['pos'], 1, lambda k: val(c)))
        ret = lambda c, s, rv: self.out_is(c, s, c.x['pos'])
        cur = self.cursor
        si = st_ins(P_, ONE)
        add("insert_copy", lambda c: self.oa(c, lambda: [cur(c), E_(c)]), one(V_), full, ret=ret, extra=vend(False), stable=si)
        add("insert_copy", lambda c: self.oa(c, lambda: [cur(c), self.alias(c)]), one(V_), full, ret=ret, name="insert_copy@aliasing", stable=si)
        add("insert_move", lambda c: self.oa(c, lambda: [cur(c), E_(c, modifies=True)]), one(V_), full, ret=ret, extra=vend(True), stable=si)
        add("emplace", lambda c: self.oa(c, lambda: [cur(c), self.intarg(c)]), one(self.made_value), full, ret=ret, stable=si)
        many = lambda c: self.insert_seq(c, c.x['pos'], c.x['n'], c.x['rv'])
        for fn in ("insert_range", "insert_ilist", "insert_input_it"):
            add(fn, lambda c: self.oa(c, lambda: [cur(c), *R(c)]), many, over(lambda c: N0(c) + c.x['n']), ret=ret, newvals=rngv, unchanged=fn != "insert_input_it", stable=st_ins(P_, lambda c: c.x['n']))
        add("assign_count", lambda c: [S(c), self.cnt(c), E_(c)], lambda c: (c.x['cnt'], lambda k: c.x['v']), over(lambda c: c.x['cnt']), extra=vend(False), newvals=one_(V_))
        for fn in ("assign_range", "assign_ilist", "assign_input_it"):
            add(fn, lambda c: [S(c), *R(c)], rr, over(lambda c: c.x['n']), unchanged=False, newvals=rngv)
        er1 = lambda c: self.erase_seq(c, c.x['pos'], c.x['pos'] + 1)
        add("erase_one", lambda c: self.oa(c, lambda: [cur(c)]), er1, lambda c: {"invalid_argument": c.x['pos'] == N0(c)}, ret=ret, stable=st_del(P_, ONE))
        add("erase_range", lambda c: self.oa(c, lambda: [cur(c), cur(c, "last")]), lambda c: self.erase_seq(c, c.x['pos'], c.x['last']), ret=ret,
            pre=lambda c: c.x['pos'] <= c.x['last'], stable=st_del(P_, lambda c: c.x['last'] - c.x['pos']))
        add("clear", lambda c: [S(c)], nothing)
        # observers
        def obs(fn, argf, retf, policy=None, **kw):
            add(fn, argf, None, policy, ret=retf, **kw)
        for fn in ("front", "front_mut"):
            obs(fn, lambda c: [S(c, True)], lambda c, s, rv: self.elem_ret(c, s, rv, 0), emp)
        for fn in ("back", "back_mut"):
            obs(fn, lambda c: [S(c, True)], lambda c, s, rv: self.elem_ret(c, s, rv, N0(c) - 1), emp)
        val = lambda name, f: (lambda c, s, rv: [(name, F, (b2z(c.ex.tobool(s, rv)) if z3.is_bool(i2z0(f(c))) else i2z(rv)) == f(c))])
        obs("size", lambda c: [S(c, True)], val("size", N0))
        obs("empty", lambda c: [S(c, True)], val("empty", lambda c: N0(c) == 0))
        obs("max_size", lambda c: [S(c, True)], val("max_size", lambda c: c.N))
        obs("is_full", lambda c: [S(c, True)], val("is_full", lambda c: N0(c) == c.N))
        # iterators
        for fn, ty, k in (("it_begin", "It", Z), ("it_cbegin", "CIt", Z), ("it_end", "It", N0), ("it_cend", "CIt", N0)):
            obs(fn, lambda c, ty=ty: self.oa(c, lambda: [], ty, True), lambda c, s, rv, k=k: self.out_is(c, s, k(c)))

        def itarg(*cursors, out=None):
            def f(c):
                S(c, True)
                a = [self.out(c, getattr(self, out))] if out else []
                return a + [x(c) for x in cursors]
            return f
        I_, C_, R_, CR = self.It, self.CIt, self.RIt, self.CRIt
        deref = lambda c, s, rv: self.elem_ret(c, s, rv, c.x['pos'])
        obs("it_deref_mut", itarg(lambda c: cur(c, hi=1, ty=I_)), deref)
        obs("it_deref", itarg(lambda c: cur(c, hi=1)), deref)
        obs("it_arrow", itarg(lambda c: cur(c, hi=1)), deref)
        obs("it_inc", itarg(lambda c: cur(c, modifies=True), out="CIt"), lambda c, s, rv: self.out_is(c, s, c.x['pos'] + 1) + self.slot_is(c, s, "pos", c.x['pos'] + 2, "advanced-twice"),
            pre=lambda c: c.x['pos'] + 2 <= self.v(c).len(c.st))
        obs("it_dec", itarg(lambda c: cur(c, modifies=True), out="CIt"), lambda c, s, rv: self.out_is(c, s, c.x['pos'] - 1) + self.slot_is(c, s, "pos", c.x['pos'] - 2, "moved-back-twice"),
            pre=lambda c: c.x['pos'] >= 2)
        obs("it_eq", itarg(lambda c: cur(c), lambda c: cur(c, "last")), val("iterators-equal-iff-same-position", lambda c: c.x['pos'] == c.x['last']))
        obs("it_ne_mixed", itarg(lambda c: cur(c, ty=I_), lambda c: cur(c, "last")), val("iterators-differ-iff-other-position", lambda c: c.x['pos'] != c.x['last']))
        obs("it_convert", itarg(lambda c: cur(c, ty=I_), out="CIt"), lambda c, s, rv: self.out_is(c, s, c.x['pos']))
        ne = lambda c: self.v(c).len(c.st) > 0
        for fn in ("rit_walk", "rit_walk_mut"):
            obs(fn, lambda c: [S(c, True)], lambda c, s, rv: self.elem_ret(c, s, rv, N0(c) - 1), pre=ne)
        obs("rit_empty", lambda c: [S(c, True)], val("rbegin==rend-iff-empty", lambda c: N0(c) == 0))
        # a reverse iterator with base position p designates element p-1
        obs("rit_inc", itarg(lambda c: self.rcursor(c, CR)), lambda c, s, rv: self.elem_ret(c, s, rv, c.x['pos'] - 3), pre=lambda c: c.x['pos'] >= 3)
        obs("rit_dec", itarg(lambda c: self.rcursor(c, CR)), lambda c, s, rv: self.elem_ret(c, s, rv, c.x['pos'] + 1), pre=lambda c: c.x['pos'] + 2 <= self.v(c).len(c.st))
        obs("rit_at_end", lambda c: [S(c, True), self.rcursor(c, CR)], val("rend-is-base-begin", lambda c: c.x['pos'] == 0))
        obs("rit_convert", itarg(lambda c: self.rcursor(c, R_)), lambda c, s, rv: self.elem_ret(c, s, rv, c.x['pos'] - 1), pre=lambda c: c.x['pos'] >= 1)
        obs("rit_base", itarg(lambda c: self.rcursor(c, CR), out="CIt"), lambda c, s, rv: self.out_is(c, s, c.x['pos']))
        sp += [self.equal_spec(), self.less_spec(), self.equal_spec("equal_other", True), self.less_spec("less_other", True)]
        for x in sp[-4:]:
            x.hints = [list_hints]
        for x in sp[-2:]:
            x.boost = 4
        # (for a trivially copyable element the comparison across capacities is the same template instantiated with another element type)
        return sp + self.filter_specs() if not self.triv else sp[:-2]

    def filter_specs(self):
        """remove / remove_if / erase(value) / erase_if: the elements that do not match remain, in order and in their slots"""
        cnt = z3.Function("cnt", I, I)
        keep = z3.Function("keepf", I, z3.BoolSort())
        out = []

        def mk(fn, args, match):
            def setup(c):
                c.args = args(c)
                v, st = c.x['view'], c.st
                k = z3.Int("k!cnt")
                a0, n0 = v.at(st, k), v.len(st)
                c.assume(cnt(0) == 0)
                c.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n0), z3.And(keep(k) == z3.Not(match(c, a0)), cnt(k + 1) == cnt(k) + z3.If(keep(k), 1, 0))), patterns=[keep(k)]))
                c.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n0), keep(k) == z3.Not(match(c, a0))), patterns=[match(c, a0)]))

            def hints(c, li):
                v = c.x['view']
                out = []
                k = z3.Int("k!flt")
                n0 = v.len(c.S0)
                for nm, g, vv, sl in derived_scalars(li.ex, li.ent, li.phis):
                    if vv is not v:
                        continue
                    p = lambda s, g=g: g(s) + n0 - v.len(s)
                    out.append(("original-slot(%s)" % nm, lambda s, p=p, sl=sl: z3.And(p(s) <= n0, v.idx(c.S0, p(s)) == sl(s))))
                    out.append(("position=cnt(%s)" % nm, lambda s, p=p, g=g: z3.And(cnt(p(s)) == g(s), z3.Or(keep(p(s)), z3.Not(keep(p(s)))))))
                    out.append(("kept-in-order(%s)" % nm, lambda s, p=p, g=g: z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < p(s), keep(k)), z3.And(cnt(k) >= 0, cnt(k) < g(s), v.idx(s, cnt(k)) == v.idx(c.S0, k))), patterns=[keep(k)])))
                for p_ in li.phis:
                    if p_.ty.k == 'int' and p_.ty.bits > 8 and p_.id in li.phimod:
                        out.append(("removed(%s)" % p_.id, lambda s, i=p_.id: i2z(s.env[i]) == n0 - v.len(s)))
                return out

            def post(c, s, rv):
                v = c.x['view']
                n0 = v.len(c.S0)
                k = c.ex.fresh("k")
                kept = z3.And(k >= 0, k < n0, z3.Not(match(c, v.at(c.S0, k))))
                return list(v.inv_goals(s)) + [
                    ("filtered:size", F, v.len(s) == cnt(n0)),
                    ("filtered:elements-in-order", F, z3.Implies(kept, v.at(s, cnt(k)) == v.at(c.S0, k))),
                    ("surviving-elements-keep-their-address", ("stability",) + F, z3.Implies(kept, v.idx(s, cnt(k)) == v.idx(c.S0, k))),
                    ("returns-number-removed", F, i2z(rv) == n0 - cnt(n0))]
            out.append(Spec(fn, setup, post, hints=[list_hints, hints]))
        byv = lambda c, x: self.velem_eq(x, c.x['v'])
        for fn in ("remove_value", "erase_value"):
            mk(fn, lambda c: [self.selfarg(c), self.elem(c)], byv)
        if not self.triv:
            for fn in ("remove_if", "erase_pred"):
                mk(fn, lambda c: [self.selfarg(c)], lambda c, x: predE(x))
        return out

    def two(self, c, cross=False):
        a = SeqContracts.two(self, c, cross)
        c.x['eqv'], c.x['ordv'] = self.velem_eq, self.velem_ord
        return a

    def oa(self, c, rest, ty="It", const=False):
        """arguments: result iterator, list, ..."""
        s = self.selfarg(c, const)
        return [self.out(c, getattr(self, ty)), s] + rest()

    def signed_elem(self):
        return False


def i2z0(x):
    return x if z3.is_expr(x) else i2z(x)


def list_specs(ty, et, trivial, its, ty2):
    C = ListContracts(ListView, ty, et, trivial=trivial, ty2=ty2)
    C.It, C.CIt, C.RIt, C.CRIt = its
    return C.specs()
