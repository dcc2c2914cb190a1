"""Contracts of the opaque element type, the checking policy and the few trusted std functions."""
import z3
from .engine import *
from .llvmir import Unsupported

eqE = z3.Function("eqE", I, I, B)          # element equality (arbitrary relation)
ordE = z3.Function("ordE", I, I)           # element order: any strict weak order on finitely many values embeds in Int
mkE = z3.Function("mkE", I, I)             # E(int)
predE = z3.Function("predE", I, B)         # user predicate
dflE = z3.Int("dflE")                      # E()
hashK = z3.Function("hashK", I, I)


def eloc(ex, st, p, loc, what):
    if not isinstance(p, Ptr) or p.r is None:
        ex.oblige(st, FALSE, "null-element:" + what, ("bounds",), loc)
        raise PathEnd()
    lp, kind, t = ex.to_leaf(p)
    if kind != 'elem':
        raise Unsupported("element operation on %s" % kind)
    ex.bounds(st, lp, loc, what)
    return (lp.r, tmpl(lp.p)), idxs(lp.p)


def alive(ex, st, b, ix):
    return ex.rd(st, b + ('a',), ix)


def val(ex, st, b, ix):
    return ex.rd(st, b + ('v',), ix)


def construct(ex, st, b, ix, v, loc, what):
    ex.oblige(st, z3.Not(alive(ex, st, b, ix)), "construct-over-live:" + what, ("lifetime",), loc)
    ex.wr(st, b + ('v',), ix, v)
    ex.wr(st, b + ('a',), ix, TRUE)
    ex.wr(st, b + ('r',), ix, ex.fresh("raw"))


def need(ex, st, b, ix, loc, what):
    ex.oblige(st, alive(ex, st, b, ix), "use-of-dead-element:" + what, ("lifetime", "bounds"), loc)


def h_ctor0(ex, st, a, ins, dem):
    b, ix = eloc(ex, st, a[0], ins.loc, "default-construct")
    construct(ex, st, b, ix, dflE, ins.loc, "default")


def h_ctori(ex, st, a, ins, dem):
    b, ix = eloc(ex, st, a[0], ins.loc, "value-construct")
    construct(ex, st, b, ix, mkE(i2z(ex.toint(st, a[1], 32))), ins.loc, "value")


def h_copy(ex, st, a, ins, dem):
    s, si = eloc(ex, st, a[1], ins.loc, "copy-source")
    need(ex, st, s, si, ins.loc, "copy-source")
    v = val(ex, st, s, si)
    b, ix = eloc(ex, st, a[0], ins.loc, "copy-construct")
    construct(ex, st, b, ix, v, ins.loc, "copy")


def h_move(ex, st, a, ins, dem):
    s, si = eloc(ex, st, a[1], ins.loc, "move-source")
    need(ex, st, s, si, ins.loc, "move-source")
    v = val(ex, st, s, si)
    b, ix = eloc(ex, st, a[0], ins.loc, "move-construct")
    construct(ex, st, b, ix, v, ins.loc, "move")
    ex.wr(st, s + ('v',), si, ex.fresh("moved"))


def h_dtor(ex, st, a, ins, dem):
    b, ix = eloc(ex, st, a[0], ins.loc, "destroy")
    ex.oblige(st, alive(ex, st, b, ix), "destroy-of-dead-element", ("lifetime",), ins.loc)
    ex.wr(st, b + ('a',), ix, FALSE)
    ex.wr(st, b + ('r',), ix, ex.fresh("raw"))
    ex.wr(st, b + ('v',), ix, ex.fresh("gone"))


def h_casg(ex, st, a, ins, dem):
    s, si = eloc(ex, st, a[1], ins.loc, "assign-source")
    need(ex, st, s, si, ins.loc, "assign-source")
    b, ix = eloc(ex, st, a[0], ins.loc, "assign")
    need(ex, st, b, ix, ins.loc, "assign-target")
    ex.wr(st, b + ('v',), ix, val(ex, st, s, si))
    return a[0]


def h_masg(ex, st, a, ins, dem):
    s, si = eloc(ex, st, a[1], ins.loc, "move-assign-source")
    need(ex, st, s, si, ins.loc, "move-assign-source")
    b, ix = eloc(ex, st, a[0], ins.loc, "move-assign")
    need(ex, st, b, ix, ins.loc, "move-assign-target")
    v = val(ex, st, s, si)
    ex.wr(st, b + ('v',), ix, v)
    # the source becomes moved-from (also when it is the same object: self-move is unspecified)
    ex.wr(st, s + ('v',), si, ex.fresh("moved"))
    return a[0]


def two(ex, st, a, ins, what):
    s, si = eloc(ex, st, a[0], ins.loc, what)
    need(ex, st, s, si, ins.loc, what)
    t, ti = eloc(ex, st, a[1], ins.loc, what)
    need(ex, st, t, ti, ins.loc, what)
    return val(ex, st, s, si), val(ex, st, t, ti)


def h_eq(ex, st, a, ins, dem):
    x, y = two(ex, st, a, ins, "compare")
    return eqE(x, y)


def h_cmp(ex, st, a, ins, dem):
    x, y = two(ex, st, a, ins, "compare")
    return z3.If(ordE(x) < ordE(y), z3.IntVal(255), z3.If(ordE(x) == ordE(y), z3.IntVal(0), z3.IntVal(1)))


def h_lt(ex, st, a, ins, dem):
    x, y = two(ex, st, a, ins, "compare")
    return simp(ordE(x) < ordE(y))


def h_pred(ex, st, a, ins, dem):
    s, si = eloc(ex, st, a[-1], ins.loc, "predicate")
    need(ex, st, s, si, ins.loc, "predicate")
    return predE(val(ex, st, s, si))


def h_policy(ex, st, a, ins, dem):
    kind = dem.split("(")[0].split("::")[-1]
    ex.policy_hook(st, kind, a, ins.loc)
    raise PathEnd()


def h_memmove(ex, st, a, ins, dem):
    ex.memcpy(st, a[0], a[1], a[2], ins.loc)
    return a[0]


def h_memcpyfn(ex, st, a, ins, dem):
    ex.memcpy(st, a[0], a[1], a[2], ins.loc)
    return a[0]


def h_memset(ex, st, a, ins, dem):
    ex.memset(st, a[0], a[1], a[2], ins.loc)
    return a[0]


def bytes_at(ex, st, p, loc):
    """(array, index) of the byte a pointer designates"""
    if not isinstance(p, Ptr) or p.r is None:
        raise Unsupported("byte pointer")
    q = ex.array_elem_ptr(p)
    if q is None or q[2].size != 1:
        raise Unsupported("byte access shape")
    path, i, et = q
    tp = tuple(('x',) if x[0] == 'x' else x for x in path) + (('x',),)
    key = next(k for k in st.mem if k[0] is p.r and k[2] == 'v' and tuple(('x',) if x[0] == 'x' else x for x in k[1])[:len(tp)] == tp)
    cnt = ex.aff(ex.type_at(p.r, path).count)
    return st.mem[key], i2z(i), i2z(cnt)


def h_memcmp(ex, st, a, ins, dem):
    n = i2z(ex.toint(st, a[2]))
    if cval(n) == 0:
        return 0
    x, i, ci = bytes_at(ex, st, a[0], ins.loc)
    y, j, cj = bytes_at(ex, st, a[1], ins.loc)
    ex.oblige(st, z3.Implies(n > 0, z3.And(i >= 0, i + n <= ci, j >= 0, j + n <= cj)), "memcmp-in-bounds", ("bounds",), ins.loc)
    d, r, k = ex.fresh("fd"), ex.fresh("cmp"), z3.Int("k!mc")
    X, Y = (lambda t: z3.Select(x, i + t)), (lambda t: z3.Select(y, j + t))
    st.assume(z3.And(d >= 0, d <= n, r >= 0, r < 2 ** 32, z3.Implies(d < n, z3.And(X(d) != Y(d), r != 0, (r >= 2 ** 31) == (X(d) < Y(d)))), z3.Implies(d == n, r == 0)))
    body = lambda t, u: z3.Implies(z3.And(t >= 0, t < d), z3.Select(x, i + t) == z3.Select(y, j + t))
    st.assume(z3.ForAll([k], z3.Implies(z3.And(k >= i, k < i + d), z3.Select(x, k) == z3.Select(y, k - i + j)), patterns=[z3.Select(x, k)]))
    st.assume(z3.ForAll([k], z3.Implies(z3.And(k >= j, k < j + d), z3.Select(y, k) == z3.Select(x, k - j + i)), patterns=[z3.Select(y, k)]))
    return r


def h_memchr(ex, st, a, ins, dem):
    n, c = i2z(ex.toint(st, a[2])), i2z(ex.toint(st, a[1]))
    x, i, ci = bytes_at(ex, st, a[0], ins.loc)
    ex.oblige(st, z3.Implies(n > 0, z3.And(i >= 0, i + n <= ci)), "memchr-in-bounds", ("bounds",), ins.loc)
    d, k = ex.fresh("fd"), z3.Int("k!mc")
    st.assume(z3.And(d >= 0, d <= n, z3.Implies(d < n, z3.Select(x, i + d) == c % 256)))
    st.assume(z3.ForAll([k], z3.Implies(z3.And(k >= i, k < i + d), z3.Select(x, k) != c % 256), patterns=[z3.Select(x, k)]))
    s2 = st.fork()
    st.assume(d < n)
    s2.assume(d == n)
    return [(st, ex.step(st, a[0], ex.type_at(a[0].r, ex.array_elem_ptr(a[0])[0]).elem, d)), (s2, NULL)]


def h_strlen(ex, st, a, ins, dem):
    x, i, ci = bytes_at(ex, st, a[0], ins.loc)
    k = z3.Int("k!sl")
    e = ex.cstr_len(st, a[0]) if hasattr(ex, 'cstr_len') else None
    if e is not None:        # the argument is a NUL-terminated range whose length the contract names
        ex.oblige(st, z3.And(i >= 0, e >= i, e < ci, z3.Select(x, e) == 0), "strlen-of-terminated-string", ("bounds",), ins.loc)
        q = ex.fresh("k")
        ex.oblige(st, z3.Implies(z3.And(q >= i, q < e), z3.Select(x, q) != 0), "strlen-first-nul", ("functional",), ins.loc)
        return simp(e - i)
    raise Unsupported("strlen of a range that is not declared NUL-terminated")


FINDS = ("find", "rfind", "find_first_of", "find_first_not_of", "find_last_of", "find_last_not_of")
AB = z3.ArraySort(I, I)
SVF = {f: z3.Function("sv_" + f, AB, I, I, AB, I, I, I, I) for f in FINDS}
SVC = {f: z3.Function("sv_" + f + "_char", AB, I, I, I, I, I) for f in FINDS}


def h_svfind(ex, st, a, ins, dem):
    """std::string_view searches (dependency, assumed): functions of the two character ranges and the position"""
    import re as _re
    f = _re.search(r"::(\w+)\(", dem.split("basic_string_view<char, std::char_traits<char>")[1]).group(1)
    t64 = Ty('int', bits=64)
    n = i2z(ex.toint(st, ex.load(st, a[0], t64, ins.loc)))
    dp = ex.load(st, ex.byte_gep(st, a[0], 8), Ty('ptr'), ins.loc)
    x, i, ci = bytes_at(ex, st, dp, ins.loc)
    ex.oblige(st, z3.And(i >= 0, i + n <= ci), "search-in-bounds", ("bounds",), ins.loc)
    args = a[1:]
    ex.note_assumed("std::string_view::%s (assumed: a function of the contents and the position)" % f)
    if "(char, " in dem:
        r = SVC[f](x, i, n, i2z(ex.toint(st, args[0])) % 256, i2z(ex.toint(st, args[1])))
    else:
        if dem.count("unsigned long") == 2:
            p, pos, m = args[0], args[1], args[2]
        elif "char const*, unsigned long" in dem:
            p, pos = args
            m = h_strlen(ex, st, [p], ins, dem)
        else:
            m, p, pos = args
        m = i2z(ex.toint(st, m))
        y, j, cj = bytes_at(ex, st, p, ins.loc)
        ex.oblige(st, z3.And(j >= 0, j + m <= cj), "search-in-bounds", ("bounds",), ins.loc)
        r = SVF[f](x, i, n, y, j, m, i2z(ex.toint(st, pos)))
    st.assume(z3.And(r >= 0, r < 2 ** 64))
    return r


def rotate_idx(ex, st, key_base, kind, f, m, l, loc):
    """effect of std::rotate on indices [f, l) of one array leaf: element at m becomes first"""
    r, tp = key_base
    ex.oblige(st, z3.And(f <= m, m <= l), "rotate-range-valid", ("bounds",), loc)
    k = z3.Int("k!rot")
    if kind == 'elem':
        ks = ex.fresh("k")
        ex.oblige(st, z3.Implies(z3.And(ks >= f, ks < l, f < m, m < l), z3.Select(st.mem[(r, tp, 'a')], ks)), "rotate-of-live-elements", ("lifetime", "bounds"), loc)
        st.mem[(r, tp, 'r')] = ex.fresh("raw", st.mem[(r, tp, 'r')].sort())
        if ex.writes is not None:
            ex.writes.append(((r, tp, 'r'), ['seg'], None))
    old = st.mem[(r, tp, 'v')]
    new = ex.fresh("rot", old.sort())
    st.assume(z3.ForAll([k], z3.Select(new, k) == z3.If(z3.And(k >= f, k < f + (l - m)), z3.Select(old, k + (m - f)),
                                                      z3.If(z3.And(k >= f + (l - m), k < l), z3.Select(old, k - (l - m)), z3.Select(old, k))),
                        patterns=[z3.Select(new, k)]))
    if ex.writes is not None:
        ex.writes.append(((r, tp, 'v'), ['seg'], None))
    st.mem[(r, tp, 'v')] = new


def h_rotate(ex, st, a, ins, dem):
    """std::rotate over contiguous iterators"""
    ls = []
    for p in a[:3]:
        if not isinstance(p, Ptr) or p.r is None:
            raise Unsupported("rotate over unmodelled iterators")
        ls.append(ex.to_leaf(p))
    if len({(lp.r, tmpl(lp.p)) for lp, _, _ in ls}) != 1 or len(idxs(ls[0][0].p)) != 1:
        raise Unsupported("rotate over unmodelled iterators")
    f, m, l = [i2z(idxs(lp.p)[0]) for lp, _, _ in ls]
    lp, kind, t = ls[0]
    n = None
    for i, stp in enumerate(lp.p):
        if stp[0] == 'x':
            n = i2z(ex.aff(ex.type_at(lp.r, lp.p[:i]).count))
            pre = lp.p[:i]
    ex.oblige(st, z3.Implies(z3.And(f < m, m < l), z3.And(f >= 0, l <= n)), "rotate-in-bounds", ("bounds",), ins.loc)
    rotate_idx(ex, st, (lp.r, tmpl(lp.p)), kind, f, m, l, ins.loc)
    ex.note_assumed("std::rotate")
    return ex.step(st, a[0], t, l - m) if False else Ptr(a[0].r, tuple((s if s[0] != 'x' else ('x', simp(i2z(s[1]) + (l - m)))) for s in a[0].p))


def h_rotate_deque(ex, st, a, ins, dem):
    """std::rotate over FixedDeque iterators: {&array, &start_and_distance, index}; positions are index - offset"""
    t64, tp_ = Ty('int', bits=64), Ty('ptr')
    its = []
    for q in a[-3:]:
        arr = ex.load(st, q, tp_, ins.loc)
        ix = ex.load(st, ex.byte_gep(st, q, 16), t64, ins.loc)
        its.append((arr, i2z(ix)))
    r = its[0][0].r
    ci = ex.circ.get(r)
    if ci is None or any(x.r is not r or tmpl(x.p) not in [ci.path[:i] for i in range(len(ci.path) + 1)] or any(s != ('f', 0) for s in ci.path[len(x.p):]) for x, _ in its):
        raise Unsupported("rotate over unmodelled iterators: %s %s" % (its, ci and ci.path))
    f, m, l = [i2z(ex.circ_z(st, ix, ci)) for _, ix in its]
    w, n = i2z(ex.circ_w(st, ci)), i2z(ci.n)
    ex.oblige(st, z3.Implies(z3.And(f < m, m < l), z3.And(f >= w, l <= w + n)), "rotate-in-window", ("bounds",), ins.loc)
    for tp, kind, lt in ex.leaves(r.ty):
        if tp[:len(ci.path)] == ci.path and any(x[0] == 'x' for x in tp):
            rotate_idx(ex, st, (r, tp), kind, f, m, l, ins.loc)
    ex.note_assumed("std::rotate")
    if len(a) == 4:
        ex.memcpy(st, a[0], a[1], 24, ins.loc)
        ex.store(st, ex.byte_gep(st, a[0], 16), simp(its[0][1] + (l - m)), t64, ins.loc)
    return None


vslot = z3.Function("vslot", I, I, I)      # vslot(z, n) = z mod n: slot of position z in a circular buffer of n slots


def h_wrap(sign):
    def h(ex, st, a, ins, dem):
        """circular_indexing::{in,de}crement_index_with_wraparound; its own body is proved against this contract (group circ)"""
        rng, idx, n = a[-3:]
        t = Ty('int', bits=64)
        lo = ex.load(st, rng, t, ins.loc)
        hi = ex.load(st, ex.byte_gep(st, rng, 8), t, ins.loc)
        if cval(lo) != 0:
            raise Unsupported("wraparound over a range that does not start at 0")
        hi = i2z(hi)
        ex.oblige(st, hi >= 1, "wraparound-range-not-empty", ("functional",), ins.loc)
        iz = i2z(ex.toint(st, idx))
        n = i2z(ex.toint(st, n))
        if z3.is_app(iz) and iz.decl().name() == "vslot" and st.prove(iz.arg(1) == hi):
            z = iz.arg(0)
            # ((y mod N) +- n) mod N = (y +- n) mod N
        else:
            z = iz
        if sign > 0:
            ex.oblige(st, iz + n < 2 ** 64, "wraparound-no-overflow", ("functional",), ins.loc)
            z = simp(z + n)
        else:
            ex.oblige(st, z3.And(iz + hi < 2 ** 64, n + hi < 2 ** 64), "wraparound-no-overflow", ("functional",), ins.loc)
            z = simp(z - n)
        r = vslot(i2z(z), hi)
        st.assume(z3.And(r >= 0, r < hi))
        ex.note_assumed("circular_indexing contract (proved in group circ)")
        cyc = ex.fresh_int(st, "cycles", 64)
        return (cyc, r)
    return h


def h_abort(ex, st, a, ins, dem):
    ex.oblige(st, FALSE, "abort-unreachable", ("functional", "bounds"), ins.loc)
    raise PathEnd()


T = r"(E|K)"
ELEM = [
    (r"^%s::%s\(\)$" % (T, T), h_ctor0),
    (r"^%s::%s\(int\)$" % (T, T), h_ctori),
    (r"^%s::%s\(%s const&\)$" % (T, T, T), h_copy),
    (r"^%s::%s\(%s&&\)$" % (T, T, T), h_move),
    (r"^%s::~%s\(\)$" % (T, T), h_dtor),
    (r"^%s::operator=\(%s const&\)$" % (T, T), h_casg),
    (r"^%s::operator=\(%s&&\)$" % (T, T), h_masg),
    (r"^operator==\(%s const&, %s const&\)$" % (T, T), h_eq),
    (r"^operator<\(%s const&, %s const&\)$" % (T, T), h_lt),
    (r"^operator<=>\(%s const&, %s const&\)$" % (T, T), h_cmp),
    (r"^Pred::operator\(\)", h_pred),
    (r"^M?Chk::", h_policy),
    (r"std::(_V2::)?rotate<(?!.*FixedDeque)", h_rotate),
    (r"std::(_V2::)?rotate<.*FixedDeque", h_rotate_deque),
    (r"circular_indexing::increment_index_with_wraparound", h_wrap(1)),
    (r"circular_indexing::decrement_index_with_wraparound", h_wrap(-1)),
    (r"^abort$|^std::abort|^std::__throw_", h_abort),
    (r"^memmove$", h_memmove),
    (r"^memcpy$", h_memcpyfn),
    (r"^memset$", h_memset),
    (r"^(memcmp|bcmp)$", h_memcmp),
    (r"^memchr$", h_memchr),
    (r"^strlen$", h_strlen),
    (r"^std::basic_string_view<char, std::char_traits<char> ?>::r?find\((?!char,)", h_svfind),
    (r"^std::basic_string_view<char, std::char_traits<char> ?>::find_(first|last)_(not_)?of\(", h_svfind),
]
