"""Loop handling: Houdini inference of inductive invariants from generic templates + contract hints.

A loop is cut at its header: candidates that hold on entry and are preserved by the body (for an arbitrary
iteration) are the invariant; the body's obligations and everything after the loop are proved from it.
"""
import z3, os, re, sys, time
from .llvmir import Unsupported

RL_H = int(os.environ.get("FCV_RL_H", "6000000"))
RL_L = int(os.environ.get("FCV_RL_L", "150000"))
RL_I = int(os.environ.get("FCV_RL_I", "800000"))


def _syms(e, acc, seen):
    k = e.get_id()
    if k in seen:
        return
    seen.add(k)
    if z3.is_quantifier(e):
        _syms(e.body(), acc, seen)
    elif z3.is_app(e):
        if e.num_args() == 0:
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc.add(e.decl().name())
        else:
            for c in e.children():
                _syms(c, acc, seen)


def syms(e):
    if not z3.is_expr(e):
        return set()
    a = set()
    _syms(e, a, set())
    return a


def skolem(ex, g):
    """strip outer universal quantifiers / conjunction of them"""
    if z3.is_quantifier(g) and g.is_forall():
        vs = [ex.fresh("sk", g.var_sort(i)) for i in range(g.num_vars())]
        return skolem(ex, z3.substitute_vars(g.body(), *reversed(vs)))
    if z3.is_and(g):
        return z3.And([skolem(ex, c) for c in g.children()])
    if z3.is_implies(g):
        from .engine import has_quant
        if not has_quant(g.arg(0)):
            return z3.Implies(g.arg(0), skolem(ex, g.arg(1)))
    return g


def filter_holds(ex, st, goals, rl=None, imp=()):
    """subset (indices) of goals entailed by st.facts"""
    from .engine import mk_solver
    rl = rl or (RL_L if ex.list_calls else RL_H)
    imp = set(imp)
    if ex.cert is not None:
        imp = set(range(len(goals)))
    t0 = time.time()
    s = mk_solver(rl)
    for f in ex.symfacts:
        s.add(f)
    for f in st.facts:
        s.add(f)
    rem = [(i, skolem(ex, g)) for i, g in enumerate(goals)]
    ok = []

    def single(i, g):
        """one candidate; hints get a second attempt with other solver settings"""
        s.push()
        if imp:
            s.set("rlimit", RL_I if i in imp else rl)
        s.add(z3.Not(g))
        tq = time.time()
        r1 = s.check()
        if os.environ.get("FCV_QT"):
            print("Q1", i, r1, "%.1f" % (time.time() - tq), str(g)[:150].replace("\n", " "), file=sys.stderr, flush=True)
        hard = r1 == z3.unknown and 'cancel' in s.reason_unknown()
        s.pop()
        if hard and i in imp:
            s3 = mk_solver(RL_I)
            s3.set("random_seed", 7)
            s3.set("arith.solver", 2)
            for f in ex.symfacts:
                s3.add(f)
            for f in st.facts:
                s3.add(f)
            s3.add(z3.Not(g))
            r1 = s3.check()
        return r1 == z3.unsat
    rounds = 0
    while rem:
        s.push()
        s.add(z3.Not(z3.And([g for _, g in rem])))
        tq = time.time()
        r = s.check()
        if os.environ.get("FCV_QT"):
            print("QALL", len(rem), r, "%.1f" % (time.time() - tq), file=sys.stderr, flush=True)
        if r == z3.unsat:
            s.pop()
            ok += [i for i, _ in rem]
            break
        drop = []
        try:
            m = s.model()
            for i, g in rem:
                if z3.is_false(m.eval(g, model_completion=True)):
                    drop.append(i)
        except z3.Z3Exception:
            pass
        s.pop()
        rounds += 1
        if not drop or rounds > 40:
            # individually
            ok += [i for i, g in rem if single(i, g)]
            break
        # candidates falsified in a (possibly spurious) model: give quantified ones an individual second chance
        dset = set(drop)
        for i, g in rem:
            if i in dset:
                if r == z3.unknown and single(i, g):
                    ok.append(i)
        rem = [(i, g) for i, g in rem if i not in dset]
    ex.solver_time += time.time() - t0
    return sorted(ok)


class LoopInfo:
    pass


def cname(n):
    """candidate name without the numbers of fresh symbols"""
    return re.sub(r"!\d+", "!", n)


def certified(ex, cs):
    """only the candidates a recorded proof used (each is still checked); all of them when there is no record"""
    return cs if ex.cert is None else [c for c in cs if cname(c[0]) in ex.cert]


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    if t.get_id() in seen:
        return
    seen.add(t.get_id())
    yield t
    for c in t.children():
        yield from subterms(c, seen)


def resolve_ites(st, fct):
    """fct with the conditionals the state decides replaced by the branch taken (None: none of them)"""
    sub = []
    for t in subterms(fct):
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE and not z3.is_bool(t):
            if st.prove(t.arg(0)):
                sub.append((t, t.arg(1)))
            elif st.prove(z3.Not(t.arg(0))):
                sub.append((t, t.arg(2)))
    return z3.simplify(z3.substitute(fct, *sub)) if sub else None


def kq_selects(r, kq):
    """array reads a[kq + c] in r with c not zero and free of kq: list of (a, c)"""
    out = {}
    for x in subterms(r):
        if z3.is_select(x):
            c = z3.simplify(x.arg(1) - kq)
            if not any(y.eq(kq) for y in subterms(x.arg(0))) and not any(y.eq(kq) for y in subterms(c)) and not (z3.is_int_value(c) and c.as_long() == 0):
                out[x.sexpr()] = (x.arg(0), c)
    return list(out.values())[:3]


def do_loop(ex, hdr, st, prev):
    from .engine import Ptr, PtrInt, Scaled, Opaque, State, i2z, b2z, cval, simp, I, B, has_quant, sub, add
    f = ex.f
    _, _, loops = ex.cfg(f)
    ex.enter(st, hdr, prev)
    ent = st
    saved_cmp0 = ex.cmplog
    phis = [i for i in f.blocks[hdr].ins if i.op == 'phi']
    loc = next((i.loc for i in f.blocks[hdr].ins if i.loc), None)

    def back_run(h, quiet=True):
        if quiet:
            ex.quiet += 1
        p0 = ex.paths
        try:
            return ex.exec_from(h, hdr, prev, hdr, at_header=True)
        finally:
            if quiet:
                ex.quiet -= 1
                ex.paths = p0

    # ---------------- try full unrolling when the trip count is small and concrete
    un = try_unroll(ex, hdr, st, prev, back_run)
    if un is not None:
        return un

    # ---------------- discovery of what the loop changes
    phikind = {}

    def shape(v):
        if isinstance(v, Ptr):
            return ('ptr', v.r, tuple(s if s[0] == 'f' else ('x',) for s in v.p))
        if isinstance(v, (int, bool)) or z3.is_expr(v):
            return ('int',)
        if isinstance(v, Scaled):
            return ('scaled', v.k)
        return ('other', type(v).__name__)

    cur_ent = {p.id: ent.env[p.id] for p in phis}

    def make_havoc(modset, phimod, phiunion):
        h = ent.fork()
        for p in phis:
            v = cur_ent[p.id]
            mods = phimod.get(p.id)
            if mods is None:
                continue
            if p.id in phiunion:
                v = phiunion[p.id]
            if isinstance(v, Ptr):
                if v.r is None:
                    continue
                np = []
                xi = 0
                for s in v.p:
                    if s[0] == 'x':
                        if xi in mods:
                            np.append(('x', ex.fresh("L%d_%s" % (hdr, p.id))))
                        else:
                            np.append(s)
                        xi += 1
                    else:
                        np.append(s)
                h.env[p.id] = Ptr(v.r, tuple(np))
            elif p.ty.k == 'int':
                if isinstance(v, Scaled):
                    h.env[p.id] = Scaled(v.k, ex.fresh("L%d_%s" % (hdr, p.id)))
                else:
                    h.env[p.id] = ex.fresh_int(h, "L%d_%s" % (hdr, p.id), p.ty.bits)
            else:
                raise Unsupported("loop-carried %r" % p.ty)
        for key in sorted(modset, key=lambda k: (k[0].name, str(k[1]), k[2])):
            old = h.mem[key]
            if z3.is_expr(old):
                nv = ex.fresh("L%d_%s%s%s" % (hdr, key[0].name, "".join(str(s[1]) if s[0] == 'f' else '*' for s in key[1]), key[2]), old.sort())
                h.mem[key] = nv
                if nv.sort() == I and key[2] == 'v':
                    bits = ex_leaf_bits(ex, key)
                    if bits:
                        h.assume(z3.And(nv >= 0, nv < 2 ** bits))
            elif isinstance(old, Ptr):
                raise Unsupported("loop modifies pointer in memory")
            elif isinstance(old, int):
                nv = ex.fresh("L%d_m" % hdr)
                h.mem[key] = nv
        return h

    modset = set()
    phimod = {}
    phiunion = {}
    cnt0, slotcmp = ex.cnt, {}
    for p in phis:
        v = cur_ent[p.id]
        if isinstance(v, Ptr):
            phimod[p.id] = set()
        elif p.ty.k == 'int':
            phimod[p.id] = {0}
        else:
            raise Unsupported("loop phi of type %r" % p.ty)
    for _it in range(12):
        h = make_havoc(modset, phimod, phiunion)
        keys = set(h.mem)
        ex.writes, saved = [], ex.writes
        if ex.list_calls:
            ex.cmplog = []
        outs = back_run(h.fork())
        if ex.list_calls:
            for t in [y for x in ex.cmplog for y in x]:
                # loop-invariant slots the loop compares with
                if z3.is_expr(t) and t.sort() == I and t.sexpr() not in slotcmp and (z3.is_const(t) or z3.is_select(t)) and not z3.is_int_value(t) and not any(
                        '!' in x and x.rsplit('!', 1)[1].isdigit() and int(x.rsplit('!', 1)[1]) > cnt0 for x in syms(t)) and t.sexpr() not in ("N",):
                    slotcmp[t.sexpr()] = t
            ex.cmplog = saved_cmp0
        events, ex.writes = ex.writes, saved
        changed = False
        anyb = False
        for o in outs:
            if o[0] != 'back':
                continue
            anyb = True
            b = o[1]
            for gk in ent.ghost:
                if isinstance(gk, tuple) and gk[0] == 'circ' and str(ent.ghost[gk]) != str(b.ghost.get(gk)):
                    raise Unsupported("circular buffer constructed inside a loop")
            for k in keys:
                x, y = h.mem[k], b.mem.get(k)
                if x is y:
                    continue
                if z3.is_expr(x) and z3.is_expr(y) and x.eq(y):
                    continue
                if isinstance(x, Ptr) and isinstance(y, Ptr) and x.r is y.r and str(x.p) == str(y.p):
                    continue
                if k not in modset:
                    modset.add(k)
                    changed = True
            for p in phis:
                x, y = h.env[p.id], b.env[p.id]
                if isinstance(x, Ptr):
                    if not isinstance(y, Ptr) or x.r is not y.r:
                        raise Unsupported("loop pointer changes object")
                    ap, bp = ex.align_paths(x, y)
                    if ap is None:
                        z = ex.reshape(cur_ent[p.id], y)
                        if z is None:
                            raise Unsupported("loop pointer changes shape")
                        cur_ent[p.id] = ent.env[p.id] = z
                        changed = True
                        continue
                    if len(ap) != len(x.p):
                        # entry value has a shorter spelling: re-spell it
                        ea, eb = ex.align_paths(cur_ent[p.id], Ptr(y.r, bp))
                        if ea is None:
                            raise Unsupported("loop pointer shape")
                        cur_ent[p.id] = Ptr(y.r, ea)
                        ent.env[p.id] = cur_ent[p.id]
                        changed = True
                        continue
                    xi = 0
                    for s, t in zip(ap, bp):
                        if s[0] == 'x':
                            if cval(sub(s[1], t[1])) != 0 and xi not in phimod[p.id]:
                                phimod[p.id].add(xi)
                                changed = True
                            xi += 1
        if not anyb:
            # the back edge is infeasible: loop body executes at most once, run concretely
            outs = back_run(ent.fork(), quiet=bool(ex.quiet) and False)
            return [o for o in outs if o[0] != 'back']
        if not changed:
            break
    else:
        raise Unsupported("loop effect discovery did not converge")
    for p in list(phimod):
        if isinstance(cur_ent[p], Ptr) and not phimod[p]:
            del phimod[p]

    # ---------------- scalars
    scal = []  # (name, getter, entryterm)

    def getter_phi(pid, xi=None):
        def g(s):
            v = s.env[pid]
            if isinstance(v, Ptr):
                if xi is None or len([1 for t in v.p if t[0] == 'x']) <= xi:
                    v2 = ex.align_paths(v, cur_ent[pid])[0]
                else:
                    v2 = v.p
                return i2z([t[1] for t in v2 if t[0] == 'x'][xi])
            if isinstance(v, Scaled):
                return i2z(v.t)
            if isinstance(v, Opaque):
                return ex.fresh("undef")
            return i2z(v) if not (z3.is_expr(v) and z3.is_bool(v)) else v
        return g

    bools = []
    for p in phis:
        if p.id not in phimod:
            continue
        v = cur_ent[p.id]
        if isinstance(v, Ptr):
            for xi in sorted(phimod[p.id]):
                scal.append(("%s[%d]" % (p.id, xi), getter_phi(p.id, xi)))
        elif p.ty.k == 'int' and p.ty.bits == 1:
            bools.append((p.id, (lambda pid: lambda s: b2z(s.env[pid]))(p.id)))
        elif p.ty.k == 'int':
            scal.append((p.id, getter_phi(p.id)))
    for k in sorted(modset, key=lambda k: (k[0].name, str(k[1]), k[2])):
        m = ent.mem[k]
        if (z3.is_expr(m) and m.sort() == I) or isinstance(m, int):
            scal.append(("%s%s%s" % (k[0].name, k[1], k[2]), (lambda kk: lambda s: i2z(s.mem[kk]))(k)))
    nder = len(scal)
    ex.cmpslots = []
    if ex.list_calls:
        known = [t.sexpr() for _, t in (ex.ctx.x.get('slots', []) if getattr(ex, 'ctx', None) else [])]
        ex.cmpslots = [("t%d" % i, t) for i, (n_, t) in enumerate(slotcmp.items()) if n_ not in known and filter_holds(
            ex, ent, [z3.Or([z3.Or(t == v.cap, v.member(ent, t)) for v in ex.lists.values()])], rl=1000000)][:2]
        from .contracts.llist import derived_scalars
        drop = {v.NX for v in ex.lists.values()}
        scal = [x for x in scal if not any(x[0] == "%s%s%s" % (k[0].name, k[1], k[2]) for k in drop)]
        nder = len(scal)
        scal += [(nm, g) for nm, g, _, _ in derived_scalars(ex, ent, phis)]
    entv = [g(ent) for _, g in scal]
    li = LoopInfo()
    li.ex, li.ent, li.phis, li.scal, li.entv, li.hdr, li.loc, li.modset, li.phimod = ex, ent, phis, scal, entv, hdr, loc, modset, phimod

    # ---------------- fixed terms
    h = make_havoc(modset, phimod, phiunion)
    hsyms = {}
    for (n, g) in scal:
        t = g(h)
        if z3.is_const(t):
            hsyms[t.decl().name()] = (n, g, t)
    hmem = {}
    for k in modset:
        m = h.mem[k]
        if z3.is_expr(m):
            hmem[m.decl().name()] = k
    hav = set(hsyms) | set(hmem)
    for p in phis:
        v = h.env[p.id]
        if p.id in phimod and z3.is_expr(v) and z3.is_const(v):
            hav.add(v.decl().name())

    fixed = []
    seen = set()

    def addfixed(t):
        t = i2z(t)
        t = z3.simplify(t)
        if t.get_id() in seen or (syms(t) & hav):
            return
        if len(t.sexpr()) > 3000:
            return
        seen.add(t.get_id())
        fixed.append(t)

    addfixed(0)
    for t in entv[:nder]:
        addfixed(t)
    saved_cmp, ex.cmplog = saved_cmp0, []
    back_run(h.fork())
    for a, b in (ex.cmplog or []):
        for t in (a, b):
            if isinstance(t, int) and not isinstance(t, bool) and t < 2 ** 40:
                addfixed(t)
            elif z3.is_expr(t) and t.sort() == I:
                addfixed(t)
    nbase = len(fixed)
    for t in ex.terms:
        addfixed(t)
    ex.cmplog = saved_cmp0
    fixed = fixed[:24]

    # ---------------- phase 1: scalar candidates
    cands = []

    def cand(name, fn):
        cands.append((name, fn))

    for a, (n, g) in enumerate(scal):
        e = entv[a]
        if ex.list_calls and any(k[0] in ex.lists and n == "%s%s%s" % (k[0].name, k[1], k[2]) for k in modset) and any(n == "%s%s%s" % (v.sz[0].name, v.sz[1], 'v') for v in ex.lists.values()) is False:
            continue
        cand("%s>=entry" % n, lambda s, g=g, e=e: g(s) >= e)
        cand("%s<=entry" % n, lambda s, g=g, e=e: g(s) <= e)
        for t in fixed if not ex.list_calls else ([] if a >= nder else fixed[:6]):
            cand("%s<=%s" % (n, t), lambda s, g=g, t=t: g(s) <= t)
            cand("%s>=%s" % (n, t), lambda s, g=g, t=t: g(s) >= t)
            cand("%s<%s" % (n, t), lambda s, g=g, t=t: g(s) < t)
            cand("%s>%s" % (n, t), lambda s, g=g, t=t: g(s) > t)
        for b in range(len(scal)):
            if b == a:
                continue
            g2, e2 = scal[b][1], entv[b]
            if b > a:
                cand("d(%s)==d(%s)" % (n, scal[b][0]), lambda s, g=g, e=e, g2=g2, e2=e2: g(s) - e == g2(s) - e2)
                cand("d(%s)==-d(%s)" % (n, scal[b][0]), lambda s, g=g, e=e, g2=g2, e2=e2: g(s) - e == e2 - g2(s))
            if ex.list_calls and (a < nder or b < nder):
                continue
            if not ex.list_calls and ('[' in n) != ('[' in scal[b][0]) or '/' in str(e2) or 'div' in str(e2):
                # four-fold unrolled library loops (std::find_if): position advances by 4 per trip
                cand("d(%s)==-4d(%s)" % (n, scal[b][0]), lambda s, g=g, e=e, g2=g2, e2=e2: g(s) - e == 4 * (e2 - g2(s)))
            cand("%s<=%s" % (n, scal[b][0]), lambda s, g=g, g2=g2: g(s) <= g2(s))
            cand("%s<%s" % (n, scal[b][0]), lambda s, g=g, g2=g2: g(s) < g2(s))
    tri = {}
    if len(scal) <= 7 and not ex.list_calls:
        for a in range(len(scal)):
            for b in range(len(scal)):
                for c in range(b + 1, len(scal)):
                    if a != b and a != c:
                        nm3 = "d(%s)==d(%s)+d(%s)" % (scal[a][0], scal[b][0], scal[c][0])
                        tri[nm3] = (a, b, c)
                        cand(nm3, lambda s, a=a, b=b, c=c: scal[a][1](s) - entv[a] == scal[b][1](s) - entv[b] + scal[c][1](s) - entv[c])
        for a in range(len(scal)):
            for b in range(len(scal)):
                if a != b:
                    for t in fixed[:8]:
                        # saturating counter
                        cand("%s==%s or d(%s)==d(%s)" % (scal[a][0], t, scal[a][0], scal[b][0]),
                             lambda s, a=a, b=b, t=t: z3.Or(scal[a][1](s) == t, scal[a][1](s) - entv[a] == scal[b][1](s) - entv[b]))
    for n, g in bools:
        cand("bool %s" % n, lambda s, g=g: g(s))
        cand("not %s" % n, lambda s, g=g: z3.Not(g(s)))
        for m, g2 in scal:
            pass
    hinted = []
    for hint in ex.loop_hints:
        hinted += hint(ex, li) or []
    lean = any(n.startswith('lean:') for n, _ in hinted)
    if lean:
        cands = [c for c in cands if c[0].endswith('>=entry')]    # the contract's own candidates are complete for this loop
    cands = certified(ex, cands + hinted)
    hnames = {n for n, _ in hinted}

    DBG = os.environ.get("FCV_HOUD")

    def houdini(cs, base=()):
        """largest inductive subset of cs relative to base (base: already shown inductive on its own)"""
        imp = lambda: [i for i, c in enumerate(cs) if c[0] in hnames] if ex.list_calls else ()
        keep = filter_holds(ex, ent, [b2z(c[1](ent)) for c in cs], imp=imp())
        if DBG:
            print("HOUD entry drops", [cs[i][0][:60] for i in range(len(cs)) if i not in set(keep)], file=sys.stderr)
        cs = [cs[i] for i in keep]
        while True:
            hh = make_havoc(modset, phimod, phiunion)
            for n, c in list(base) + cs:
                hh.assume(c(hh))
            outs = back_run(hh.fork())
            n0 = len(cs)
            for o in outs:
                if o[0] != 'back':
                    continue
                if not cs:
                    break
                keep = filter_holds(ex, o[1], [b2z(c[1](o[1])) for c in cs], imp=imp())
                if DBG:
                    print("HOUD step drops", [cs[i][0][:60] for i in range(len(cs)) if i not in set(keep)], file=sys.stderr)
                cs = [cs[i] for i in keep]
            if len(cs) == n0:
                return list(base) + cs, hh, outs

    cs, hh, outs = houdini(cands)
    if not any(o[0] == 'back' for o in outs):
        # inductive scalar invariants show that the back edge is never taken: the header is reached only from the entry
        e2 = ent.fork()
        for n, c in cs:
            e2.assume(c(e2))
        return [o for o in back_run(e2, quiet=False) if o[0] != 'back']

    # ---------------- phase 2: array / path-condition candidates
    names = {n for n, _ in cs}
    scur = [g(hh) for _, g in scal]
    rel = {}
    for a in range(len(scal)):
        for b in range(a + 1, len(scal)):
            n1 = "d(%s)==d(%s)" % (scal[a][0], scal[b][0])
            n2 = "d(%s)==-d(%s)" % (scal[a][0], scal[b][0])
            if n1 in names:
                rel[(a, b)] = rel[(b, a)] = 1
            elif n2 in names:
                rel[(a, b)] = rel[(b, a)] = -1
    # a = a0 + (b-b0) + (c-c0) with none of the three in lockstep: express b through a and c
    norm = []
    for nm3, (a, b, c) in tri.items():
        if nm3 in names and not any(x in rel for x in ((a, b), (a, c), (b, c))) and z3.is_const(scur[b]):
            norm.append((scur[b], z3.simplify(entv[b] + scur[a] - entv[a] - scur[c] + entv[c])))
            break

    hsym = {}
    for a, t in enumerate(scur):
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            hsym[t.decl().name()] = a
    hmemsub = []
    hmemn = {}
    for k in modset:
        m = hh.mem[k]
        if z3.is_expr(m) and z3.is_expr(ent.mem[k]):
            hmemsub.append((m, ent.mem[k]))
            if m.sort().kind() == z3.Z3_ARRAY_SORT:
                hmemn[m.decl().name()] = k
    allh = set(hsym) | set(hmemn)
    ex.writes, saved = [], ex.writes
    nf = len(hh.facts)
    cntmark = ex.cnt
    outs = back_run(hh.fork())
    events, ex.writes = ex.writes, saved

    def fresh_after(s):
        # symbols created during the body execution are not expressible
        return any('!' in x and x.rsplit('!', 1)[1].isdigit() and int(x.rsplit('!', 1)[1]) > cntmark for x in s)

    def scalar_only(t):
        s = syms(t)
        return not (s & set(hmemn)) and not fresh_after(s)

    def at(t):
        """term over header scalars -> function of state"""
        used = [a for nm, a in hsym.items() if nm in syms(t)]

        def g(s):
            return z3.substitute(t, *[(scur[a], scal[a][1](s)) for a in used]) if used else t
        return g

    def lin(t):
        """t = sign*scur[a] + c (c without havoc symbols): returns (a, sign, c)"""
        s = syms(t) & set(hsym)
        if len(s) != 1:
            return None
        a = hsym[next(iter(s))]
        for sg in (1, -1):
            c = z3.simplify(t - sg * scur[a])
            if not (syms(c) & set(hsym)):
                return a, sg, c
        return None

    kq = z3.Int("kq")

    def retarget(t, a, kterm):
        """rewrite t (over header scalars/arrays) as function of k, with scalar a := kterm and lockstep scalars following"""
        sb = [(scur[a], kterm)]
        for nm in syms(t) & set(hsym):
            b = hsym[nm]
            if b == a:
                continue
            r = rel.get((a, b))
            if r is None:
                return None
            sb.append((scur[b], z3.simplify(entv[b] + r * (kterm - entv[a]))))
        return z3.simplify(z3.substitute(t, *(sb + hmemsub)))

    bnds = {}
    templ = {}
    for key, ix, v in events:
        if key not in modset or len(ix) != 1 or isinstance(ix[0], str):
            continue
        i_d = z3.simplify(i2z(ix[0]))
        if not scalar_only(i_d):
            continue
        if norm:
            i_d = z3.simplify(z3.substitute(i_d, *norm))
        bl = bnds.setdefault(key, {})
        for off in (0, 1):
            t = z3.simplify(i_d + off)
            bl[t.sexpr()] = t
        e0 = z3.simplify(at(i_d)(ent))
        for off in (0, 1):
            t = z3.simplify(e0 + off)
            bl[t.sexpr()] = t
        tl = templ.setdefault(key, {})
        v = b2z(v) if isinstance(v, bool) else i2z(v)
        if z3.is_true(v) or z3.is_false(v) or not (syms(v) & allh or fresh_after(syms(v))):
            tl[v.sexpr()] = v
        elif not fresh_after(syms(v)):
            l = lin(i_d)
            if l:
                a, sg, c = l
                kt = z3.simplify(kq - c) if sg == 1 else z3.simplify(c - kq)
                r = retarget(v, a, kt)
                if r is not None:
                    tl[r.sexpr()] = r
    c2 = []
    for key in modset:
        m0 = ent.mem[key]
        if ex.list_calls and key[0] in ex.lists:
            continue
        if not z3.is_expr(m0) or m0.sort().kind() != z3.Z3_ARRAY_SORT or m0.sort().range().kind() == z3.Z3_ARRAY_SORT:
            continue
        bl = list(bnds.get(key, {}).values())
        tl = list(templ.get(key, {}).values())

        def curarr(s, key=key):
            return s.mem[key]
        nm = "%s%s%s" % (key[0].name, "".join(str(s[1]) if s[0] == 'f' else '*' for s in key[1]), key[2])
        for t in bl:
            g = at(t)
            c2.append(("%s[k]=old k<%s" % (nm, t), lambda s, g=g, ca=curarr, m0=m0: z3.ForAll([kq], z3.Implies(
                kq < g(s), z3.Select(ca(s), kq) == z3.Select(m0, kq)), patterns=[z3.Select(ca(s), kq)])))
            c2.append(("%s[k]=old k>=%s" % (nm, t), lambda s, g=g, ca=curarr, m0=m0: z3.ForAll([kq], z3.Implies(
                kq >= g(s), z3.Select(ca(s), kq) == z3.Select(m0, kq)), patterns=[z3.Select(ca(s), kq)])))
        for t in bl:
            for u in bl:
                if t is u or not ((syms(t) | syms(u)) & set(hsym)):
                    continue
                g, g2 = at(t), at(u)
                for body in tl:
                    c2.append(("%s[k]=%s in[%s,%s)" % (nm, body.sexpr()[:80], t, u),
                               lambda s, g=g, g2=g2, ca=curarr, body=body: z3.ForAll([kq], z3.Implies(
                                   z3.And(g(s) <= kq, kq < g2(s)), z3.Select(ca(s), kq) == body), patterns=[z3.Select(ca(s), kq)])))
                c2.append(("%s[k]=old in[%s,%s)" % (nm, t, u),
                           lambda s, g=g, g2=g2, ca=curarr, m0=m0: z3.ForAll([kq], z3.Implies(
                               z3.And(g(s) <= kq, kq < g2(s)), z3.Select(ca(s), kq) == z3.Select(m0, kq)), patterns=[z3.Select(ca(s), kq)])))
    # path-condition templates (search / comparison loops)
    pcs = {}
    for o in outs:
        if o[0] != 'back':
            continue
        for fct in o[1].facts[nf:]:
            if has_quant(fct):
                continue
            s = syms(fct)
            if fresh_after(s) or not (s & set(hsym)) or len(fct.sexpr()) > 1500:
                continue
            if not has_read(fct):
                continue
            pcs[fct.sexpr()] = fct
            f2 = resolve_ites(o[1], fct)
            if f2 is not None:
                pcs[f2.sexpr()] = f2
    for fct in list(pcs.values())[:12]:
        for nm in syms(fct) & set(hsym):
            a = hsym[nm]
            r = retarget(fct, a, kq)
            if r is None or 'kq' not in syms(r):
                continue
            g, e = scal[a][1], entv[a]
            for ar, off in kq_selects(r, kq):
                r2 = z3.simplify(z3.substitute(r, (kq, kq - off)))
                p2 = [z3.Select(ar, kq)]
                if not any(x.eq(p2[0]) for x in subterms(r2)):
                    continue
                c2.append(("pc~ %s" % r2.sexpr()[:80], lambda s, g=g, e=e, r=r2, pt=p2, off=off: z3.ForAll([kq], z3.Implies(z3.And(e + off <= kq, kq < g(s) + off), r), patterns=pt)))
                c2.append(("pc~' %s" % r2.sexpr()[:80], lambda s, g=g, e=e, r=r2, pt=p2, off=off: z3.ForAll([kq], z3.Implies(z3.And(g(s) + off < kq, kq <= e + off), r), patterns=pt)))
            at_ = r.arg(0) if z3.is_not(r) else r
            pt = [at_] if z3.is_app(at_) and at_.decl().kind() == z3.Z3_OP_UNINTERPRETED and at_.num_args() else []
            c2.append(("pc %s" % r.sexpr()[:80], lambda s, g=g, e=e, r=r, pt=pt: z3.ForAll([kq], z3.Implies(z3.And(e <= kq, kq < g(s)), r), patterns=pt)))
            c2.append(("pc' %s" % r.sexpr()[:80], lambda s, g=g, e=e, r=r, pt=pt: z3.ForAll([kq], z3.Implies(z3.And(g(s) < kq, kq <= e), r), patterns=pt)))
    if len(c2) > 1500:
        c2 = c2[:1500]
    if not ex.list_calls:
        c2 += [(n, c) for n, c in hinted if n not in names]
    c2 = certified(ex, [] if lean else c2)
    if c2:
        cs, hh, _ = houdini(c2, cs)
    ex.cert_all.update(cname(n) for n, _ in cs)
    if ex.cert is None:
        cs = minimise(ex, cs, make_havoc(modset, phimod, phiunion))
    ex.cert_min.update(cname(n) for n, _ in cs)

    # ---------------- final pass: obligations in the body, exits
    hf = make_havoc(modset, phimod, phiunion)
    for n, c in cs:
        hf.assume(c(hf))
    outs = back_run(hf.fork(), quiet=False)
    # ---------------- termination
    if not ex.quiet:
        backs = [o[1] for o in outs if o[0] == 'back']
        ok = rank(ex, hf, backs, scal, fixed, li)
        from .engine import Obligation
        ex.obls.append(Obligation(ex.fname, "loop-terminates", ("termination",), loc, ok, "" if ok else "no ranking function found"))
        ex.obls.append(Obligation(ex.fname, "loop-invariant(%d conjuncts)" % len(cs), ("invariant",), loc, True))
        ex.loops_report.append({"loc": str(loc), "conjuncts": [n for n, _ in cs][:40]})
    if os.environ.get("FCV_LOOP"):
        print("LOOP", ex.fname, hdr, loc, "quiet", ex.quiet, "\n   " + "\n   ".join(n for n, _ in cs), file=sys.stderr)
    return [o for o in outs if o[0] != 'back']


def has_read(e):
    if z3.is_app(e):
        if e.decl().kind() == z3.Z3_OP_SELECT:
            return True
        if e.num_args() and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            return True
        return any(has_read(c) for c in e.children())
    return False


def minimise(ex, cs, h):
    """drop conjuncts implied by the remaining ones (keeps hypotheses small)"""
    from .engine import mk_solver, has_quant, b2z
    forms = [b2z(c(h)) for _, c in cs]
    s = mk_solver(2000000)
    for f in ex.symfacts:
        s.add(f)
    for f in h.facts:
        s.add(f)
    ind = []
    for i, f in enumerate(forms):
        p = z3.Bool("min!%d" % i)
        s.add(z3.Implies(p, f))
        ind.append(p)
    keep = set(range(len(cs)))
    order = [i for i in reversed(range(len(cs))) if has_quant(forms[i])]
    if len(order) > 250:
        order = order[:250]
    for i in order:
        s.push()
        s.add(z3.Not(skolem(ex, forms[i])))
        r = s.check(*[ind[j] for j in keep if j != i])
        s.pop()
        if r == z3.unsat:
            keep.discard(i)
    return [cs[i] for i in sorted(keep)]


def rank(ex, h, backs, scal, fixed, li):
    from .engine import i2z
    if not backs:
        return True
    ms = []
    for m in ex.loop_measures:
        ms += [("hint%d" % i, x) for i, x in enumerate(m(ex, li) or [])]
    for i, (n, g) in enumerate(scal):
        for t in fixed:
            ms.append(("%s - %s" % (t, n), lambda s, g=g, t=t: t - g(s)))
            ms.append(("%s - %s" % (n, t), lambda s, g=g, t=t: g(s) - t))
    for i, (n, g) in enumerate(scal):
        for j, (n2, g2) in enumerate(scal):
            if i != j:
                ms.append(("%s - %s" % (n, n2), lambda s, g=g, g2=g2: g(s) - g2(s)))
    nms = ["rank " + cname(n) for n, _ in ms]
    ms = [m for _, m in ms]
    mh = [m(h) for m in ms]
    alive = list(range(len(ms)))

    def note(i):
        ex.cert_all.add(nms[i])
        ex.cert_min.add(nms[i])
        return True
    if ex.cert is not None:
        alive = [i for i in alive if nms[i] in ex.cert]
        if not alive:
            return False
    elif ex.list_calls:
        for i in alive:
            if all(filter_holds(ex, b, [z3.And(mh[i] >= 0, ms[i](b) < mh[i])]) for b in backs):
                return note(i)
        return False
    for b in backs:
        goals = [z3.And(mh[i] >= 0, ms[i](b) < mh[i]) for i in alive]
        keep = filter_holds(ex, b, goals)
        alive = [alive[k] for k in keep]
        if not alive:
            return False
    return note(alive[0])


def ex_leaf_bits(ex, key):
    t = key[0].ty
    for s in key[1]:
        t = t.fields[s[1]] if s[0] == 'f' else t.elem
    return t.bits if t.k == 'int' else None


def try_unroll(ex, hdr, st, prev, back_run, limit=None):
    """execute the loop concretely if every iteration's exit test is decided (constant trip count <= limit)"""
    limit = limit or ex_unroll(ex)
    if not limit:
        return None
    return None


def ex_unroll(ex):
    return getattr(ex, "unroll", 0)
