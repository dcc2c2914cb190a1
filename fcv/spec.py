"""Contract objects and the function-by-function runner."""
import z3, time, os, traceback, sys
from .engine import *
from .llvmir import Unsupported
from . import models


class Spec:
    """Contract of one function.

    setup(c)       builds argument objects and assumes the precondition
    post(c, s, rv) -> list of (name, tags, goal)   postcondition over entry (c.S0) and exit state s
    policy(c)      -> {kind: condition over the entry state}: the checking policy must be called exactly then
    """

    def __init__(self, fn, setup, post, policy=None, name=None, hints=(), measures=(), props=(), terms=None, extra_models=(), budget=None,
                 unchanged=True, cost=1):
        self.unchanged = unchanged
        self.cost = cost
        self.fn, self.setup, self.post, self.policy = fn, setup, post, policy
        self.name = name or fn
        self.hints, self.measures, self.props, self.terms = list(hints), list(measures), tuple(props), terms
        self.extra_models = list(extra_models)
        self.budget = budget


class Ctx:
    def __init__(self, ex, st, syms):
        self.ex, self.st = ex, st
        self.N = syms[0] if syms else None
        self.syms = syms
        self.args = []
        self.modifies = set()
        self.x = {}

    def region(self, name, ty, alive=None, const=False):
        r = Region(name, ty, 'arg', const)
        self.ex.init_region(self.st, r, alive=alive)
        return r

    def nat(self, name, hi=None, bits=64):
        v = z3.Int(name)
        self.st.assume(z3.And(v >= 0, v < 2 ** bits))
        if hi is not None:
            self.st.assume(v <= hi)
        return v

    def assume(self, f):
        self.st.assume(f)

    def freeze(self):
        self.S0 = self.st.fork()


class Report:
    pass


def verify(prog, spec, syms, symfacts, models_list, budget=300, cert=None):
    t0 = time.time()
    rep = {"function": spec.name, "wrapper": spec.fn, "ok": True, "obligations": [], "error": None}
    ex = Exec(prog, spec.name, list(spec.extra_models) + list(models_list))
    ex.cert, ex.fastfail = cert, cert is not None
    ex.deadline = time.time() + (spec.budget or budget)
    try:
        f = prog.func(spec.fn)
        if f.decl:
            raise Unsupported("function %s has no body" % spec.fn)
        st = State()
        for x in symfacts:
            st.assume(x)
        c = Ctx(ex, st, syms)
        spec.setup(c)
        c.freeze()
        ex.loop_hints = [(lambda e, li, h=h: h(c, li)) for h in spec.hints]
        ex.loop_measures = [(lambda e, li, h=h: h(c, li)) for h in spec.measures]
        ex.terms = list(syms) + list(c.x.get('terms', []))
        # vacuity: the precondition must be satisfiable
        s = mk_solver(4000000)
        s.set("timeout", 10000)
        for x in st.facts:
            s.add(x)
        if s.check() == z3.unsat:
            ex.obls.append(Obligation(spec.name, "precondition-satisfiable", ("vacuity",), None, False, "precondition is contradictory"))
        pol = spec.policy(c) if spec.policy else {}
        ex.misuse = [b2z(v) for v in pol.values()]
        polhits = {}

        def hook(s, kind, a, loc):
            polhits[kind] = polhits.get(kind, 0) + 1
            cond = pol.get(kind, FALSE)
            ex.oblige(s, cond, "policy-%s-only-on-misuse" % kind, ("policy",), loc, assume_after=False)
            for r in c.S0.regs if spec.unchanged else ():
                for key in [k for k in c.S0.mem if k[0] is r]:
                    a0, a1 = c.S0.mem[key], s.mem[key]
                    if a0 is a1 or (z3.is_expr(a0) and z3.is_expr(a1) and a0.eq(a1)):
                        continue
                    if not z3.is_expr(a0) or r.name in c.x.get('uninit', ()):
                        continue
                    g = a0 == a1
                    if a0.sort().kind() == z3.Z3_ARRAY_SORT and key[2] in ('v', 'r') and (r, key[1], 'a') in c.S0.mem:
                        k = ex.fresh("k")
                        g = z3.Implies(z3.Select(c.S0.mem[(r, key[1], 'a')], k), z3.Select(a0, k) == z3.Select(a1, k))
                    elif a0.sort().kind() == z3.Z3_ARRAY_SORT:
                        k = ex.fresh("k")
                        g = z3.Select(a0, k) == z3.Select(a1, k)
                    ex.oblige(s, g, "state-unchanged-when-policy-%s-called(%s%s)" % (kind, r.name, key[2]), ("policy",), loc)

        ex.policy_hook = hook
        ex.ctx = c
        args = c.args
        if len(args) != len(f.params):
            raise Unsupported("signature of %s changed" % spec.fn)
        for (pid, _), v in zip(f.params, args):
            st.env[pid] = v
        rets = ex.run(f, st)
        nret = 0
        for s, rv in rets:
            if not s.feasible():
                continue
            nret += 1
            rv = ex.toint(s, rv) if isinstance(rv, Scaled) else rv
            for kind, cond in pol.items():
                ex.oblige(s, z3.Not(cond), "misuse-is-rejected-by-%s" % kind, ("policy",), None)
            for name, tags, goal in spec.post(c, s, rv):
                ex.oblige(s, goal, name, tags, None, assume_after=False)
            # frame: arguments not listed as modified keep their contents
            for r in c.S0.regs:
                if r.name in c.modifies or r.kind == 'global':
                    continue
                for key in [k for k in c.S0.mem if k[0] is r]:
                    a0, a1 = c.S0.mem[key], s.mem[key]
                    if a0 is a1 or not z3.is_expr(a0) or (z3.is_expr(a1) and a0.eq(a1)):
                        continue
                    ex.oblige(s, a0 == a1, "frame:%s%s" % (r.name, key[2]), ("functional", "frame"), None)
            # temporaries are destroyed exactly once
            for r in s.regs:
                if r.kind == 'alloca':
                    for tp, kind, lt in ex.leaves(r.ty):
                        if kind == 'elem':
                            m = s.mem[(r, tp, 'a')]
                            if m.sort() == B:
                                ex.oblige(s, z3.Not(m), "temporary-destroyed", ("lifetime",), None)
                            elif m.sort() == z3.ArraySort(I, B):
                                k = ex.fresh("k")
                                ex.oblige(s, z3.Not(z3.Select(m, k)), "temporaries-destroyed", ("lifetime",), None)
        if nret == 0 and not c.x.get('never_returns'):
            ex.obls.append(Obligation(spec.name, "some-path-returns", ("vacuity",), None, False, "no feasible normal return"))
        for kind in pol:
            if not polhits.get(kind) and not c.x.get('policy_optional'):
                ex.obls.append(Obligation(spec.name, "policy-%s-reachable" % kind, ("policy", "vacuity"), None, False, "the policy call is never reached"))
        rep["returns"] = nret
    except Unsupported as e:
        rep["error"] = "unsupported: %s" % e
    except RecursionError as e:
        rep["error"] = "unsupported: recursion limit"
    except (KeyError, IndexError, AttributeError, TypeError, AssertionError, ValueError, z3.Z3Exception) as e:
        rep["error"] = "internal: %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-6000:])
    rep["obligations"] = ex.obls
    rep["cert_all"], rep["cert_min"] = sorted(ex.cert_all), sorted(ex.cert_min)
    rep["paths"] = ex.paths
    rep["backends"] = ex.backends
    rep["loops"] = ex.loops_report
    rep["solver_time"] = ex.solver_time
    rep["time"] = time.time() - t0
    rep["assumed"] = sorted(ex.assumed_calls)
    rep["callees"] = sorted(d for d, _ in ex.callees)
    rep["locs"] = sorted(ex.covered_locs)
    rep["ok"] = rep["error"] is None and all(o.ok for o in ex.obls)
    return rep
