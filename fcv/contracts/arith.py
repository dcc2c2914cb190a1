"""Index arithmetic: circular_indexing, int_math, integer_range, circular_integer_range_iterator."""
import z3
from ..engine import *
from ..spec import Spec
from ..models import *

F = ("functional",)
H63, H64 = 2 ** 63, 2 ** 64


def sgn(x):
    return z3.If(x < H63, x, x - H64)


def arith_specs(ty):
    sp = []

    def out(c):
        r = c.region("out", ty)
        c.modifies.add("out")
        c.x['o'] = r
        return Ptr(r)

    def res(c, s):
        ls = list(c.ex.leaves(c.x['o'].ty))
        return [i2z(s.mem[(c.x['o'], tp, 'v')]) for tp, _, _ in ls]

    def rng(c):
        s, e = c.nat("s"), c.nat("e")
        c.assume(s <= e)
        c.x['s'], c.x['R'], c.x['e'] = s, e - s, e
        return [s, e]

    def two(c, *names):
        v = [c.nat(n) for n in names]
        for n, x in zip(names, v):
            c.x[n] = x
        return v

    def wrap(fn, sign):
        def setup(c):
            c.args = rng(c) + two(c, "i", "n") + [out(c)]
            x = c.x
            if sign > 0:
                c.assume(z3.And(x['R'] >= 1, x['i'] + x['n'] < H64, x['i'] + x['n'] >= x['s']))
            else:
                c.assume(z3.And(x['R'] >= 1, x['s'] <= x['i'], x['i'] + x['R'] < H64, x['n'] + x['R'] < H64))

        def post(c, s, rv):
            x = c.x
            cu, it = res(c, s)
            t = x['i'] + sign * x['n'] - x['s']
            ok = lambda cy: t == cy * x['R'] + (it - x['s'])
            out = [("wrapped-index-in-range", F, z3.And(it >= x['s'], it < x['e']))]
            out.append(("wrapped-index-congruent", F, ok(cu) if sign > 0 else z3.Or(ok(cu), ok(cu - H64))))
            small = z3.And(x['i'] < 2 ** 62, x['n'] < 2 ** 62, x['e'] < 2 ** 62)
            out.append(("cycles-counts-the-wraps", F, z3.Implies(small, ok(sgn(cu)))))
            return out
        return Spec(fn, setup, post)
    sp += [wrap("wrap_inc", 1), wrap("wrap_dec", -1)]

    def empty(fn):
        def setup(c):
            s = c.nat("s")
            c.x['s'] = s
            c.args = [s, s, 0, c.nat("n"), out(c)]

        def post(c, s, rv):
            return [("empty-range-stays-at-zero", F, z3.And(*[v == 0 for v in res(c, s)]))]
        return Spec(fn, setup, post, name=fn + "@empty-range")
    sp += [empty("wrap_inc"), empty("wrap_dec")]

    def s_setup(c):
        c.args = two(c, "a", "b") + [out(c)]

    def s_post(c, s, rv):
        neg, v = res(c, s)
        a, b = c.x['a'], c.x['b']
        return [("magnitude", F, v == z3.If(a >= b, a - b, b - a)), ("sign", F, neg == z3.If(a < b, 1, 0))]
    sp.append(Spec("safe_sub", s_setup, s_post))

    def ss_setup(c):
        c.args = two(c, "a", "b")
        c.assume(z3.And(c.x['a'] - c.x['b'] < H63, c.x['b'] - c.x['a'] < H63))
    sp.append(Spec("safe_sub_signed", ss_setup, lambda c, s, rv: [("signed-difference", F, sgn(i2z(rv)) == c.x['a'] - c.x['b'])]))

    def a_setup(c):
        c.args = two(c, "a", "b") + [out(c)]
        c.assume(z3.And(c.x['b'] != H63, c.x['a'] + sgn(c.x['b']) < H64))

    def a_post(c, s, rv):
        neg, v = res(c, s)
        t = c.x['a'] + sgn(c.x['b'])
        return [("magnitude", F, v == z3.If(t >= 0, t, -t)), ("sign", F, neg == z3.If(t < 0, 1, 0))]
    sp.append(Spec("safe_add", a_setup, a_post))

    def d_setup(c):
        c.args = two(c, "a", "b")
        c.assume(z3.And(c.x['b'] >= 1, c.x['a'] >= 1))
    sp.append(Spec("div_up", d_setup, lambda c, s, rv: [("rounded-up-quotient", F, z3.And((i2z(rv) - 1) * c.x['b'] < c.x['a'], c.x['a'] <= i2z(rv) * c.x['b']))]))

    def r1(c):
        c.args = rng(c) + two(c, "i")
    inr = lambda c: z3.And(c.x['s'] <= c.x['i'], c.x['i'] < c.x['e'])
    sp.append(Spec("contains", r1, lambda c, s, rv: [("contains", F, b2z(c.ex.tobool(s, rv)) == inr(c))]))
    sp.append(Spec("contains_or_end", r1, lambda c, s, rv: [("contains-or-end", F, b2z(c.ex.tobool(s, rv)) == z3.Or(inr(c), c.x['i'] == c.x['e']))]))
    sp.append(Spec("distance", lambda c: setattr(c, 'args', rng(c)), lambda c, s, rv: [("distance", F, i2z(rv) == c.x['R'])]))

    def it_setup(c):
        c.args = rng(c) + two(c, "i", "n")
        x = c.x
        c.assume(z3.And(x['R'] >= 1, x['s'] <= x['i'], x['i'] < x['e'], x['e'] < 2 ** 62, x['n'] < 2 ** 62))

    def it_post(sign):
        def post(c, s, rv):
            x, rv = c.x, i2z(rv)
            t = x['i'] + sign * x['n'] - x['s']
            qs = [d[2] for d in s.ghost.get('divs', [])]
            cand = qs + [a - b for a in qs for b in qs if a is not b] + [a - b - 1 for a in qs for b in qs if a is not b] + [-a - 1 for a in qs] + [z3.IntVal(v) for v in (0, 1, -1, -2)]
            cand += [a + 1 for a in qs] + [-a for a in qs] + [1 - a for a in qs] + [a - b + 1 for a in qs for b in qs if a is not b]
            return [("position-in-range", F, z3.And(rv >= x['s'], rv < x['e'])),
                    ("position-congruent", F, z3.Or(*[t == k * x['R'] + (rv - x['s']) for k in cand]))]
        return post
    sp.append(Spec("citer_deref", it_setup, it_post(1)))
    sp.append(Spec("citer_back", it_setup, it_post(-1)))
    sp.append(Spec("citer_diff", it_setup, lambda c, s, rv: [("difference-is-steps", F, sgn(i2z(rv)) == c.x['n'])]))
    return sp
