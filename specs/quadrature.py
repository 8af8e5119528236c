"""Sum rules handed to the ring normaliser: facts about sums that the contracts rely on."""
from .common import *


def delta(known=lambda c: False):
    """delta rule; known(c) tells that a range condition holds"""
    return lambda N, bs, facs: delta_rule(N, bs, facs, known)


def delta_rule(N, bs, facs, known=lambda c: False):
    """sum over k of f(k) * (x if k == c else y) = sum of f*y + (x - y) f at k = c when c is in range"""
    for q, t in enumerate(facs):
        if t.op != "ite":
            continue
        c = t.args[0]
        neg = c.op == "not"
        if neg:
            c = c.args[0]
        if c.op != "eq0":
            continue
        e = c.args[0]
        for b, lo, hi in bs:
            if b not in T.vars_of(e):
                continue
            # e = +-b + rest
            r = T.subst(e, {b: K(0)})
            k = T.sub(T.subst(e, {b: K(1)}), r)
            if b in T.vars_of(r) or k.op != "c" or abs(k.val) != 1 or any(x[0] in T.vars_of(r) for x in bs):
                continue
            if T.sub(e, T.add(T.scale(k.val, b), r)) is not K(0) and not (T.sub(e, T.add(T.scale(k.val, b), r)).op == "c"):
                continue
            at = T.scale(F(-1) / k.val, r)
            x, y = t.args[1], t.args[2]
            if neg:
                x, y = y, x
            rest = K(1)
            for i, f in enumerate(facs):
                if i != q:
                    rest = T.mul(rest, f)
            others = [z for z in bs if z[0] is not b]

            def total(body, bb):
                for (v, l, h) in reversed(bb):
                    body = T.sum_(v, l, h, body)
                return body
            one = T.subst(T.mul(rest, T.sub(T.toR(x), T.toR(y))), {b: at})
            inside = T.and_(*[c for c in (T.le(lo, at), T.lt(at, hi)) if not known(c)])
            one = T.ite(inside, total(one, [(v, T.subst(l, {b: at}), T.subst(h, {b: at})) for v, l, h in others]), K(0))
            return T.add(total(T.mul(rest, T.toR(y)), bs), one)
    return None


def gauss_deriv(p, value):
    """sum over the p+1 Gauss points of w * P_n' = P_n(1) - P_n(-1), 0 <= n <= p (exact: degree below 2(p+1));
    value: 0 for even n, 2 for odd n"""
    D = T.add(p, K(1))

    def rule(N, bs, facs):
        if len(bs) != 1 or len(facs) != 2 or bs[0][1] is not K(0) or T.sub(bs[0][2], D) is not K(0):
            return None
        b = bs[0][0]
        w = [x for x in facs if x.op == "app" and x.val == "gw"]
        d = [x for x in facs if x.op == "app" and x.val == "dP"]
        if len(w) != 1 or len(d) != 1 or w[0].args[1] is not b or d[0].args[1] is not T.app("gx", w[0].args[0], b):
            return None
        if T.sub(w[0].args[0], D) is not K(0):
            return None
        n = d[0].args[0]
        if b in T.vars_of(n):
            return None
        return K(value)
    return rule


def parity_rule(N, bs, facs):
    """inside a sum, ite(k even, x, y) = (x+y)/2 + (-1)^k (x-y)/2"""
    for q, t in enumerate(facs):
        if t.op != "ite" or t.args[0].op != "eq0" or t.args[0].args[0].op != "imod":
            continue
        x, y = t.args[1], t.args[2]
        if x is K(1) and y is K(-1) or not (T.vars_of(t.args[0]) & {b[0] for b in bs}):
            continue
        if x.op == "c" and y.op == "c" and x.val == 1 and y.val == -1:
            continue
        par = T.ite(t.args[0], K(1), K(-1))
        body = T.add(T.scale(F(1, 2), T.add(T.toR(x), T.toR(y))), T.mul(par, T.scale(F(1, 2), T.sub(T.toR(x), T.toR(y)))))
        for i, f in enumerate(facs):
            if i != q:
                body = T.mul(body, f)
        for (v, l, h) in reversed(bs):
            body = T.sum_(v, l, h, body)
        return body
    return None


def legendre_rw(t):
    """P_n(x) for a concrete n"""
    if t.val == "P" and t.args[0].op == "c":
        n = int(t.args[0].val)
        if n == 0:
            return K(1)
        if n <= 12:
            from pyvc.npmodel import legval_term
            return legval_term([K(0)] * n + [K(1)], t.args[1])
    return None


def tidy_args(I, names, rules):
    """rewrite: the arguments of the named functions in ring normal form"""
    def rw(t):
        if t.val not in names:
            return None
        a = [tidy(I, x, rules) if x.sort == "R" else x for x in t.args]
        return T.app(t.val, *a, sort=t.sort)
    return rw


def tidy(I, t, rules):
    """the ring normal form of a term, as a term (used on the arguments of contracts)"""
    from pyvc.poly import Norm, TooBig
    try:
        n = Norm(sum_rules=rules, rewrites=[legendre_rw])
        r = n.rf(t)
        return n.term(r)
    except TooBig:
        return t
