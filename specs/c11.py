import importlib.util
import os
from .timeloop import *
from .c12 import SCHEMES, table, Step

ORDER = dict(rk3=3, rk4=4, rk5=5, rk6=6, rk8=8, rk10=10, rk12=12, rk14=14, low_storage_rk4=4)
BITS = 220
TOL = F(1, 10 ** 12)


def spec(chk):
    spec_ = importlib.util.spec_from_file_location("trees", os.path.join(os.path.dirname(__file__), "..", "replay", "trees.py"))
    trees = importlib.util.module_from_spec(spec_)
    spec_.loader.exec_module(trees)
    chk.tasks([("table " + s, lambda s=s: orders(chk, s, trees)) for s in ("rk14", "rk12", "rk10", "rk8", "rk6", "rk5", "rk4", "rk3", "low_storage_rk4")] +
              [("step " + s, lambda s=s: Step(chk, s).check()) for s in SCHEMES + ("low_storage_rk4",)])
    chk.assume_note("Butcher's theorem: a step has order q exactly if the conditions of all rooted trees with at most q nodes hold")
    chk.assume_note("the tables have no inputs: every condition is evaluated completely, to 220 bits, on the double-precision entries the real code builds; accepted residual 1e-12 (weights 1e-13)")


def number(t):
    """value of a constant expression, to 300 bits"""
    from math import isqrt
    t = T.const(t)
    a = [number(x) for x in t.args] if t.op != "c" else ()
    if t.op == "c":
        return F(t.val)
    if t.op == "sqrt":
        return F(isqrt((a[0].numerator << 600) // a[0].denominator), 1 << 300)
    if t.op == "add":
        return F(t.val[0]) + sum((k * x for k, x in zip(t.val[1], a)), F(0))
    if t.op == "mul":
        r = F(1)
        for x, e in zip(a, t.val):
            r *= x ** e
        return r
    if t.op == "div":
        return a[0] / a[1]
    raise Unsupported("constant expression " + t.op)


def orders(chk, scheme, trees):
    """every order condition of the table the real code builds"""
    I = chk.interp()
    res = {}

    def go():
        c, b = table(I, scheme)
        s = len(c)
        if scheme == "low_storage_rk4":
            al = None
        else:
            c2, al, full = I.call(fn(I, "rk_coeffs", "get_%s_coefficients" % scheme), [], {})
            al = [number(x) for x in I.tolist(al)]
            full = I.np.asarr(full)
            w = full.shape[1]
            f = "dg1d.rk_coeffs.get_%s_coefficients" % scheme
            chk.require(scheme + ": one stage time per weight", len(al) == s, func=f)
            chk.require(scheme + ": one row per stage", full.shape[0] == K(s), func=f)
            up = [full.at(K(i), K(j)) for i in range(s) for j in range(i, int(w.val))]
            chk.require(scheme + ": explicit (no stage uses itself or a later one)", all(x.op == "c" and x.val == 0 for x in up), func=f)
        res.update(c=[number(x) for x in c], b=[[number(x) for x in r] for r in b], al=al)
    chk.run(I, go, "table " + scheme, defined=False)
    if not res:
        return
    f = "dg1d.rk_coeffs.get_%s_coefficients" % scheme if scheme != "low_storage_rk4" else "dg1d.rk.low_storage_rk4"
    c, b, al = res["c"], res["b"], res["al"]
    d = abs(sum(c) - 1)
    chk.require("%s: the weights sum to one" % scheme, d <= F(1, 10 ** 13), func=f, detail="off by %g" % float(d))
    if al is not None:
        for k in range(len(c)):
            d = abs(sum(b[k], F(0)) - al[k])
            chk.require("%s: the time of stage %d is its row sum" % (scheme, k), d <= TOL, func=f, detail="off by %g" % float(d))
    one = 1 << BITS
    fx = lambda x: (x.numerator << BITS) // x.denominator
    rows = [[(j, fx(x)) for j, x in enumerate(r) if x] for r in b]
    w = [fx(x) for x in c]
    dot = lambda v: [sum(x * v[j] for j, x in r) >> BITS for r in rows]
    mul = lambda u, v: [x * y >> BITS for x, y in zip(u, v)]
    worst, count = {}, {}
    for q, gam, phi in trees.conditions(None, ORDER[scheme], dot, [one] * len(c), mul):
        e = abs((sum(x * y for x, y in zip(w, phi)) >> BITS) - one // gam)
        worst[q] = max(worst.get(q, 0), e)
        count[q] = count.get(q, 0) + 1
    known = [1, 1, 2, 4, 9, 20, 48, 115, 286, 719, 1842, 4766, 12486, 32973]
    for q in range(1, ORDER[scheme] + 1):
        chk.require("%s: all %d trees of order %d were enumerated" % (scheme, known[q - 1], q), count.get(q) == known[q - 1])
        e = F(worst[q], one)
        chk.require("%s: the %d order conditions of order %d" % (scheme, known[q - 1], q), e <= TOL, func=f, detail="off by %g" % float(e))
