"""The hierarchical-reconstruction limiter built by the real constructor, for concrete orders and symbolic coefficients."""
from .common import *
from fractions import Fraction as Fr
from math import factorial, comb


def minmod(a, b):
    """zero if the signs differ, otherwise the smaller in magnitude"""
    a, b = T.const(a), T.const(b)
    return T.ite(T.and_(T.lt(0, a), T.lt(0, b)), T.min_(a, b),
                 T.ite(T.and_(T.lt(a, 0), T.lt(b, 0)), T.max_(a, b), K(0)))


def minmod_contract(I, args, kw):
    """scalar_minmod(a, b): proved of the real function in C16"""
    from pyvc.poly import Norm
    a, b = [T.toR(T.b2i(T.const(x))) for x in args]
    try:
        if Norm().zero(T.sub(a, b)):
            return a
    except Exception:
        pass
    return T.app("minmod", *sorted((a, b), key=lambda x: x.id))


def minmod_fact(a):
    return [T.eq(a, minmod(*a.args))] if a.val == "minmod" else ()


def limiter(I, p, contract=True):
    if contract:
        I.contracts["dg1d.limiting.scalar_minmod"] = minmod_contract
    N = INT("N")
    I.assume(T.le(1, N))
    sol = new_solution(I, "advection", "sinewave", N, p, thresholds=[R("th")])
    return I.call(cls(I, "limiting", "Limiter"), ["adaptive_hr", sol], {})


def column(I, name, p):
    c = [R("%s%d" % (name, k)) for k in range(p + 1)]
    return I.np.vec(c), c


def legendre_coeffs(n):
    """monomial coefficients of P_n"""
    out = [Fr(0)] * (n + 1)
    for m in range(n // 2 + 1):
        out[n - 2 * m] = Fr((-1) ** m * comb(n, m) * comb(2 * n - 2 * m, n), 2 ** n)
    return out


def legendre_value(c, x):
    r = K(0)
    for n, cn in enumerate(c):
        for k, a in enumerate(legendre_coeffs(n)):
            if a:
                r = T.add(r, T.scale(a, T.mul(cn, T.power(x, K(k)))))
    return r


def taylor_value(t, x):
    r = K(0)
    for k, tk in enumerate(t):
        r = T.add(r, T.scale(Fr(1, factorial(k)), T.mul(tk, T.power(x, K(k)))))
    return r


def entries(I, a, p):
    a = I.np.asarr(a)
    return [a.at(K(k)) for k in range(p + 1)]
