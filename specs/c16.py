from .limiter import *


def spec(chk):
    top = 12 if chk.thorough else 8
    chk.tasks([("minmod", lambda: mm(chk))] + [("order %d" % p, lambda p=p: one(chk, p)) for p in range(top, -1, -1)])
    chk.bound("orders 0..%d enumerated; every coefficient of the cell and its neighbours" % top)


def mm(chk):
    I = chk.interp()
    a, b = R("a"), R("b")

    def go():
        kw = dict(hyps=list(I.pc), func="dg1d.limiting.scalar_minmod")
        m = I.call(fn(I, "limiting", "scalar_minmod"), [a, b], {})
        chk.prove_eq("minmod: zero if the signs differ, otherwise the smaller in magnitude", m, minmod(a, b), **kw)
        chk.prove_eq("minmod of equal numbers is that number", I.call(fn(I, "limiting", "scalar_minmod"), [a, a], {}), a, **kw)
    chk.run(I, go, "minmod")
    # the same for order one with the real minmod, through the whole limiter
    I = chk.interp()

    def go1():
        lim = limiter(I, 1, contract=False)
        (uc, c), (ul, l), (ur, r) = column(I, "c", 1), column(I, "l", 1), column(I, "r", 1)
        h = entries(I, I.call(I.getattr(lim, "hr"), [uc, ul, ur], {}), 1)
        chk.prove_eq("order one: the limited slope is the minmod of half the neighbouring average differences", h[1],
                     minmod(T.scale(F(1, 2), T.sub(c[0], l[0])), T.scale(F(1, 2), T.sub(r[0], c[0]))), hyps=list(I.pc),
                     func="dg1d.limiting.Limiter.hr")
    chk.run(I, go1, "order one")


def top_derivative(c, k):
    """k-th derivative of the series whose highest mode is k: a constant"""
    return T.scale(legendre_coeffs(k)[k] * factorial(k), c[k])


def one(chk, p):
    I = chk.interp()

    def go():
        lim = limiter(I, p)
        kw = lambda f: dict(hyps=list(I.pc), func="dg1d.limiting.Limiter." + f, quants=[minmod_fact])
        a, b = R("a"), R("b")
        z = [K(0)] * p
        lin = lambda off: I.np.vec(([T.add(a, T.scale(F(off), b)), b] + z)[:p + 1]) if p else I.np.vec([a])
        h = entries(I, I.call(I.getattr(lim, "hr"), [lin(0), lin(-2), lin(2)], {}), p)
        for k in range(p + 1):
            chk.prove_eq("order %d: linear data are returned unchanged, coefficient %d" % (p, k), h[k],
                         (a, b, K(0))[min(k, 2)], **kw("hr"))
        if not p:
            return
        (uc, c), (ul, l), (ur, r) = column(I, "c", p), column(I, "l", p), column(I, "r", p)
        call = I.contracts["dg1d.limiting.scalar_minmod"]
        half = lambda x, y: T.scale(F(1, 2), T.sub(x, y))
        # Legendre: the highest derivative of the result against the averages of the next lower derivative
        h = entries(I, I.call(I.getattr(lim, "hr"), [uc, ul, ur], {}), p)
        av = lambda s: top_derivative(s, p - 1)
        want = call(I, [half(av(c), av(l)), half(av(r), av(c))], {})
        chk.prove_eq("order %d: the highest coefficient is the minmod of the one-sided differences" % p, top_derivative(h, p), want, **kw("hr"))
        # monomial
        h = entries(I, I.call(I.getattr(lim, "limit_monomial"), [uc, ul, ur], {}), p)
        want = call(I, [half(c[p - 1], l[p - 1]), half(r[p - 1], c[p - 1])], {})
        chk.prove_eq("order %d: the highest monomial coefficient is the minmod of the one-sided differences" % p, h[p], want, **kw("limit_monomial"))
    chk.run(I, go, "limiter order %d" % p)
