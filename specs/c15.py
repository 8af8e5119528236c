from .limiter import *


def spec(chk):
    top = 12 if chk.thorough else 8
    chk.tasks([("order %d" % p, lambda p=p: one(chk, p)) for p in range(top, -1, -1)])
    chk.bound("orders 0..%d enumerated; every coefficient of the cell and its neighbours" % top)


def one(chk, p):
    I = chk.interp()

    def go():
        lim = limiter(I, p)
        uc, c = column(I, "c", p)
        ul, l = column(I, "l", p)
        ur, r = column(I, "r", p)
        x = R("x")
        kw = lambda f: dict(hyps=list(I.pc), func="dg1d.limiting.Limiter." + f)
        h = I.call(I.getattr(lim, "hr"), [uc, ul, ur], {})
        chk.prove_eq("order %d: the limited polynomial has %d coefficients" % (p, p + 1), I.np.asarr(h).shape[0], K(p + 1), **kw("hr"))
        h = entries(I, h, p)
        chk.prove_eq("order %d: the cell average is preserved" % p, h[0], c[0], **kw("limit_monomial"))
        for k in range(p + 1):
            chk.prove_eq("order %d: the cell's data are not modified (%d)" % (p, k), uc.at(K(k)), c[k], **kw("hr"))
        t = I.call(I.getattr(lim, "legendre_to_monomial"), [uc], {})
        chk.prove_eq("order %d: the monomial coefficients represent the same polynomial" % p,
                     taylor_value(entries(I, t, p), x), legendre_value(c, x), **kw("legendre_to_monomial"))
        b = entries(I, I.call(I.getattr(lim, "monomial_to_legendre"), [t], {}), p)
        for k in range(p + 1):
            chk.prove_eq("order %d: to monomials and back, coefficient %d" % (p, k), b[k], c[k], **kw("monomial_to_legendre"))
        g = I.call(I.getattr(lim, "monomial_to_legendre"), [ul], {})
        chk.prove_eq("order %d: the Legendre coefficients represent the same polynomial" % p,
                     legendre_value(entries(I, g, p), x), taylor_value(l, x), **kw("monomial_to_legendre"))
        b = entries(I, I.call(I.getattr(lim, "legendre_to_monomial"), [g], {}), p)
        for k in range(p + 1):
            chk.prove_eq("order %d: to Legendre and back, coefficient %d" % (p, k), b[k], l[k], **kw("legendre_to_monomial"))
        # the same in the monomial representation
        a = entries(I, I.call(I.getattr(lim, "limit_monomial"), [uc, ul, ur], {}), p)
        avg = lambda z: sumof([T.scale(Fr(1, factorial(k) * (k + 1)), z[k]) for k in range(0, p + 1, 2)])
        chk.prove_eq("order %d: limiting monomial coefficients preserves the average" % p, avg(a), avg(c), **kw("limit_monomial"))
    chk.run(I, go, "limiter order %d" % p)


def sumof(xs):
    r = K(0)
    for x in xs:
        r = T.add(r, x)
    return r
