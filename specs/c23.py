from .common import *


def spec(chk):
    top = 8 if chk.thorough else 6
    chk.tasks([("tables", lambda: tables(chk)), ("shift", lambda: shift(chk, top)), ("product", lambda: product(chk, top))])
    chk.bound("shift and product integral: every coefficient and shift, degrees up to %d enumerated" % top)


def tables(chk):
    I = chk.interp()
    p = INT("p")
    I.assume(T.le(0, p))
    D = T.add(p, K(1))
    g, n = ranged(I, "g", 0, D), ranged(I, "n", 0, D)
    chk.cover(I.pc, "an order, a point and a mode")

    def go():
        b = I.call(cls(I, "basis", "Basis"), [p], {})
        at_ = lambda name: I.np.asarr(I.getattr(b, name))
        kw = lambda f: dict(hyps=list(I.pc), func="dg1d.basis.Basis." + f)
        x = T.app("gx", D, g)
        w = T.app("gw", D, g)
        chk.prove_eq("quadrature points", at_("x").at(g), x, **kw("__init__"))
        chk.prove_eq("quadrature weights", at_("w").at(g), w, **kw("__init__"))
        chk.prove_eq("number of points", I.getattr(b, "N_G"), D, **kw("__init__"))
        chk.prove_eq("number of modes", I.getattr(b, "N_s"), D, **kw("__init__"))
        for a, m, dims in (("phi", "evaluate_basis_gauss", (D, D)), ("dphi_w", "evaluate_basis_gauss", (D, D)),
                           ("psi", "evaluate_basis_edges", (K(2), D)), ("m", "mass_matrix", (D,)), ("minv", "mass_matrix", (D,))):
            s = at_(a).shape
            chk.require("%s: rank" % a, len(s) == len(dims))
            for q, d in enumerate(dims):
                chk.prove_eq("%s: length of axis %d" % (a, q), s[q], d, **kw(m))
        chk.prove_eq("evaluation table holds P_n at point g", at_("phi").at(g, n), T.app("P", n, x), **kw("evaluate_basis_gauss"))
        chk.prove_eq("gradient table holds P_n' at point g times its weight", at_("dphi_w").at(n, g), T.mul(T.app("dP", n, x), w), **kw("evaluate_basis_gauss"))
        par = T.ite(T.eq(T.imod(n, K(2)), 0), K(1), K(-1))
        chk.prove_eq("face table: left face", at_("psi").at(K(0), n), par, **kw("evaluate_basis_edges"))
        chk.prove_eq("face table: right face", at_("psi").at(K(1), n), K(1), **kw("evaluate_basis_edges"))
        dd = T.add(T.scale(F(2), n), K(1))
        chk.prove_eq("mass table", at_("m").at(n), T.div(K(2), dd), **kw("mass_matrix"))
        chk.prove_eq("inverse mass table", at_("minv").at(n), T.div(dd, K(2)), **kw("mass_matrix"))
    chk.run(I, go, "Basis")


def series(I, name, deg):
    L = I.np.module("numpy.polynomial").attrs["Legendre"]
    c = [R("%s%d" % (name, k)) for k in range(deg + 1)]
    return I.call(L, [I.np.vec(c)], {}), c


def value(c, x):
    from pyvc.npmodel import legval_term
    return legval_term(c, x)


def shift(chk, top):
    for d in range(top + 1):
        I = chk.interp()
        s, x = R("s"), R("x")

        def go():
            l, c = series(I, "c", d)
            r = I.call(fn(I, "basis", "shift_legendre_polynomial"), [l, s], {})
            kw = dict(hyps=list(I.pc), func="dg1d.basis.shift_legendre_polynomial")
            v = I.np.asarr(I.call(r, [x], {})) if not isinstance(r, T.Term) else r
            v = I.call(r, [x], {})
            chk.prove_eq("degree %d: the shifted series at x is the series at x + s" % d, v, value(c, T.add(x, s)), **kw)
            cs = I.np.asarr(I.getattr(r, "coef"))
            chk.prove_eq("degree %d: the coefficients alone represent it" % d,
                         value([cs.at(K(k)) for k in range(d + 1)], x), value(c, T.add(x, s)), **kw)
            chk.prove_eq("degree %d: number of coefficients" % d, cs.shape[0], K(d + 1), **kw)
            chk.prove_eq("degree %d: the argument is unchanged" % d, I.call(l, [x], {}), value(c, x), **kw)
        chk.run(I, go, "shift degree %d" % d)


def product(chk, top):
    for d in range(top + 1):
        for e in range(top + 1):
            I = chk.interp()

            def go():
                a, ca = series(I, "a", d)
                b, cb = series(I, "b", e)
                r = I.call(fn(I, "basis", "integrate_legendre_product"), [a, b], {})
                want = K(0)
                for k in range(min(d, e) + 1):
                    want = T.add(want, T.scale(F(2, 2 * k + 1), T.mul(ca[k], cb[k])))
                chk.prove_eq("degrees %d, %d: product integral over [-1,1]" % (d, e), r, want, hyps=list(I.pc),
                             func="dg1d.basis.integrate_legendre_product")
            chk.run(I, go, "product %d %d" % (d, e))
