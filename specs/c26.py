from .quadrature import *


def spec(chk):
    chk.tasks([("one cell", lambda: cell(chk)), ("all cells", lambda: total(chk))])
    chk.assume_note("Gauss quadrature with p+1 points integrates (u^2)' exactly for u of degree p (degree 2p-1 < 2(p+1)): the sum of w u u' is half the difference of u^2 at the ends")


def by_parts(p, name):
    """sum over modes n, s and Gauss points of u_n u_s w P_n' P_s = (u(1)^2 - u(-1)^2)/2"""
    D = T.add(p, K(1))

    def rule(N, bs, facs):
        if len(bs) != 3 or len(facs) != 5 or any(b[1] is not K(0) or T.sub(b[2], D) is not K(0) for b in bs):
            return None
        by = {}
        for x in facs:
            if x.op != "app":
                return None
            by.setdefault(x.val, []).append(x)
        if sorted(by) != sorted({"gw", "dP", "P", name}) or len(by[name]) != 2:
            return None
        g, w, d, q = by["gw"][0].args[1], by["gw"][0], by["dP"][0], by["P"][0]
        n, s = d.args[0], q.args[0]
        if {g, n, s} != {b[0] for b in bs} or len({g, n, s}) != 3:
            return None
        x = T.app("gx", w.args[0], g)
        if T.sub(w.args[0], D) is not K(0) or d.args[1] is not x or q.args[1] is not x:
            return None
        if {by[name][0].args[0], by[name][1].args[0]} != {n, s} or by[name][0].args[1] is not by[name][1].args[1]:
            return None
        e = by[name][0].args[1]
        if T.vars_of(e) & {g, n, s}:
            return None
        k = T.fresh("k", "I")
        par = T.ite(T.eq(T.imod(k, K(2)), 0), K(1), K(-1))
        r = T.sum_(k, K(0), D, T.app(name, k, e))
        l = T.sum_(k, K(0), D, T.mul(par, T.app(name, k, e)))
        return T.scale(F(1, 2), T.sub(T.mul(r, r), T.mul(l, l)))
    return rule


def cell(chk):
    I = chk.interp()
    N, p = sym_mesh(I)
    D = T.add(p, K(1))
    e = ranged(I, "e", 1, T.add(N, K(1)))
    n = ranged(I, "n", 0, D)
    chk.cover(I.pc, "mesh, order, cell and mode")
    k, s, g = (T.fresh(x, "I") for x in "ksg")
    par = lambda m: T.ite(T.eq(T.imod(m, K(2)), 0), K(1), K(-1))
    u = lambda m, c: T.app("u", m, c)
    right = T.sum_(k, K(0), D, u(k, e))
    left = T.sum_(k, K(0), D, T.mul(par(k), u(k, e)))
    inflow = T.ite(T.eq(e, 1), T.sum_(k, K(0), D, u(k, N)), T.sum_(k, K(0), D, u(k, T.sub(e, K(1)))))

    def vol(m):
        x = T.app("gx", D, g)
        return T.sum_(g, K(0), D, T.mul(T.mul(T.app("gw", D, g), T.app("dP", m, x)), T.sum_(s, K(0), D, T.mul(T.app("P", s, x), u(s, e)))))

    # half the rate of the energy carried by mode m: (dx/2) * 2/(2m+1) * du_m/dt
    part = lambda m: T.add(T.sub(vol(m), right), T.mul(par(m), inflow))

    def go():
        sol = new_solution(I, "advection", "sinewave", N, p)
        dgs = I.call(cls(I, "dg", "DG"), [sol], {})
        arbitrary(I, sol)
        I.setattr(sol, "bc_l", "periodic")
        I.setattr(sol, "bc_r", "periodic")
        Fv = I.np.asarr(I.call(I.getattr(dgs, "residual"), [sol], {}))
        dx = I.getattr(sol, "dx")
        want = T.mul(T.div(T.add(T.scale(F(2), n), K(1)), dx), part(n))
        chk.prove_eq("one cell: the time derivative of every mode", Fv.at(n, e), want, hyps=list(I.pc), func="dg1d.dg.DG.residual")
    chk.run(I, go, "energy")
    # the integral of u^2 over the cell is dx * sum_n u_n^2 / (2n+1) (Legendre orthogonality): its rate is
    # sum_n 2 dx/(2n+1) u_n du_n/dt = 2 sum_n u_n part(n) by the above
    rate = T.sum_(k, K(0), D, T.mul(T.scale(F(2), u(k, e)), part(k)))
    jump = T.sub(inflow, left)
    exch = T.sub(T.mul(inflow, inflow), T.mul(right, right))
    chk.prove_eq("one cell: the energy rate is what the faces exchange minus the square of the inflow jump", rate, T.sub(exch, T.mul(jump, jump)),
                 hyps=list(I.pc), func="dg1d.dg.DG.residual", sum_rules=[by_parts(p, "u")])
    x = R("jump")
    chk.prove("one cell: hence at most the exchange minus half the square of the jump", T.le(T.const(0), T.scale(F(1, 2), T.mul(x, x))), [])
    m = ranged(I, "m", 0, D)
    dx, rm, um = R("dx"), R("part"), R("um")
    chk.prove("one cell: weight of a mode in the energy cancels the factor of its time derivative",
              T.implies(T.lt(0, dx), T.eq(T.mul(T.mul(T.div(T.scale(F(2), dx), T.toR(T.add(T.scale(F(2), m), K(1)))), um),
                                                T.mul(T.div(T.toR(T.add(T.scale(F(2), m), K(1))), dx), rm)),
                                          T.mul(T.scale(F(2), um), rm))), list(I.pc))


def total(chk):
    """the exchanges of all cells add up to zero with periodic ends: q(e) = (right trace of cell e)^2, q(0) = q(N)"""
    from .c01 import telescope
    telescope(chk)
    q = lambda i: T.app("q", i)
    N = INT("N")
    S = R("S")
    chk.prove("the exchanges cancel", T.implies(T.and_(T.eq(S, T.sub(q(K(0)), q(N))), T.eq(q(K(0)), q(N))), T.eq(S, K(0))), [])
    from . import c01
    c01.ends(chk, "advection", 1, "sinewave")
