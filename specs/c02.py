from .common import *


def spec(chk):
    for system, nf, ic in SYSTEMS:
        for bc in ("periodic", "zerograd"):
            with chk.section("residual %s %s" % (system, bc)):
                one(chk, system, nf, ic, bc)
    chk.assume_note("numerical and volume fluxes enter by contract: any function of the states at one face / point (proved per flux in C05)")


def expected(I, nf, N, p, n, e, f, ul, ub=None):
    """the weak form, written from the property; ul(s, col) reads the coefficients (ghosts filled)"""
    D = T.add(p, T.const(1))
    k = T.fresh("g", "I")
    st = T.fresh("t", "I")

    def point(cell, q):
        return T.sum_(st, K(0), D, T.mul(T.app("P", st, T.app("gx", D, k)), ul(st, cell, q)))

    def trace(cell, q, sign):
        par = T.ite(T.eq(T.imod(st, K(2)), 0), K(1), K(-1))
        return T.sum_(st, K(0), D, T.mul(par, ul(st, cell, q)) if sign < 0 else ul(st, cell, q))
    fi = K(f)
    vol = T.sum_(k, K(0), D, T.mul(T.mul(T.app("gw", D, k), T.app("dP", n, T.app("gx", D, k))),
                                   T.app("iflux", fi, *[point(e, q) for q in range(nf)])))

    def flux(cl, cr):
        return T.app("flux", fi, *[trace(cl, q, 1) for q in range(nf)], *[trace(cr, q, -1) for q in range(nf)])
    sgn = T.ite(T.eq(T.imod(n, K(2)), 0), K(1), K(-1))
    prev, nxt = T.sub(e, K(1)), T.add(e, K(1))
    return vol, flux(e, nxt), flux(prev, e), sgn


def one(chk, system, nf, ic, bc):
    I = chk.interp()
    N, p = sym_mesh(I)
    use_flux_contracts(I, nf)
    n = ranged(I, "n", 0, T.add(p, K(1)))
    e = ranged(I, "e", 1, T.add(N, K(1)))
    chk.cover(I.pc, "mesh, order, cell and mode")
    L = "%s/%s: " % (system, bc)

    def go():
        sol = new_solution(I, system, ic, N, p)
        dgs = I.call(cls(I, "dg", "DG"), [sol], {})
        arbitrary(I, sol)
        I.setattr(sol, "bc_l", bc)
        I.setattr(sol, "bc_r", bc)
        Fv = I.np.asarr(I.call(I.getattr(dgs, "residual"), [sol], {}))
        dx = I.getattr(sol, "dx")

        def ul(s, c, q):
            # coefficient s of field q in cell c (0 = left ghost, N+1 = right ghost), ghosts by the boundary rule
            col = lambda cc: T.add(T.scale(F(nf), cc), K(q))
            a = T.app("u", s, col(c))
            gl = T.app("u", s, col(N if bc == "periodic" else K(1)))
            gr = T.app("u", s, col(K(1) if bc == "periodic" else N))
            return T.ite(T.le(c, 0), gl, T.ite(T.le(T.add(N, K(1)), c), gr, a))
        for f in range(nf):
            vol, fr, fl, sgn = expected(I, nf, N, p, n, e, f, ul)
            want = T.mul(T.div(T.add(T.scale(F(2), n), K(1)), dx),
                         T.add(T.sub(vol, fr), T.mul(sgn, fl)))
            got = Fv.at(n, T.add(T.scale(F(nf), e), K(f)))
            chk.prove_eq(L + "time derivative of field %d equals the weak form" % f, got, want, hyps=list(I.pc),
                         func="dg1d.dg.DG.residual")
    chk.run(I, go, L + "residual")
