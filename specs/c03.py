from .flux import *
from .quadrature import *
from . import c05, c14, c16


def spec(chk):
    top = 12 if chk.thorough else 8
    chk.tasks([("consistency " + f, lambda f=f: c05.consistency(chk, f)) for f in ("godunov", "roe", "rusanov")] +
              [("%s/%s" % (s[0], bc), lambda s=s, bc=bc: rate(chk, *s, bc)) for s in SYSTEMS for bc in ("periodic", "zerograd")] +
              [("limiter %s/%s" % (s[0], bc), lambda s=s, bc=bc: c14.one(chk, *s, bc)) for s in SYSTEMS for bc in ("periodic", "zerograd")] +
              [("limiter off", lambda: c14.off(chk)), ("minmod", lambda: c16.mm(chk))] +
              [("limiter order %d" % p, lambda p=p: c16.one(chk, p)) for p in range(top, -1, -1)] +
              [("advection fluxes", lambda: c05.advection(chk)), ("volume flux", lambda: c05.volume(chk))])
    chk.assume_note("fluxes enter the residual by their contract: a function of the two states at one face, equal to the physical flux when they agree (proved here and in C05)")
    chk.assume_note("Gauss quadrature with p+1 points integrates P_n', n <= p, exactly")
    chk.bound("limiting a uniform state: orders 0..%d enumerated for the reconstruction of one cell (a uniform state is linear data); any order, number of cells and flags for its application" % top)


def consistent(nf):
    """contract: flux of equal states is the physical flux; locality"""
    plain = face_flux_contract(nf)

    def c(I, args, kw):
        g = plain(I, args, kw).reader()
        a, b = [I.np.asarr(x) for x in args]
        ra, rb = a.reader(), b.reader()

        def f(idx):
            j, = idx
            base = T.scale(F(nf), T.idiv(j, T.const(nf))) if nf > 1 else j
            k = T.imod(j, T.const(nf)) if nf > 1 else K(0)
            ls = [ra((T.add(base, T.const(q)),)) for q in range(nf)]
            rs = [rb((T.add(base, T.const(q)),)) for q in range(nf)]
            return T.ite(T.and_(*[T.eq(x, y) for x, y in zip(ls, rs)]), T.app("iflux", k, *ls), g(idx))
        return Arr(Buf(a.shape, f))
    return c


def uniform(I, sol, nf):
    """every interior cell holds the constant U; ghost cells arbitrary"""
    u = I.getattr(sol, "u")
    M = I.np.asarr(u).shape[1]

    def f(idx):
        s, j = idx
        k = T.imod(j, K(nf)) if nf > 1 else K(0)
        val = T.app("U", K(0))
        for q in range(nf - 1, 0, -1):
            val = T.ite(T.eq(k, q), T.app("U", K(q)), val)
        inner = T.ite(T.eq(s, 0), val, K(0))
        return T.ite(T.and_(T.le(K(nf), j), T.lt(j, T.sub(M, K(nf)))), inner, T.app("ghost", s, j))
    I.setattr(sol, "u", Arr(Buf(u.shape, f)))


def rate(chk, system, nf, ic, bc):
    I = chk.interp()
    N, p = sym_mesh(I)
    for m, fs in (("euler_physics", ("roe", "rusanov", "godunov")), ("advection_physics", ("upwinding",))):
        for f in fs:
            I.contracts["dg1d.%s.riemann_%s" % (m, f)] = consistent(nf)
        I.contracts["dg1d.%s.interior_flux" % m] = volume_flux_contract(nf)
    n = ranged(I, "n", 0, T.add(p, T.const(1)))
    e = ranged(I, "e", 1, T.add(N, K(1)))
    L = "%s/%s: " % (system, bc)
    chk.cover(I.pc, "mesh, order, cell and mode")

    def go():
        sol = new_solution(I, system, ic, N, p)
        dgs = I.call(cls(I, "dg", "DG"), [sol], {})
        uniform(I, sol, nf)
        I.setattr(sol, "bc_l", bc)
        I.setattr(sol, "bc_r", bc)
        Fv = I.np.asarr(I.call(I.getattr(dgs, "residual"), [sol], {}))
        rw = [legendre_rw, tidy_args(I, ("iflux", "flux"), [delta(I.implied)])]
        for f in range(nf):
            for par, nm in ((0, "even"), (1, "odd")):
                chk.prove_eq(L + "the time derivative of field %d vanishes, %s modes" % (f, nm), Fv.at(n, T.add(T.scale(F(nf), e), K(f))), K(0),
                             hyps=list(I.pc) + [T.eq(T.imod(n, K(2)), par)], func="dg1d.dg.DG.residual",
                             sum_rules=[delta(I.implied), gauss_deriv(p, 2 * par)], rewrites=rw)
    chk.run(I, go, L + "residual")
