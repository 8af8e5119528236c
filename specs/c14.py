from .limiter import *
from .timeloop import tok


def spec(chk):
    for system, nf, ic in SYSTEMS:
        pass
    chk.tasks([("%s/%s" % (s[0], bc), lambda s=s, bc=bc: one(chk, *s, bc)) for s in SYSTEMS for bc in ("periodic", "zerograd")] +
              [("off", lambda: off(chk))])
    chk.assume_note("the flags are arbitrary (C13) and the reconstruction of one cell is an arbitrary function of three coefficient columns (C15, C16)")


def col(a, j):
    r = a.reader()
    from pyvc.npmodel import canon
    return r((canon(0), j))


def hr_contract(I, args, kw):
    """hr(cell, left, right): a function of three columns of coefficients; its arguments are not modified (C15)"""
    cols = list(args[1:]) + [kw[k] for k in ("uc", "ul", "ur") if k in kw]
    t = [tok(I, a) for a in cols]
    n = I.np.asarr(cols[0]).shape
    return Arr(Buf(n, lambda idx: T.app("hr", *t, idx[0])))


def one(chk, system, nf, ic, bc):
    I = chk.interp()
    N, p = sym_mesh(I)
    I.contracts["dg1d.limiting.Limiter.hr"] = hr_contract
    seen = []

    def sensing(I, args, kw):
        """arbitrary flags; the solution is not modified (C13)"""
        sn = args[0]
        sol = args[1] if len(args) > 1 else kw["solution"]
        seen.append(I.np.asarr(I.getattr(sol, "u")).at(s, c))
        a = I.np.asarr(I.getattr(sn, "sensors"))
        I.setattr(sn, "sensors", Arr(Buf(a.shape, lambda ix: T.app("flag", *ix, sort="I"), "i")))
    I.contracts["dg1d.sensor.Sensor.sensing"] = sensing
    s = ranged(I, "s", 0, T.add(p, K(1)))
    e = ranged(I, "e", 0, T.add(N, K(2)))
    c = INT("c")
    chk.cover(I.pc, "a mesh, an order, a cell and a mode")
    L = "%s/%s: " % (system, bc)

    def go():
        sol = new_solution(I, system, ic, N, p, thresholds=[R("th0"), R("th1")])
        lim = I.call(cls(I, "limiting", "Limiter"), ["adaptive_hr", sol], {})
        I.simplify_on()
        arbitrary(I, sol)
        I.setattr(sol, "bc_l", bc)
        I.setattr(sol, "bc_r", bc)
        u0 = T.app("u", s, c)
        I.call(I.getattr(lim, "limit"), [sol], {})
        kw = dict(hyps=list(I.pc), func="dg1d.limiting.Limiter.adaptive_hr", quants=list(I.lemmas))
        u1 = I.np.asarr(I.getattr(sol, "u"))
        chk.require(L + "the flags are computed", len(seen) > 0)
        for x in seen[:1]:
            chk.prove_eq(L + "the flags are computed from the solution before limiting", x, u0, **kw)
        chk.prove_eq(L + "columns", u1.shape[1], T.scale(F(nf), T.add(N, K(2))), **kw)
        chk.prove_eq(L + "modes", u1.shape[0], T.add(p, K(1)), **kw)
        from pyvc.npmodel import canon
        for f in range(nf):
            j = lambda q: T.add(T.scale(F(nf), q), K(f))
            colof = lambda q: T.app("u", canon(0), j(q))

            def lim_at(q):
                h = T.app("hr", colof(q), colof(T.sub(q, K(1))), colof(T.add(q, K(1))), s)
                return T.ite(T.eq(T.app("flag", q, sort="I"), 0), T.app("u", s, j(q)), h)
            inner = T.and_(T.le(1, e), T.le(e, N))
            src = T.ite(inner, e, T.ite(T.le(e, 0), N if bc == "periodic" else K(1), K(1) if bc == "periodic" else N))
            chk.prove_eq(L + "field %d: flagged interior cells are reconstructed from unlimited neighbours, all others kept, ghosts refreshed" % f,
                         u1.at(s, j(e)), lim_at(src), **kw)
    chk.run(I, go, L + "limit")


def off(chk):
    for system, nf, ic in SYSTEMS:
        I = chk.interp()
        N, p = sym_mesh(I)
        name = T.var("limiting", "S")
        I.assume(T.ne(name, T.const("adaptive_hr")))
        s, c = ranged(I, "s", 0, T.add(p, K(1))), ranged(I, "c", 0, T.scale(F(nf), T.add(N, K(2))))

        def go():
            sol = new_solution(I, system, ic, N, p)
            lim = I.call(cls(I, "limiting", "Limiter"), [name, sol], {})
            arbitrary(I, sol)
            I.call(I.getattr(lim, "limit"), [sol], {})
            chk.prove_eq(system + ": without limiting nothing changes, ghost cells included", I.np.asarr(I.getattr(sol, "u")).at(s, c),
                         T.app("u", s, c), hyps=list(I.pc), func="dg1d.limiting.Limiter.limit")
        chk.run(I, go, "limiting off " + system)
