from .timeloop import *
from .limiter import minmod_contract, column, entries, limiter
from .c12 import SCHEMES


def spec(chk):
    top = 12 if chk.thorough else 8
    chk.tasks([("steps " + s, lambda s=s: Step(chk, s).check()) for s in SCHEMES[::-1] + ("low_storage_rk4",)] +
              [("steps euler " + s, lambda s=s: Step(chk, s, "euler", 3, "entrpyw").check()) for s in ("rk4", "low_storage_rk4")] +
              [("rate %s/%s" % (s[0], bc), lambda s=s, bc=bc: rate(chk, *s, bc)) for s in SYSTEMS for bc in ("periodic", "zerograd")] +
              [("periodic ends " + s[0], lambda s=s: ends(chk, *s)) for s in SYSTEMS] +
              [("enhanced periodic ends %s %s" % (s[0], en), lambda s=s, en=en, p=p: ends(chk, *s, en, p)) for s in SYSTEMS
               for p, en in ((1, "icb 0"), (2, "icb 0 1"), (3, "icb 0 2"))] +
              [("limiter " + s[0], lambda s=s: limited(chk, *s)) for s in SYSTEMS] +
              [("cell average, order %d" % p, lambda p=p: average(chk, p)) for p in range(top + 1)] +
              [("telescoping", lambda: telescope(chk))])
    chk.assume_note("sum over cells of q(i-1) - q(i) telescopes to q(0) - q(N) (induction on the number of cells, both steps discharged)")
    chk.assume_note("fluxes enter by contract: any function of the two states at a face")
    chk.bound("reconstruction of one cell: orders 0..%d; enhanced periodic ends: modes {0}, {0,1}, {0,2} at orders 1..3; everything else any order and mesh" % top)


def faces_contract(I, args, kw):
    """evaluate_faces: arbitrary traces (with or without enhancement)"""
    a = I.np.asarr(I.getattr(args[0], "u"))
    return Arr(Buf((K(2), a.shape[1]), lambda idx: T.app("trace", *idx)))


def flux_at(nf, f, i):
    """the numerical flux of face i, between cells i and i+1"""
    c = lambda cell, q: T.add(T.scale(F(nf), cell), K(q))
    return T.app("flux", K(f), *[T.app("trace", K(1), c(i, q)) for q in range(nf)],
                 *[T.app("trace", K(0), c(T.add(i, K(1)), q)) for q in range(nf)])


def rate(chk, system, nf, ic, bc):
    I = chk.interp()
    N, p = sym_mesh(I)
    use_flux_contracts(I, nf)
    I.contracts["dg1d.solution.Solution.evaluate_faces"] = faces_contract
    e = ranged(I, "e", 1, T.add(N, K(1)))
    L = "%s/%s: " % (system, bc)
    chk.cover(I.pc, "mesh, order and cell")

    def go():
        sol = new_solution(I, system, ic, N, p)
        dgs = I.call(cls(I, "dg", "DG"), [sol], {})
        arbitrary(I, sol)
        I.setattr(sol, "bc_l", bc)
        I.setattr(sol, "bc_r", bc)
        Fv = I.np.asarr(I.call(I.getattr(dgs, "residual"), [sol], {}))
        dx = I.getattr(sol, "dx")
        for f in range(nf):
            got = T.mul(dx, Fv.at(K(0), T.add(T.scale(F(nf), e), K(f))))
            want = T.sub(flux_at(nf, f, T.sub(e, K(1))), flux_at(nf, f, e))
            chk.prove_eq(L + "field %d: a cell's integral changes by what enters at its left face minus what leaves at its right face, "
                         "one flux per face shared by both neighbours" % f, got, want, hyps=list(I.pc), func="dg1d.dg.DG.residual",
                         rewrites=[lambda t: K(0) if t.val == "dP" and t.args[0] is K(0) else None])
    chk.run(I, go, L + "residual")


def ends(chk, system, nf, ic, en="", order=None):
    """periodic: the first and the last face have the same states on both sides, hence the same flux"""
    I = chk.interp()
    N, p = sym_mesh(I)
    if order is not None:
        p = K(order)
    L = "%s %s periodic: " % (system, en)

    def go():
        sol = new_solution(I, system, ic, N, p if order is None else order, enhance=en)
        arbitrary(I, sol)
        I.setattr(sol, "bc_l", "periodic")
        I.setattr(sol, "bc_r", "periodic")
        I.call(I.getattr(sol, "apply_bc"), [], {})
        uf = I.np.asarr(I.call(I.getattr(sol, "evaluate_faces"), [], {}))
        for q in range(nf):
            col = lambda c: T.add(T.scale(F(nf), c), K(q))
            chk.prove_eq(L + "left trace of the first face equals left trace of the last face, field %d" % q, uf.at(K(1), col(K(0))), uf.at(K(1), col(N)),
                         hyps=list(I.pc), func="dg1d.solution.Solution.evaluate_faces")
            chk.prove_eq(L + "right trace of the first face equals right trace of the last face, field %d" % q, uf.at(K(0), col(K(1))), uf.at(K(0), col(T.add(N, K(1)))),
                         hyps=list(I.pc), func="dg1d.solution.Solution.evaluate_faces")
    chk.run(I, go, L + "traces")


def telescope(chk):
    I = chk.interp()
    n, e = INT("n"), T.var("e#", "I")
    q = lambda i: T.app("q", i)

    def S(n):
        return T.sum_(e, K(1), T.add(n, K(1)), T.sub(q(T.sub(e, K(1))), q(e)))
    I.assume(T.le(0, n))
    chk.prove_eq("telescoping: no cells", S(K(0)), K(0))
    chk.prove("telescoping: one more cell", T.implies(T.eq(T.sub(q(K(0)), q(n)), R("S")),
              T.eq(T.add(R("S"), T.sub(q(n), q(T.add(n, K(1))))), T.sub(q(K(0)), q(T.add(n, K(1)))))), list(I.pc))


def limited(chk, system, nf, ic):
    I = chk.interp()
    N, p = sym_mesh(I)
    k = [0]

    def hr(I, args, kw):
        """one cell's reconstruction: any coefficients with the same average (discharged per order below)"""
        cols = list(args[1:]) + [kw[x] for x in ("uc", "ul", "ur") if x in kw]
        a = I.np.asarr(cols[0])
        r = a.reader()
        t = tok(I, a)
        return Arr(Buf(a.shape, lambda idx: T.ite(T.eq(idx[0], 0), r((K(0),)), T.app("hr", t, idx[0]))))
    I.contracts["dg1d.limiting.Limiter.hr"] = hr

    def sensing(I, args, kw):
        a = I.np.asarr(I.getattr(args[0], "sensors"))
        I.setattr(args[0], "sensors", Arr(Buf(a.shape, lambda ix: T.app("flag", *ix, sort="I"), "i")))
    I.contracts["dg1d.sensor.Sensor.sensing"] = sensing
    c = ranged(I, "c", nf, T.scale(F(nf), T.add(N, K(1))))

    def go():
        sol = new_solution(I, system, ic, N, p, thresholds=[R("th0"), R("th1")])
        lim = I.call(cls(I, "limiting", "Limiter"), ["adaptive_hr", sol], {})
        I.simplify_on()
        arbitrary(I, sol)
        I.call(I.getattr(lim, "limit"), [sol], {})
        chk.prove_eq(system + ": limiting keeps the average of every interior cell", I.np.asarr(I.getattr(sol, "u")).at(K(0), c), T.app("u", K(0), c),
                     hyps=list(I.pc), func="dg1d.limiting.Limiter.adaptive_hr")
    chk.run(I, go, "limit " + system)


def average(chk, p):
    I = chk.interp()

    def go():
        lim = limiter(I, p)
        (uc, c), (ul, l), (ur, r) = column(I, "c", p), column(I, "l", p), column(I, "r", p)
        h = entries(I, I.call(I.getattr(lim, "hr"), [uc, ul, ur], {}), p)
        chk.prove_eq("order %d: reconstruction keeps the cell average" % p, h[0], c[0], hyps=list(I.pc), func="dg1d.limiting.Limiter.hr")
    chk.run(I, go, "limiter order %d" % p)


class Step(Harness):
    """the operators as any operators with the conservation contracts above"""
    steps = calls = 0

    def cellof(self, j):
        nf = self.sys[1]
        return (T.idiv(j, K(nf)), T.imod(j, K(nf))) if nf > 1 else (j, K(0))

    def interior(self, j):
        nf = self.sys[1]
        return T.and_(T.le(K(nf), j), T.lt(j, T.scale(F(nf), T.add(self.N, K(1)))))

    def residual(self, I, args, kw):
        sol = args[1] if len(args) > 1 else kw["solution"]
        a = I.np.asarr(I.getattr(sol, "u"))
        self.calls += 1
        n = self.calls
        G = "G#%d" % n

        def f(idx):
            s, j = idx
            e, k = self.cellof(j)
            return T.ite(T.and_(T.eq(s, 0), self.interior(j)), T.sub(T.app(G, k, T.sub(e, K(1))), T.app(G, k, e)), T.app("RES#%d" % n, s, j))
        self.bc(I, [sol], {})
        return Arr(Buf(a.shape, f))

    def limit(self, I, args, kw):
        sol = args[1] if len(args) > 1 else kw["solution"]
        a = I.np.asarr(I.getattr(sol, "u"))
        r = a.reader()
        self.calls += 1
        n = "LIM#%d" % self.calls
        I.setattr(sol, "u", Arr(Buf(a.shape, lambda idx: T.ite(T.and_(T.eq(idx[0], 0), self.interior(idx[1])), r(idx), T.app(n, *idx)))))

    def bc(self, I, args, kw):
        a = I.np.asarr(I.getattr(args[0], "u"))
        r = a.reader()
        self.calls += 1
        n = "BC#%d" % self.calls
        I.setattr(args[0], "u", Arr(Buf(a.shape, lambda idx: T.ite(self.interior(idx[1]), r(idx), T.app(n, *idx)))))

    def check(self):
        self.chk.run(self.I, self.go, self.scheme, normal=False, defined=False)
        self.chk.require("%s: the time loop was reached" % self.scheme, self.heads > 0)
        self.chk.require("%s: a step was executed" % self.scheme, self.steps > 0)

    def outcome(self, o, pre):
        if o.kind != "normal":
            return
        self.steps += 1
        chk, I = self.chk, self.I
        u, t, n = pre
        u1, t1, n1 = self.state()
        nf = self.sys[1]
        e = T.var("e", "I")
        rng = [T.le(K(1), e), T.le(e, self.N)]
        hyps = list(I.pc) + rng
        L = "%s %s: " % (self.sys[0], self.scheme)
        for k in range(nf):
            j = T.add(T.scale(F(nf), e), K(k))
            from pyvc.prove import Prover
            d = T.sub(u1.at(K(0), j), u.at(K(0), j))
            d = prune(I, d, rng)
            # what leaves at the right face: the part of the change that mentions fluxes of face e
            zero = {a: K(0) for a in T.all_apps(d) if a.val.startswith("G#") and a.args[1] is T.sub(e, K(1))}
            H = T.scale(F(-1), T.subst(d, zero))
            H0 = T.subst(H, {e: T.sub(e, K(1))})
            chk.prove_eq(L + "field %d: the step changes a cell average by a difference of one face function" % k, d, T.sub(H0, H), hyps=hyps, func="dg1d.rk.integrate")
            per = {a: T.app(a.val, a.args[0], self.N) for a in T.all_apps(H) if a.val.startswith("G#")}
            at0 = T.subst(H, {e: K(0)})
            per = {a: T.app(a.val, a.args[0], self.N) for a in T.all_apps(at0) if a.val.startswith("G#")}
            chk.prove_eq(L + "field %d: with periodic ends (equal fluxes at both ends) the face function has equal ends" % k,
                         T.subst(at0, per), T.subst(H, {e: self.N}), hyps=hyps, func="dg1d.rk.integrate")
            bad = [a for a in T.all_apps(H) if a.val.split("#")[0] in ("RES", "LIM", "BC", "u")]
            chk.require(L + "field %d: the face function depends on the face fluxes only" % k, not bad, func="dg1d.rk.integrate", detail=str([T.show(b) for b in bad[:3]]))
