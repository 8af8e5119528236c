"""One arbitrary iteration of the time integration loop, with the spatial operator, limiter and boundary fill as
arbitrary (extensional) operators."""
from .common import *
from pyvc.npmodel import canon


def tok(I, a):
    """an array as a function: its value at canonical indices"""
    r = I.np.asarr(a).reader()
    return r(tuple(canon(k) for k in range(len(I.np.asarr(a).shape))))


def operator(I, name, a):
    a = I.np.asarr(a)
    t = tok(I, a)
    return Arr(Buf(a.shape, lambda idx: T.app(name, t, *idx)))


def comb(base, terms):
    """base + sum c_k a_k"""
    rb = base.reader()
    rs = [(T.const(c), a.reader()) for c, a in terms]

    def f(idx):
        r = rb(idx)
        for c, x in rs:
            r = T.add(r, T.mul(T.toR(c), x(idx)))
        return r
    return Arr(Buf(base.shape, f))


class Harness:
    def __init__(self, chk, scheme, system="advection", nf=1, ic="sinewave", wave=None):
        self.chk = chk
        self.I = I = chk.interp()
        self.scheme = scheme
        self.N, self.p = sym_mesh(I)
        self.NO = INT("nout")
        I.assume(T.le(2, self.NO))
        self.t0, self.h, self.cfl = R("t0"), R("h"), R("cfl")
        I.assume(T.lt(0, self.h))
        I.assume(T.lt(0, self.cfl))
        # any final time after t0: t0 + (nout-1)*h, h > 0
        self.tf = T.add(self.t0, T.mul(T.toR(T.sub(self.NO, K(1))), self.h))
        self.n0 = INT("n0")
        I.assume(T.le(0, self.n0))
        self.ghost = Cell()
        hset(self.ghost, "written", 0)
        self.printed = []
        I.contracts["dg1d.dg.DG.residual"] = self.residual
        I.contracts["dg1d.limiting.Limiter.limit"] = self.limit
        I.contracts["dg1d.solution.Solution.apply_bc"] = self.bc
        I.contracts["dg1d.solution.Solution.printer"] = self.printer
        I.contracts["dg1d.solution.Solution.max_wave_speed"] = wave or self.wave
        I.hooks["cut_while"] = lambda s, fr: fr.module is not None and fr.module.name == "dg1d.rk"
        I.hooks["loop_head"] = self.head
        I.hooks["loop_iteration"] = self.iteration
        self.heads = 0
        self.sys = (system, nf, ic)

    # contracts of the operators -----------------------------------------------------------------
    def residual(self, I, args, kw):
        sol = args[1] if len(args) > 1 else kw["solution"]
        a = I.np.asarr(I.getattr(sol, "u"))
        r = operator(I, "RES", a)
        I.setattr(sol, "u", operator(I, "BC", a))
        return r

    def limit(self, I, args, kw):
        sol = args[1] if len(args) > 1 else kw["solution"]
        I.setattr(sol, "u", operator(I, "LIM", I.getattr(sol, "u")))

    def bc(self, I, args, kw):
        I.setattr(args[0], "u", operator(I, "BC", I.getattr(args[0], "u")))

    def wave(self, I, args, kw):
        s = T.fresh("s", "R")
        I.assume(T.lt(0, s))
        return s

    def printer(self, I, args, kw):
        pass

    # -------------------------------------------------------------------------------------------
    def build(self):
        I = self.I
        system, nf, ic = self.sys
        self.sol = sol = new_solution(I, system, ic, self.N, self.p)
        self.deck = d = I.call(cls(I, "deck", "Deck"), [], {})
        for k, v in (("rk", self.scheme), ("finaltime", self.tf), ("cfl", self.cfl), ("nout", self.NO)):
            I.setattr(d, k, v)
        dgs = I.call(cls(I, "dg", "DG"), [sol], {})
        lim = I.call(cls(I, "limiting", "Limiter"), ["", sol], {})
        arbitrary(I, sol)
        I.setattr(sol, "t", self.t0)
        I.setattr(sol, "n", self.n0)
        return sol, d, dgs, lim

    def go(self):
        I = self.I
        I.simplify_on()
        sol, d, dgs, lim = self.build()
        I.call(fn(I, "rk", "integrate"), [sol, d, dgs, lim], {})
        self.finish()

    def state(self):
        I = self.I
        a = I.np.asarr(I.getattr(self.sol, "u"))
        return Arr(Buf(a.shape, a.reader())), T.const(I.getattr(self.sol, "t")), T.const(I.getattr(self.sol, "n"))

    def head(self, I, W, init, vals, cands):
        self.heads += 1
        self.pre = self.state()
        self.cands = cands

    def iteration(self, I, W, vals, outs):
        for o in outs:
            m = V.mark()
            pc, nl = list(I.pc), len(I.lemmas)
            try:
                I.apply(o)
                self.outcome(o, self.pre)
            finally:
                V.undo(m)
                I.pc = pc
                del I.lemmas[nl:]

    def outcome(self, o, pre):
        pass

    def finish(self):
        pass
