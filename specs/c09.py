from .timeloop import *
from . import flux as X


def spec(chk):
    chk.tasks([("wave speed, advection", lambda: speed(chk, "advection", 1, "sinewave")),
               ("wave speed, euler", lambda: speed(chk, "euler", 3, "entrpyw"))] +
              [("%s, %s" % (s, k), lambda s=s, k=k: Proposed(chk, s, k).check())
               for s in ("rk4", "low_storage_rk4") for k in ("finite", "nan", "inf")])
    chk.assume_note("numpy.max is the largest entry, or NaN if an entry is NaN (the run then stops)")
    chk.assume_note("Euler: admissible cell averages (positive density and pressure); other averages give a NaN speed")


def speed(chk, system, nf, ic):
    I = chk.interp()
    if nf == 3:
        I.lemmas.append(X.POS)
    N, p = sym_mesh(I)
    chk.cover(I.pc, "a mesh")

    def go():
        sol = new_solution(I, system, ic, N, p)
        I.simplify_on()
        cell = lambda q: X.State(T.app("qS", q), T.app("vS", q), T.app("aS", q))
        if nf == 3:
            X.set_gamma(I)
            u = I.getattr(sol, "u")

            def f(idx):
                m, j = idx
                k, st = T.imod(j, K(3)), cell(T.idiv(j, K(3)))
                avg = T.ite(T.eq(k, 0), st.u[0], T.ite(T.eq(k, 1), st.u[1], st.u[2]))
                return T.ite(T.eq(m, 0), avg, T.app("u", m, j))
            I.setattr(sol, "u", Arr(Buf(u.shape, f)))
        else:
            arbitrary(I, sol)
        got = T.const(I.call(I.getattr(sol, "max_wave_speed"), [], {}))
        kw = dict(hyps=list(I.pc), func="dg1d.%s_physics.max_wave_speed" % system, quants=list(I.lemmas))
        if nf == 1:
            chk.prove_eq(system + ": the signal speed is 1", got, K(1), **kw)
            return
        want = I.np.c_ext("amax")(T.add(N, K(2)), lambda q: T.add(T.abs_(cell(q).v), cell(q).a))
        chk.prove_eq(system + ": the largest |velocity| + sound speed over all cell averages, ghosts included", got, want, **kw)
    chk.run(I, go, "max_wave_speed " + system, quants=list(I.lemmas))


class Proposed(Harness):
    steps = stops = prints = 0

    def __init__(self, chk, scheme, kind):
        self.kind = kind
        Harness.__init__(self, chk, scheme)
        self.I.hooks["nan"] = True
        self.s = T.var("speed", "R")
        self.I.assume(T.lt(0, self.s))

    def wave(self, I, args, kw):
        return {"finite": self.s, "nan": NAN, "inf": INF}[self.kind]

    def printer(self, I, args, kw):
        hset(self.ghost, "written", T.add(T.const(self.ghost.d["written"]), K(1)))

    def build(self):
        r = Harness.build(self)
        self.entry = self.state()
        return r

    def check(self):
        L = "%s, %s speed" % (self.scheme, self.kind)
        chk, I = self.chk, self.I
        self.before = 1
        outs = chk.run(I, self.go, L, normal=False, defined=False)
        if self.kind == "finite":
            chk.require("%s: the time loop was reached" % L, self.heads > 0)
            chk.require("%s: a step was executed" % L, self.steps > 0)
        elif not self.heads:
            # the very first iteration cannot complete: there is no later one
            for o in outs:
                m, pc, nl = V.mark(), list(I.pc), len(I.lemmas)
                try:
                    I.apply(o)
                    self.outcome(o, self.entry)
                finally:
                    V.undo(m)
                    I.pc = pc
                    del I.lemmas[nl:]
        chk.require("%s: the run can stop" % L, self.stops > 0)

    def head(self, I, W, init, vals, cands):
        Harness.head(self, I, W, init, vals, cands)
        self.before = self.ghost.d["written"]

    def outcome(self, o, pre):
        chk, I = self.chk, self.I
        u, t, n = pre
        u1, t1, n1 = self.state()
        L = "%s, %s speed: " % (self.scheme, self.kind)
        kw = dict(hyps=list(I.pc), func="dg1d.rk.get_next_time_step", quants=list(I.lemmas))
        dx = I.getattr(self.sol, "dx")
        prop = T.div(T.mul(self.cfl, dx), T.mul(T.toR(T.add(T.scale(F(2), self.p), K(1))), self.s))
        small = T.lt(prop, T.const(F(1, 10 ** 14)))
        if self.kind != "finite":
            small = T.TRUE
        if o.kind == "exit":
            self.stops += 1
            v = o.value.msg
            chk.require(L + "it stops with an error message", isinstance(v, (str, StrVal)) and (not isinstance(v, str) or bool(v.strip()))
                        or isinstance(v, int) and not isinstance(v, bool) and v != 0, func="dg1d.rk.sanity_check_dt", detail=repr(v)[:200])
            chk.prove(L + "it stops only for a step below 1e-14 or not a number", small, **kw)
            i, j = INT("i"), INT("j")
            chk.prove_eq(L + "coefficients unchanged when it stops", u1.at(i, j), u.at(i, j), **kw)
            chk.prove_eq(L + "time unchanged when it stops", t1, t, **kw)
            chk.prove_eq(L + "step count unchanged when it stops", n1, n, **kw)
            chk.prove_eq(L + "nothing is written when it stops", self.ghost.d["written"], self.before, **kw)
        elif o.kind in ("normal", "ret"):
            self.steps += 1
            if self.kind != "finite":
                chk.prove(L + "no step is taken", T.FALSE, **kw)
                return
            dt = T.sub(t1, t)
            chk.prove(L + "no step is taken below 1e-14", T.not_(small), **kw)
            chk.prove(L + "the step taken is at most CFL * dx / ((2p+1) s)", T.le(dt, prop), **kw)
            # shortened only to hit an output (something is written at its end)
            wrote = T.lt(T.const(self.before), T.const(self.ghost.d["written"]))
            chk.prove(L + "the step is CFL * dx / ((2p+1) s) unless an output falls within it", T.or_(wrote, T.eq(dt, prop)), **kw)
        elif self.kind != "finite":
            chk.prove(L + "the loop does not raise (%s)" % o.value, T.FALSE, **kw)
