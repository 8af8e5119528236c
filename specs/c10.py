from .timeloop import *


def spec(chk):
    chk.tasks([("classic", lambda: Schedule(chk, "rk4").check()), ("low storage", lambda: Schedule(chk, "low_storage_rk4").check()),
               ("third order", lambda: Schedule(chk, "rk3").check())])
    chk.assume_note("the final time is later than the start time and at least 2 outputs are requested; every proposed step is a positive number (C09: otherwise the run stops)")
    chk.assume_note("what is written to the files is C17's concern; here a snapshot is a call of Solution.printer")


class Schedule(Harness):
    ends = steps = prints = 0

    def check(self):
        L = self.scheme
        self.I.hooks["loop_inv"] = self.invariants
        self.chk.run(self.I, self.go, L, normal=False, defined=True)
        self.chk.require("%s: the time loop was reached" % L, self.heads > 0)
        self.chk.require("%s: a step was executed" % L, self.steps > 0)
        self.chk.require("%s: the run can end" % L, self.ends > 0)
        self.chk.require("%s: the first snapshot precedes the loop" % L, self.prints > 0)

    def sched(self, k):
        """time of snapshot k"""
        return T.add(self.t0, T.mul(T.toR(T.const(k)), self.h))

    def written(self):
        return T.const(self.ghost.d["written"])

    def kw(self, f="dg1d.rk.integrate"):
        return dict(hyps=list(self.I.pc) + self.order(), func=f, quants=list(self.I.lemmas))

    def order(self):
        """h > 0, so snapshot times are ordered like their numbers (instances between the counters at hand)"""
        ks = [self.written(), T.add(self.written(), K(1)), T.sub(self.NO, K(1)), K(0)]
        out = []
        for a in ks:
            for b in ks:
                if a is not b:
                    out.append(T.implies(T.le(T.add(a, K(1)), b), T.le(T.add(T.mul(T.toR(a), self.h), self.h), T.mul(T.toR(b), self.h))))
                    out.append(T.implies(T.eq(a, b), T.eq(T.mul(T.toR(a), self.h), T.mul(T.toR(b), self.h))))
        return [o for o in out if o is not T.TRUE]

    def printer(self, I, args, kw):
        nout = args[1] if len(args) > 1 else kw["nout"]
        c = self.written()
        self.prints += 1
        L = self.scheme + ": "
        hy = T.and_(*self.order())
        for nm, g in (("the snapshot written is the next one", T.eq(T.const(nout), c)),
                      ("no snapshot is written beyond the requested ones", T.lt(c, self.NO)),
                      ("the snapshot is written at its time", T.eq(T.const(I.getattr(args[0], "t")), self.sched(c)))):
            I.oblige(L + nm, T.implies(hy, g))
        hset(self.ghost, "written", T.add(c, K(1)))

    def invariants(self, I, W, init):
        """candidates; the ones that hold initially and are kept by every iteration are used"""
        out = []
        num = lambda v: isinstance(v, (int, T.Term)) and not isinstance(v, bool) and T.const(v).sort in "IR"
        gl = (self.ghost, "written")
        cnt = lambda v: T.const(v[gl]) if gl in v else self.written()
        tl = (self.sol, "t")
        tm = lambda v: T.const(v[tl]) if tl in v else T.const(self.sol.d["t"])
        last = T.sub(self.NO, K(1))
        guards = [lambda v: T.FALSE]
        for l in W:
            if isinstance(init[l], (bool, T.Term)) and T.const(init[l]).sort == "B":
                guards += [lambda v, l=l: T.const(v[l]), lambda v, l=l: T.not_(T.const(v[l]))]
        c0 = T.const(init.get(gl, self.ghost.d["written"]))
        for b in guards:
            def cand(nm, f, b=b):
                out.append((nm, lambda v: T.or_(b(v), f(v))))
            for l in W:
                x = init[l]
                if num(x) and T.const(x).sort == "R":
                    for c in (-1, 0, 1):
                        # a pending output time
                        cand("time", lambda v, l=l, c=c: T.eq(T.const(v[l]), self.sched(T.add(cnt(v), K(c)))))
                elif num(x) and l != gl:
                    d = T.sub(T.const(x), c0)
                    if d.op == "c":
                        cand("number", lambda v, l=l, d=d: T.eq(T.sub(T.const(v[l]), cnt(v)), d))
            cand("done", lambda v: T.eq(cnt(v), self.NO))
            cand("done", lambda v: T.eq(tm(v), self.tf))
            cand("done", lambda v: T.le(cnt(v), last))
            cand("done", lambda v: T.le(tm(v), self.sched(cnt(v))))
        out.append(("count", lambda v: T.le(cnt(v), self.NO)))
        out.append(("count", lambda v: T.le(K(1), cnt(v))))
        out.append(("time", lambda v: T.le(self.t0, tm(v))))
        out.append(("time", lambda v: T.le(tm(v), self.tf)))
        # facts about products count*h, usable while the candidates are tried
        self.cnt = cnt
        return out

    def outcome(self, o, pre):
        chk, I = self.chk, self.I
        u, t, n = pre
        u1, t1, n1 = self.state()
        f = "dg1d.rk.get_next_time_step"
        L = self.scheme + ": "
        if o.kind == "normal":
            self.steps += 1
            chk.prove_eq(L + "the step counter counts the step", n1, T.add(n, K(1)), **self.kw(f))
            chk.prove(L + "time never decreases", T.le(t, t1), **self.kw(f))
            chk.prove(L + "time does not pass the next pending output", T.le(t1, self.sched(self.before)), **self.kw(f))
        elif o.kind == "exit":
            pass
        elif o.kind == "raise":
            chk.prove(L + "the loop does not raise (%s)" % o.value, T.FALSE, **self.kw(f))

    def head(self, I, W, init, vals, cands):
        Harness.head(self, I, W, init, vals, cands)
        self.before = self.written()
        I.assume(T.and_(*self.order()))
        self.chk.require(self.scheme + ": loop invariants found", len(cands) > 0)

    def finish(self):
        chk = self.chk
        self.ends += 1
        L = self.scheme + ": "
        chk.prove_eq(L + "at the end every requested snapshot has been written", self.written(), self.NO, **self.kw())
        chk.prove_eq(L + "the run ends exactly at the final time", T.const(self.I.getattr(self.sol, "t")), self.tf, **self.kw())
