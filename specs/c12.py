from .timeloop import *

SCHEMES = ("rk3", "rk4", "rk5", "rk6", "rk8", "rk10", "rk12", "rk14")


def spec(chk):
    chk.tasks([(s, lambda s=s: Step(chk, s).check()) for s in SCHEMES + ("low_storage_rk4", "another name")])
    chk.assume_note("the spatial operator, the limiter and the ghost fill are arbitrary functions of the coefficients (their own contracts: C02, C14, C04)")
    chk.assume_note("Runge-Kutta weights of magnitude at most 1e-15 count as zero")


def table(I, scheme):
    if scheme == "low_storage_rk4":
        beta = [[], [F(1, 2)], [0, F(1, 2)], [0, 0, 1]]
        return [F(1, 6), F(1, 3), F(1, 3), F(1, 6)], beta
    name = scheme if scheme in SCHEMES else "rk4"
    c, a, b = I.call(fn(I, "rk_coeffs", "get_%s_coefficients" % name), [], {})
    c = [T.const(x) for x in I.tolist(c)]
    b = I.np.asarr(b)
    s = len(c)
    return c, [[b.at(K(k), K(j)) for j in range(k)] for k in range(s)]


def small(x):
    x = T.const(x)
    return x.op == "c" and abs(x.val) <= F(1, 10 ** 15)


class Step(Harness):
    def check(self):
        L = self.scheme
        outs = self.chk.run(self.I, self.go, L, normal=False, defined=False)
        self.chk.require("%s: the time loop was reached" % L, self.heads > 0)
        self.chk.require("%s: a step was executed" % L, getattr(self, "steps", 0) > 0)

    def outcome(self, o, pre):
        if o.kind not in ("normal",):
            return
        self.steps = getattr(self, "steps", 0) + 1
        chk, I = self.chk, self.I
        u, t, n = pre
        u1, t1, n1 = self.state()
        L = self.scheme + ": "
        kw = dict(hyps=list(I.pc), func="dg1d.rk." + ("low_storage_rk4" if self.scheme == "low_storage_rk4" else "classic_rk"))
        dt = T.sub(t1, t)
        chk.prove_eq(L + "the step counter advances by one", n1, T.add(n, K(1)), **kw)
        c, beta = table(I, self.scheme)
        ks = []
        for k in range(len(c)):
            U = comb(u, [(beta[k][j], ks[j]) for j in range(k) if not small(beta[k][j])])
            if k > 0:
                U = operator(I, "LIM", U)
            r = operator(I, "RES", U).reader()
            ks.append(Arr(Buf(u.shape, lambda idx, r=r: T.mul(dt, r(idx)))))
        full = comb(u, [(c[k], ks[k]) for k in range(len(c)) if not small(c[k])])
        want = operator(I, "LIM", operator(I, "BC", full))
        i, j = INT("i"), INT("j")
        chk.prove_eq(L + "shape", u1.shape[1], u.shape[1], **kw)
        chk.prove_eq(L + "the new coefficients are the Runge-Kutta update of the old ones, ghosts filled, limited",
                     u1.at(i, j), want.at(i, j), **kw)
