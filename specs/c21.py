from .common import *


def spec(chk):
    for ic, run in (("entrpyw", entropy), ("acsticw", acoustic), ("simplew", simple), ("shuoshe", shu), ("scktube", tube), ("sinewave", scalar), ("ictest", scalar)):
        chk.tasks([(ic, lambda ic=ic, run=run: run(chk, ic))])
    chk.assume_note("facts about elementary functions: |sin| <= 1, |cos| <= 1, |tanh| < 1; pi is an unspecified positive number")


def elementary(a):
    """range facts"""
    if a.val in ("sin", "cos"):
        return [T.le(-1, a), T.le(a, 1)]
    if a.val == "tanh":
        return [T.lt(-1, a), T.lt(a, 1)]
    return []


def captured(I, ic, N, p, system, extra=""):
    """build the solution with the real constructor, keeping the function given to the common set-up"""
    calls = []
    I.contracts["dg1d.solution.Solution.setup_common_ic"] = lambda I_, a, kw: calls.append((a, kw))
    sol = new_solution(I, system, ic, N, p, extra=extra)
    if len(calls) != 1:
        raise ValueError("initial condition not set up")
    a, kw = calls[0]
    return sol, (a[1] if len(a) > 1 else kw["f"])


def items(r):
    return [T.toR(T.const(x)) for x in (r.items if isinstance(r, PyList) else r)]


def gamma(I):
    return T.const(I.getattr(I.module("dg1d.constants"), "gamma"))


def prim(I, v):
    g = gamma(I)
    u = T.div(v[1], v[0])
    p = T.mul(T.sub(g, K(1)), T.sub(v[2], T.scale(F(1, 2), T.mul(v[1], u))))
    return v[0], u, p


def energy(I, rho, u, p):
    return [rho, T.mul(rho, u), T.add(T.div(p, T.sub(gamma(I), K(1))), T.scale(F(1, 2), T.mul(rho, T.mul(u, u))))]


class Case:
    def __init__(self, chk, ic, extra="", lo=None, hi=None):
        self.chk, self.ic, self.I, self.extra = chk, ic, chk.interp(), extra
        self.N, self.p = sym_mesh(self.I)
        self.x = R("x")
        if lo is not None:
            self.I.assume(T.le(lo, self.x))
            self.I.assume(T.le(self.x, hi))
        chk.cover(self.I.pc, "a mesh, an order and a point")

    def go(self, body):
        def thunk():
            sol, f = captured(self.I, self.ic, self.N, self.p, "euler" if self.ic not in ("sinewave", "ictest") else "advection", self.extra)
            body(f)
        self.chk.run(self.I, thunk, self.ic, quants=[elementary])

    def eq(self, name, a, b):
        self.chk.prove_eq(self.ic + ": " + name, a, b, hyps=list(self.I.pc), func="dg1d.solution.Solution." + self.ic, quants=[elementary])

    def fact(self, name, g):
        self.chk.prove(self.ic + ": " + name, g, hyps=list(self.I.pc), func="dg1d.solution.Solution." + self.ic, quants=[elementary])

    def physical(self, v):
        rho, u, p = prim(self.I, v)
        self.fact("density is positive", T.lt(0, v[0]))
        self.fact("pressure is positive", T.lt(0, p))

    def state(self, v, rho, u, p):
        for nm, a, b in zip(("density", "momentum", "energy is pressure/(gamma-1) plus kinetic energy"), v, energy(self.I, rho, u, p)):
            self.eq(nm, a, b)


PI = lambda I: T.const(I.np.module("numpy").attrs["pi"])


def entropy(chk, ic):
    c = Case(chk, ic)
    I = c.I

    def body(f):
        v = items(I.call(f, [c.x], {}))
        c.physical(v)
        s = T.app("sin", T.mul(PI(I), c.x))
        c.state(v, T.add(K(1), T.scale(F(1, 5), s)), K(1), K(1))
        w = items(I.call(f, [R("y")], {}))
        a, b = prim(I, v), prim(I, w)
        c.eq("velocity is constant", a[1], b[1])
        c.eq("pressure is constant", a[2], b[2])
        c.eq("ratio of specific heats", gamma(I), K(F(7, 5)))
    c.go(body)


def acoustic(chk, ic):
    c = Case(chk, ic)
    I = c.I

    def body(f):
        v = items(I.call(f, [c.x], {}))
        c.physical(v)
        h = T.scale(F(1, 10000), T.power(T.app("cos", T.mul(T.scale(F(1, 2), PI(I)), c.x)), K(8)))
        g = gamma(I)
        c.eq("ratio of specific heats", g, K(F(7, 5)))
        c.eq("at rest", v[1], K(0))
        rho, u, p = prim(I, v)
        c.eq("density and pressure perturbations are equal", T.sub(rho, K(1)), T.sub(p, T.div(K(1), g)))
        c.state(v, T.add(K(1), h), K(0), T.add(T.div(K(1), g), h))
    c.go(body)


def simple(chk, ic):
    c = Case(chk, ic)
    I, x = c.I, c.x

    def body(f):
        v = items(I.call(f, [x], {}))
        g = gamma(I)
        c.eq("ratio of specific heats", g, K(3))
        c.physical(v)
        rho, u, p = prim(I, v)
        c.eq("entropy is constant", p, T.mul(K(F(1, 27)), T.power(rho, K(3))))
        # the sound speed is the positive root of gamma p / rho; with constant entropy it is rho / 3 * gamma^... : a^2 = gamma p / rho
        a = R("a")
        root = T.and_(T.lt(0, a), T.eq(T.mul(a, a), T.div(T.mul(g, p), rho)))
        two = T.div(K(2), T.sub(g, K(1)))
        c.fact("left half: velocity minus 2a/(gamma-1) is constant", T.implies(T.and_(root, T.le(x, 0)), T.eq(T.sub(u, T.mul(two, a)), T.scale(F(-1), two))))
        c.fact("right half: velocity plus 2a/(gamma-1) is constant", T.implies(T.and_(root, T.le(0, x)), T.eq(T.add(u, T.mul(two, a)), two)))
        c.fact("gas on the left moves left or rests, on the right moves right or rests",
               T.and_(T.implies(T.le(x, 0), T.le(u, 0)), T.implies(T.le(0, x), T.le(0, u))))
        prof = lambda s: T.scale(F(s, 3), T.add(K(1), T.app("tanh", T.scale(F(1), T.div(T.sub(T.scale(F(s), x), K(1)), T.sub(K(F(1, 4)), T.power(T.sub(T.scale(F(s), x), K(1)), K(2))))))))
        c.fact("far left velocity", T.implies(T.le(x, F(-3, 2)), T.eq(u, K(F(-2, 3)))))
        c.fact("far right velocity", T.implies(T.le(F(3, 2), x), T.eq(u, K(F(2, 3)))))
        c.fact("middle is at rest", T.implies(T.and_(T.le(F(-1, 2), x), T.le(x, F(1, 2))), T.eq(u, K(0))))
        c.fact("right wave profile", T.implies(T.and_(T.lt(F(1, 2), x), T.lt(x, F(3, 2))), T.eq(u, prof(1))))
    c.go(body)


def shu(chk, ic):
    c = Case(chk, ic)
    I, x = c.I, c.x

    def body(f):
        v = items(I.call(f, [x], {}))
        c.eq("ratio of specific heats", gamma(I), K(F(7, 5)))
        c.physical(v)
        if I.implied(T.lt(x, 1)):
            c.state(v, K(F("3.857143")), K(F("2.629369")), K(F("10.333333")))
        else:
            c.state(v, T.add(K(1), T.scale(F(1, 5), T.app("sin", T.scale(F(5), T.sub(x, K(5)))))), K(0), K(1))
    for side in (T.lt(x, 1), T.le(1, x)):
        I.pc = [h for h in I.pc if x not in T.vars_of(h)]
        I.assume(side)
        c.go(body)


def tube(chk, ic):
    I0 = chk.interp()
    names = ("xd", "rl", "ul", "pl", "rr", "ur", "pr")
    vals = {k: R(k) for k in names}
    parts = []
    for k in names:
        parts += [" ", I0.fmt(vals[k], ".18e")]
    for left in (True, False):
        c = Case(chk, ic, extra=I0.mkstr(parts))
        I, x = c.I, c.x
        for k in ("rl", "pl", "rr", "pr"):
            I.assume(T.lt(0, vals[k]))
        I.assume(T.lt(x, vals["xd"]) if left else T.le(vals["xd"], x))

        def body(f):
            v = items(I.call(f, [x], {}))
            c.eq("ratio of specific heats", gamma(I), K(F(7, 5)))
            c.physical(v)
            c.state(v, *[vals[k] for k in (("rl", "ul", "pl") if left else ("rr", "ur", "pr"))])
        c.go(body)


def scalar(chk, ic):
    c = Case(chk, ic)
    I = c.I

    def body(f):
        v = items(I.call(f, [c.x], {}))
        if ic == "sinewave":
            want = T.app("sin", T.mul(T.scale(F(2), PI(I)), c.x))
        else:
            want = T.add(K(1), T.power(T.app("sin", T.sub(c.x, T.scale(F(1, 3), PI(I)))), K(3)))
        c.eq("value", v[0], want)
    c.go(body)
