"""Admissible Euler face states and the physics written from the properties."""
from .common import *

GAMMA = T.var("gamma", "R")
ONE = T.const(1)
FLUXES = ("rusanov", "roe", "godunov")


def sq(x):
    return T.mul(x, x)


def add(*xs):
    r = T.const(xs[0])
    for x in xs[1:]:
        r = T.add(r, T.const(x))
    return r


def mul(*xs):
    r = T.const(xs[0])
    for x in xs[1:]:
        r = T.mul(r, T.const(x))
    return r


def sub(a, b):
    return T.sub(T.const(a), T.const(b))


def div(a, b):
    return T.div(T.const(a), T.const(b))


def sc(k, x):
    return T.scale(Fraction(k), T.const(x))


class State:
    """admissible state: density q^2 with q>0, any velocity, sound speed a>0 (all admissible states are of this form)"""
    def __init__(self, q, v, a, g=GAMMA):
        self.q, self.v, self.a, self.g = q, v, a, g
        self.rho = sq(q)
        self.p = div(mul(self.rho, a, a), g)
        self.m = mul(self.rho, v)
        self.E = add(div(self.p, sub(g, ONE)), sc("1/2", mul(self.rho, v, v)))
        self.H = div(add(self.E, self.p), self.rho)
        self.u = [self.rho, self.m, self.E]

    def flux(self):
        return [self.m, add(mul(self.rho, self.v, self.v), self.p), mul(add(self.E, self.p), self.v)]


def state_at(side, i, g=GAMMA):
    return State(T.app("q" + side, i), T.app("v" + side, i), T.app("a" + side, i), g)


def mirror(s):
    return State(s.q, sc(-1, s.v), s.a, s.g)


def positive(*names):
    def q(a):
        if a.val in names:
            return [T.lt(0, a)]
    return q


POS = positive("qL", "qR", "aL", "aR", "qS", "aS")


def state_array(M, st):
    """interleaved conserved variables of the states st(i), i < M"""
    def f(idx):
        j, = idx
        i, k = T.idiv(j, T.const(3)), T.imod(j, T.const(3))
        s = st(i)
        return T.ite(T.eq(k, 0), s.u[0], T.ite(T.eq(k, 1), s.u[1], s.u[2]))
    return Arr(Buf((T.scale(F(3), M),), f))


def euler(chk, extra=()):
    """interpreter with the physics modules loaded and gamma > 1 arbitrary; face count M >= 1, face 0 <= i < M"""
    I = chk.interp()
    I.lemmas.append(POS)
    for q in extra:
        I.lemmas.append(q)
    set_gamma(I)
    M = INT("M")
    I.assume(T.le(1, M))
    i = ranged(I, "i", 0, M)
    I.simplify_on()
    return I, M, i


def massflux_contract(I, args, kw):
    """massflux(r, c, pQ, pm): precondition r, c, pQ > 0; a function of the arguments (and gamma), positive for pm >= 0,
    NaN for pm < 0 (a negative number to a fractional power). Proved of the real function in C25."""
    r, c, pq, pm = [a if a is NAN else T.const(a) for a in args]
    for x, n in ((r, "density"), (c, "sound speed"), (pq, "pressure")):
        I.require(T.lt(0, x), "massflux precondition: positive " + n)
    if pm is NAN:
        return NAN
    if not I.decide(T.le(0, pm)):
        return NAN
    m = T.app("massflux", r, c, pq, pm)
    I.assume(T.lt(0, m))
    return m


def sonic_contract(I, args, kw):
    """sonic(u1, c1, P1, u2, c2, a1, a2): precondition c1, P1 > 0, c2 >= 0 and a1, a2 of opposite sign; a function of the
    arguments (and gamma) with positive density. Proved of the real function in C25."""
    if any(a is NAN for a in args):
        return (NAN, NAN, NAN)
    a = [T.const(x) for x in args]
    u1, c1, P1, u2, c2, a1, a2 = a
    for x, n in ((c1, "sound speed"), (P1, "pressure")):
        I.require(T.lt(0, x), "sonic precondition: positive " + n)
    I.require(T.le(0, c2), "sonic precondition: sound speed behind the wave is not negative")
    I.require(T.or_(T.and_(T.lt(a1, 0), T.lt(0, a2)), T.and_(T.lt(0, a1), T.lt(a2, 0))), "sonic precondition: the wave fan spans the face")
    r = tuple(T.app("sonic%d" % k, *a) for k in range(3))
    I.assume(T.lt(0, r[0]))
    return r


def massflux_fact(a):
    if a.val == "sonic0":
        return [T.lt(0, a)]
    return [T.implies(T.le(0, a.args[3]), T.lt(0, a))] if a.val == "massflux" else ()


def use_massflux(I):
    I.hooks["nan"] = True
    I.lemmas.append(massflux_fact)
    I.contracts["dg1d.euler_physics.massflux"] = massflux_contract
    I.contracts["dg1d.euler_physics.sonic"] = sonic_contract


def set_gamma(I, g=GAMMA):
    c = I.module("dg1d.constants")
    I.setattr(c, "gamma", g)
    if g.op == "v":
        I.assume(T.lt(1, g))


def call_flux(I, name, M, left, right):
    mod = "advection_physics" if name == "upwinding" else "euler_physics"
    return I.np.asarr(I.call(fn(I, mod, "riemann_" + name), [state_array(M, left), state_array(M, right)], {}))


def L_(i):
    return state_at("L", i)


def R_(i):
    return state_at("R", i)


def roe_average(l, r, g=GAMMA):
    """velocity, total enthalpy and sound speed of the Roe average, from its definition"""
    w = add(l.q, r.q)
    v = div(add(mul(l.q, l.v), mul(r.q, r.v)), w)
    H = div(add(mul(l.q, l.H), mul(r.q, r.H)), w)
    a = T.sqrt(mul(sub(g, ONE), sub(H, sc("1/2", sq(v)))))
    return v, H, a


def spread(l, r, s):
    """how much the wave s (-1 or +1) spreads from the left to the right state"""
    return sub(add(r.v, sc(s, r.a)), add(l.v, sc(s, l.a)))
