"""Shared builders: solutions made by the real constructor with symbolic mesh size and order, arbitrary coefficients."""
from fractions import Fraction
from pyvc import terms as T
from pyvc import values as V
from pyvc.values import *

F = Fraction
R = lambda n: T.var(n, "R")
INT = lambda n: T.var(n, "I")
half = F(1, 2)
SYSTEMS = (("advection", 1, "sinewave"), ("euler", 3, "entrpyw"))


def K(x):
    return T.const(x)


def at(a, *idx):
    return a.at(*[T.const(i) for i in idx])


def cls(I, mod, name):
    return I.getattr(I.module("dg1d." + mod), name)


def fn(I, mod, name):
    return I.getattr(I.module("dg1d." + mod), name)


def new_solution(I, system, ic, N, p, riemann="roe", enhance="", thresholds=None, extra=""):
    """the real constructor, with the number of cells written into the problem line"""
    line = I.mkstr([ic + " ", I.fmt(N, "d") if isinstance(N, T.Term) else str(N), extra])
    th = PyList(thresholds or [])
    return I.call(cls(I, "solution", "Solution"), [line, system, p, riemann, enhance, th], {})


def arbitrary(I, sol, name="u", sort="R"):
    """replace the coefficients by an arbitrary array (one uninterpreted value per entry)"""
    u = I.getattr(sol, "u")
    a = Arr(Buf(u.shape, lambda idx: T.app(name, *idx, sort=sort)))
    I.setattr(sol, "u", a)
    return a


def sym_mesh(I, nmin=1, pmin=0):
    N, p = INT("N"), INT("p")
    I.assume(T.le(nmin, N))
    I.assume(T.le(pmin, p))
    return N, p


def ranged(I, name, lo, hi):
    """fresh integer lo <= k < hi"""
    k = INT(name)
    I.assume(T.le(T.const(lo), k))
    I.assume(T.lt(k, T.const(hi)))
    return k


def face_flux_contract(nf, name="flux"):
    """contract of a numerical flux: face i, field f depends on the two states at face i only"""
    def c(I, args, kw):
        a, b = args
        ra, rb = I.np.asarr(a).reader(), I.np.asarr(b).reader()

        def f(idx):
            j, = idx
            if nf == 1:
                return T.app(name, T.const(0), ra((j,)), rb((j,)))
            i, k = T.idiv(j, T.const(nf)), T.imod(j, T.const(nf))
            base = T.scale(F(nf), i)
            return T.app(name, k, *[ra((T.add(base, T.const(q)),)) for q in range(nf)],
                         *[rb((T.add(base, T.const(q)),)) for q in range(nf)])
        return Arr(Buf(I.np.asarr(a).shape, f))
    return c


def volume_flux_contract(nf, name="iflux"):
    def c(I, args, kw):
        a = I.np.asarr(args[0])
        ra = a.reader()

        def f(idx):
            g, j = idx
            if nf == 1:
                return T.app(name, T.const(0), ra((g, j)))
            i, k = T.idiv(j, T.const(nf)), T.imod(j, T.const(nf))
            base = T.scale(F(nf), i)
            return T.app(name, k, *[ra((g, T.add(base, T.const(q)))) for q in range(nf)])
        return Arr(Buf(a.shape, f))
    return c


def use_flux_contracts(I, nf):
    for m, fs in (("euler_physics", ("roe", "rusanov", "godunov")), ("advection_physics", ("upwinding",))):
        for f in fs:
            I.contracts["dg1d.%s.riemann_%s" % (m, f)] = face_flux_contract(nf)
        I.contracts["dg1d.%s.interior_flux" % m] = volume_flux_contract(nf)


# quadrature facts about Legendre polynomials at Gauss points (trusted axioms)
def legendre_facts(a):
    """facts about applications produced by the model of numpy.polynomial.legendre"""
    out = []
    if a.val == "gw":
        out.append(T.lt(0, a))
    if a.val == "gx":
        out.append(T.lt(-1, a))
        out.append(T.lt(a, 1))
    return out


def prune(I, t, conds):
    """drop the conditional parts that the conditions decide"""
    pc = list(I.pc)
    try:
        for c in conds:
            I.assume(c)
        memo = {}

        def go(x):
            if x.id in memo:
                return memo[x.id]
            if x.op == "ite":
                r = go(x.args[1]) if I.implied(x.args[0]) else go(x.args[2]) if I.implied(T.not_(x.args[0])) else T.ite(x.args[0], go(x.args[1]), go(x.args[2]))
            elif x.op == "sum":
                keep = list(I.pc)
                I.assume(T.le(x.args[1], x.val))
                I.assume(T.lt(x.val, x.args[2]))
                r = T.sum_(x.val, x.args[1], x.args[2], prune(I, x.args[0], ()))
                I.pc = keep
            elif x.op == "app" or not x.args:
                r = x
            elif x.op == "add":
                r = T.const(x.val[0])
                for k, a in zip(x.val[1], x.args):
                    r = T.add(r, T.scale(k, go(a)))
            elif x.op == "mul":
                r = K(1)
                for a, ex in zip(x.args, x.val):
                    r = T.mul(r, T.power(go(a), K(ex)))
            elif x.op == "div":
                r = T.div(go(x.args[0]), go(x.args[1]))
            else:
                r = x
            memo[x.id] = r
            return r
        return go(t)
    finally:
        I.pc = pc
