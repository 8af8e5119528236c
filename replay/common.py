"""Reference formulas written from the property texts, and builders of real solutions."""
import copy
import math
import random
import numpy as np
from skip import Skip
import dg1d.constants as constants
import dg1d.solution as solution
import dg1d.dg as dg

constants.init()


def rng(case):
    return np.random.RandomState(case["seed"] % (2 ** 31))


def P(n, x):
    """Legendre polynomial by recurrence"""
    x = np.asarray(x, dtype=float)
    a, b = np.ones_like(x), x
    if n == 0:
        return a
    for k in range(1, n):
        a, b = b, ((2 * k + 1) * x * b - k * a) / (k + 1)
    return b


def dP(n, x):
    """derivative: sum of (2k+1) P_k over k = n-1, n-3, ..."""
    x = np.asarray(x, dtype=float)
    r = np.zeros_like(x)
    k = n - 1
    while k >= 0:
        r = r + (2 * k + 1) * P(k, x)
        k -= 2
    return r


_gl = {}


def gauss(n):
    if n not in _gl:
        _gl[n] = np.polynomial.legendre.leggauss(n)
    return _gl[n]


def new(system, N, p, riemann="roe", enhance="", thresholds=None, ic=None, extra=""):
    ic = ic or ("sinewave" if system == "advection" else "entrpyw")
    return solution.Solution("%s %d%s" % (ic, N, extra), system, p, riemann, enhance,
                             list(thresholds) if thresholds else [])


def prim(r, v, pr, g=None):
    g = g or constants.gamma
    return np.array([r, r * v, pr / (g - 1) + 0.5 * r * v * v])


def wstate(s, g=None):
    g = g or constants.gamma
    r, m, E = s
    v = m / r
    return r, v, (g - 1) * (E - 0.5 * r * v * v)


def phys(s, g=None):
    r, v, p = wstate(s, g)
    return np.array([r * v, r * v * v + p, (s[2] + p) * v])


def sound(s, g=None):
    g = g or constants.gamma
    r, v, p = wstate(s, g)
    return math.sqrt(g * p / r)


def rand_prim(R, mach=1.5, spread=1.0):
    r = 10 ** R.uniform(-spread, spread)
    p = 10 ** R.uniform(-spread, spread)
    a = math.sqrt(constants.gamma * p / r)
    return r, R.uniform(-mach, mach) * a, p


def smooth_u(R, system, N, p, amp=0.2):
    """coefficients with admissible states at all points (Euler: small perturbations of random constant states)"""
    nf = 1 if system == "advection" else 3
    u = np.zeros((p + 1, (N + 2) * nf))
    if nf == 1:
        u = R.uniform(-2, 2, u.shape)
    else:
        for e in range(N + 2):
            w = prim(*rand_prim(R, 1.2, 0.4))
            u[0, 3 * e:3 * e + 3] = w
            for s in range(1, p + 1):
                sc = amp / (p + 1)
                u[s, 3 * e] = R.uniform(-1, 1) * sc * w[0] * 0.5
                u[s, 3 * e + 1] = R.uniform(-1, 1) * sc * 0.3 * (abs(w[1]) + 0.1 * w[0])
                u[s, 3 * e + 2] = R.uniform(-1, 1) * sc * 0.2 * w[2]
    return u


def admissible(sol):
    """positive density and pressure at all quadrature points and faces"""
    if sol.N_F == 1:
        return True
    for v in (sol.collocate(), sol.collocate_faces()):
        r, m, E = v[:, 0::3], v[:, 1::3], v[:, 2::3]
        if not (np.all(r > 1e-3) and np.all(E - 0.5 * m * m / r > 1e-3)):
            return False
    return True


def ghosts(u, nf, bc_l, bc_r):
    u = u.copy()
    last = slice(u.shape[1] - 2 * nf, u.shape[1] - nf)
    first = slice(nf, 2 * nf)
    u[:, :nf] = u[:, last] if bc_l == "periodic" else u[:, first]
    u[:, u.shape[1] - nf:] = u[:, first] if bc_r == "periodic" else u[:, last]
    return u


def close(a, b, rtol=1e-9, atol=0.0, scale=None):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    s = scale if scale is not None else max(np.max(np.abs(b)) if b.size else 0.0, 1e-300)
    return bool(np.all(np.isfinite(a)) and np.all(np.abs(a - b) <= atol + rtol * s))


def seeds(R):
    return R.randint(0, 2 ** 31 - 1)


FLUXES = ("roe", "rusanov", "godunov")


def weak_form(sol, u, flux, iflux):
    """time derivative from the property text; u with ghosts filled; interior columns only"""
    nf, p, N = sol.N_F, sol.basis.p, sol.N_E
    x, w = gauss(p + 1)
    ph = np.array([P(n, x) for n in range(p + 1)])        # n, g
    dph = np.array([dP(n, x) for n in range(p + 1)])
    pts = ph.T.dot(u)                                      # g, col
    F = iflux(pts)
    sg = np.array([(-1.0) ** n for n in range(p + 1)])
    right = u.sum(axis=0)
    left = sg.dot(u)
    q = flux(right[:-nf], left[nf:])
    out = np.zeros_like(u)
    dx = sol.dx
    for e in range(1, N + 1):
        for f in range(nf):
            c = e * nf + f
            qr, ql = q[e * nf + f], q[(e - 1) * nf + f]
            vol = (dph * w).dot(F[:, c])
            out[:, c] = (2 * np.arange(p + 1) + 1) / dx * (vol - qr + sg * ql)
    return out, q
