"""run with a Python that has sympy; dg1d.basis / enhance / dg are imported as the solver uses them"""
import ast
import os
import sys
import types
from common import *
import dg1d.basis as basis
import dg1d.enhance as enhance
import dg1d.rk_coeffs as rkc

ROOT = os.environ.get("DG1D_ROOT", "/repo")


def load(name, extra):
    """the function definitions of an analysis script (its top level plots and parses arguments)"""
    src = open(os.path.join(ROOT, "analysis", name)).read()
    tree = ast.parse(src)
    keep = [n for n in tree.body if isinstance(n, (ast.FunctionDef, ast.ClassDef))]
    ns = dict(extra)
    exec(compile(ast.Module(keep, []), name, "exec"), ns)
    return types.SimpleNamespace(**{k: v for k, v in ns.items() if not k.startswith("__")})


_c = {}


def mods():
    if not _c:
        import sympy as smp
        from numpy.polynomial import legendre as leg
        from numpy.polynomial import Legendre as L
        auxf = load("aux_functions.py", dict(np=np, sys=sys))
        _c["dgs"] = load("dg_stability.py", dict(np=np, smp=smp, leg=leg, L=L, nla=np.linalg, auxf=auxf, basis=basis, enhance=enhance))
        _c["rks"] = load("rk_stability.py", dict(np=np, rkc=rkc, auxf=auxf))
        _c["smp"] = smp
    return _c


def g27(R, hints):
    for nm in ("rk3", "rk4", "rk5", "rk6", "rk8", "rk10", "rk12", "rk14"):
        yield dict(mode="rk", rk=nm)
    i = 0
    while True:
        p = i % 5 if i < 15 else R.randint(0, 4)
        K = sorted(R.sample(range(p + 1), R.randint(1, min(p + 1, 3)))) if i % 3 else []
        yield dict(mode="dg", p=p, K=K, th=R.uniform(-3.1, 3.1), seed=seeds(R))
        i += 1


def r27(case):
    m = mods()
    if case["mode"] == "rk":
        c, B = m["rks"].get_formatted_rk_coeffs(case["rk"])
        import p_time
        c2, a2, B2 = p_time.tables(case["rk"])
        B = np.array(B, float)
        if not np.array_equal(np.array(c, float), c2) or B.shape != B2.shape or not np.array_equal(B, B2):
            return "%s: the analysis uses another table than the solver" % case["rk"]
        return None
    R = rng(case)
    p, K = case["p"], case["K"]
    smp = m["smp"]
    T = smp.Symbol("T")
    if K:
        Minv, F, G0, G1 = m["dgs"].icb_matrices(p, list(K), T)
    else:
        Minv, F, G0, G1 = m["dgs"].dg_matrices(p, T)
    ebj = complex(math.cos(case["th"]), math.sin(case["th"]))
    num = lambda G: np.array(G.subs(T, ebj).tolist()).astype(complex)
    FK = np.dot(np.array(Minv, float), -(num(G1) - num(G0)) + F)
    # a wave u_{j+m} = T^m u_j through the solver's operator (linear): cell j of an open mesh
    N = 5
    sol = new("advection", N, p, "", ("icb " + " ".join(map(str, K))) if K else "")
    base = R.uniform(-1, 1, p + 1) + 1j * R.uniform(-1, 1, p + 1)
    U = np.array([base * ebj ** e for e in range(N + 2)]).T
    Fs = []
    for part in (U.real, U.imag):
        sol.u = np.ascontiguousarray(part)
        sol.apply_bc = lambda: None
        Fs.append(np.array(dg.DG(sol).residual(sol)))
    # cells 0 and N+1 are the ghosts, holding the same wave here
    Fc = Fs[0] + 1j * Fs[1]
    for e in range(2, N):
        want = FK.dot(U[:, e]) * 2.0 / sol.dx
        sc = np.max(np.abs(want)) + np.max(np.abs(FK)) * 2 / sol.dx
        d = np.max(np.abs(Fc[:, e] - want))
        if not d <= 1e-7 * sc:
            return "p=%d K=%s: analysis matrices give another time derivative (difference %r)" % (p, K, float(d))


PROPS = {"C27": (g27, r27, "each table once, then distinct (order, mode set, phase, data) parameter sets")}
