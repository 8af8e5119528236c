import ast
import os
from itertools import combinations
from pyvc.interp import simp_num
from .common import *
from .c12 import SCHEMES, small

DGS, RKS = "analysis/dg_stability.py", "analysis/rk_stability.py"
DROPPED = {"matplotlib", "scipy", "argparse"}


def spec(chk):
    top = 6 if chk.thorough else 4
    todo = [("volume matrix", lambda: volume(chk)), ("face matrices", lambda: plain(chk))]
    for p in range(top + 1):
        for m in range(1, min(p + 1, 4 if chk.thorough else 3) + 1):
            for modes in combinations(range(p + 1), m):
                todo.append(("order %d modes %s" % (p, " ".join(map(str, modes))), lambda p=p, modes=modes: enhanced(chk, p, modes)))
    todo += [("tables", lambda: tables(chk))]
    chk.tasks(todo)
    chk.bound("enhanced matrices: orders up to %d with every set of at most %d neighbour modes; unenhanced matrices: every order; every mesh, cell, wave and translation factor" % (top, 4 if chk.thorough else 3))
    chk.assume_note("the function definitions of the analysis scripts are taken as they stand; their top-level plotting and argument parsing is dropped")
    chk.assume_note("sympy matrices of numbers and powers of one symbol behave as matrices over a field; numpy's Legendre product, antiderivative and evaluation are exact; the p+1 point Gauss rule is exact up to degree 2p+1")
    chk.assume_note("the spectrum computation from the matrices (get_eigenvalue, sorting, plotting) is outside the property")


# ---------------------------------------------------------------- the analysis scripts
class Mat(Arr):
    """sympy matrix"""
    I = None

    def check_key(self, k):
        if not (isinstance(k, tuple) and len(k) == 2 and not any(isinstance(x, (SliceVal, Arr, PyList, type(None))) for x in k)):
            raise Unsupported("sympy matrix index")

    def plain(self):
        return Arr(self.buf, self.axes, self.shape)

    def py_binop(self, op, o, swapped):
        I = self.I
        a = self.plain()
        if op in ("Mult", "MatMult") and isinstance(o, Mat):
            b = o.plain()
            r = I.np.dot(b, a) if swapped else I.np.dot(a, b)
        elif op in ("Add", "Sub") and isinstance(o, Mat):
            b = o.plain()
            r = I.np.binary(op, b, a) if swapped else I.np.binary(op, a, b)
        elif op == "Mult" and not isinstance(o, Arr) and (isinstance(o, int) or isinstance(o, T.Term) and o.sort in "IR"):
            r = I.np.binary(op, a, o)
        else:
            raise Unsupported("sympy matrix " + op)
        return matrix(I, r)

    def py_getattr(self, n):
        I = self.I
        if n in ("T", "transpose"):
            r = matrix(I, I.np.attr(self.plain(), "T"))
            return r if n == "T" else Builtin(n, lambda: r)
        if n == "shape":
            return tuple(simp_num(s) for s in self.shape)
        if n in ("rows", "cols"):
            return simp_num(self.shape[0 if n == "rows" else 1])
        if n in ("copy", "as_mutable"):
            return Builtin(n, lambda: matrix(I, self.plain()))
        if n in ("multiply",):
            return Builtin(n, lambda o: self.py_binop("Mult", o, False))
        raise Unsupported("sympy matrix attribute " + n)


def matrix(I, x):
    a = I.np.asarr(x)
    if len(a.shape) != 2:
        raise Unsupported("sympy matrix from this array")
    b = Buf(a.shape, a.reader())
    m = Mat(b)
    m.I = I
    return m


def sympy(I):
    zeros = lambda n, m=None: matrix(I, I.call(I.getattr(I.import_module("numpy"), "zeros"), [(n, n if m is None else m)], {}))
    eye = lambda n, m=None: matrix(I, I.call(I.getattr(I.import_module("numpy"), "eye"), [n] + ([] if m is None else [m]), {}))
    mod = Module("sympy", None, {"zeros": Builtin("zeros", zeros), "eye": Builtin("eye", eye), "Matrix": Builtin("Matrix", lambda *a: matrix(I, *a))})
    return mod


def script(I, path):
    """the imports, constants and function definitions of a script"""
    full = os.path.join(I.root, path)
    m = I.load("analysis." + os.path.basename(path)[:-3], path=full, main=True)
    fr = m.frame
    fr.d["__name__"] = m.name
    I.std["sympy"] = sympy(I)
    for s in m.tree.body:
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            root = (s.names[0].name if isinstance(s, ast.Import) else s.module or "").split(".")[0]
            if root in DROPPED:
                continue
            if root == "aux_functions":
                aux = script(I, os.path.join("analysis", root + ".py"))
                I.std["aux_functions"] = aux
            I.exec_block([s], fr)
        elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            I.exec_block([s], fr)
        elif isinstance(s, ast.Assign):
            try:
                ast.literal_eval(s.value)
            except ValueError:
                continue
            I.exec_block([s], fr)
    return m


TT = T.var("T", "R")


def at_one(t):
    """P_n(1) = 1, P_n(-1) = (-1)^n"""
    if t.val == "P" and t.args[1].op == "c" and abs(t.args[1].val) == 1:
        return K(1) if t.args[1].val == 1 else T.ite(T.eq(T.imod(t.args[0], K(2)), 0), K(1), K(-1))
    return None


def exact(p):
    """Gauss quadrature of P_n' P_m, n, m <= p: the antiderivative between the end points"""
    D = T.add(p, K(1))

    def rule(N, bs, facs):
        for b, lo, hi in bs:
            if lo is not K(0) or T.sub(hi, D) is not K(0):
                continue
            mine = [x for x in facs if b in T.vars_of(x)]
            w = [x for x in mine if x.op == "app" and x.val == "gw"]
            d = [x for x in mine if x.op == "app" and x.val == "dP"]
            q = [x for x in mine if x.op == "app" and x.val == "P"]
            if len(mine) != 3 or not (len(w) == len(d) == len(q) == 1):
                continue
            g = T.app("gx", w[0].args[0], b)
            if w[0].args[1] is not b or T.sub(w[0].args[0], D) is not K(0) or d[0].args[1] is not g or q[0].args[1] is not g:
                continue
            n, m = d[0].args[0], q[0].args[0]
            if b in T.vars_of(n) or b in T.vars_of(m):
                continue
            body = T.sub(T.app("intP1P0", n, m, T.const(F(1))), T.app("intP1P0", n, m, T.const(F(-1))))
            for x in facs:
                if x not in mine:
                    body = T.mul(body, x)
            for v, l, h in reversed([z for z in bs if z[0] is not b]):
                body = T.sum_(v, l, h, body)
            return body
        return None
    return rule


def ends(t):
    """the end values of the Legendre polynomials put in"""
    m = {x: at_one(x) for x in T.subterms(t) if x.op == "app" and at_one(x) is not None}
    return T.subst(t, m) if m else t


def wave(I, sol, e):
    """cell e holds the coefficients U_k, its neighbours those of the wave translated by one cell, the others anything"""
    u = I.getattr(sol, "u")

    def f(idx):
        k, c = idx
        U = T.app("U", k)
        d = T.sub(c, e)
        return T.ite(T.eq(d, 0), U, T.ite(T.eq(d, K(-1)), T.div(U, TT), T.ite(T.eq(d, K(1)), T.mul(TT, U), T.app("u", k, c))))
    I.setattr(sol, "u", Arr(Buf(u.shape, f)))


def zeros_like(I, args, kw):
    a = I.np.asarr((list(args) + list(kw.values()))[0])
    return Arr(Buf(a.shape, lambda idx: T.const(F(0))))


def open_ends(I):
    """the ghost cells already hold the wave (they are filled by C04: the wave is periodic over the mesh)"""
    I.contracts["dg1d.solution.Solution.apply_bc"] = lambda I, args, kw: None


def derivative(I, N, p, e, n, enhance=""):
    """dx/2 times the solver's time derivative of mode n in cell e"""
    sol = new_solution(I, "advection", "sinewave", N, p, enhance=enhance)
    dgs = I.call(cls(I, "dg", "DG"), [sol], {})
    wave(I, sol, e)
    Fv = I.np.asarr(I.call(I.getattr(dgs, "residual"), [sol], {}))
    return T.mul(T.scale(half, T.const(I.getattr(sol, "dx"))), Fv.at(n, e))


def setup(chk, p=None):
    I = chk.interp()
    N = INT("N")
    I.assume(T.le(1, N))
    if p is None:
        p = INT("p")
        I.assume(T.le(0, p))
    else:
        p = K(p)
    I.assume(T.ne(TT, 0))
    e = ranged(I, "e", 1, T.add(N, K(1)))
    n = ranged(I, "n", 0, T.add(p, K(1)))
    open_ends(I)
    m = script(I, DGS)
    chk.cover(I.pc, "a mesh, an order, a cell and a mode")
    return I, N, p, e, n, m


def rows(I, M, n, p, U=lambda k: T.app("U", k)):
    """row n of a matrix times U"""
    M = I.np.asarr(M)
    k = T.fresh("k", "I")
    if p.op == "c":
        r = T.const(F(0))
        for j in range(int(p.val) + 1):
            r = T.add(r, T.mul(M.at(n, K(j)), U(K(j))))
        return r
    return T.sum_(k, K(0), T.add(p, K(1)), T.mul(M.at(n, k), U(k)))


def shapes(chk, I, L, p, ms):
    for nm, m in ms:
        m = I.np.asarr(m)
        for d in (0, 1):
            chk.prove_eq(L + "shape of " + nm, m.shape[d], T.add(p, K(1)), hyps=list(I.pc), func=DGS)


def scaled(I, Minv, n, p, x):
    """row n of Minv (diagonal) times the vector with entry x at n"""
    return T.mul(I.np.asarr(Minv).at(n, n), x)


def diagonal(chk, I, L, Minv, n, p):
    k = ranged(I, "kd", 0, T.add(p, K(1)))
    chk.prove(L + "the inverse mass matrix is diagonal", T.or_(T.eq(k, n), T.eq(I.np.asarr(Minv).at(n, k), 0)), hyps=list(I.pc), func=DGS)


def volume(chk):
    """every order: with the face fluxes left out, the solver's derivative is Minv F U"""
    I, N, p, e, n, m = setup(chk)
    I.contracts["dg1d.advection_physics.riemann_upwinding"] = zeros_like

    def go():
        Minv, Fm, G0, G1 = I.tolist(I.call(I.getattr(m, "dg_matrices"), [simp_num(p), TT], {}))
        shapes(chk, I, "every order: ", p, (("the inverse mass matrix", Minv), ("the volume matrix", Fm), ("the left-face matrix", G0), ("the right-face matrix", G1)))
        got = derivative(I, N, p, e, n)
        want = scaled(I, Minv, n, p, rows(I, Fm, n, p))
        diagonal(chk, I, "every order: ", Minv, n, p)
        chk.prove_eq("every order: the volume matrix gives the volume term", got, want, hyps=list(I.pc), func=DGS, sum_rules=[exact(p)], rewrites=[at_one])
    chk.run(I, go, "volume matrix", quants=list(I.lemmas))


def plain(chk):
    """every order: with the volume flux left out, the solver's derivative is Minv (G0 - G1) U"""
    I, N, p, e, n, m = setup(chk)
    I.contracts["dg1d.advection_physics.interior_flux"] = zeros_like

    def go():
        Minv, Fm, G0, G1 = I.tolist(I.call(I.getattr(m, "dg_matrices"), [simp_num(p), TT], {}))
        got = derivative(I, N, p, e, n)
        want = scaled(I, Minv, n, p, T.sub(rows(I, G0, n, p), rows(I, G1, n, p)))
        chk.prove_eq("every order: minus the right-face plus the left-face matrix give the face terms", ends(got), ends(want), hyps=list(I.pc), func=DGS)
    chk.run(I, go, "face matrices", quants=list(I.lemmas))


def enhanced(chk, p, modes):
    from .c22 import rank, mode, shifted, legendre
    deg = p + len(modes)
    Lg = [legendre(j) for j in range(deg + 1)]
    for shift in (2, -2):
        A = [[mode(Lg[j], n) for j in range(deg + 1)] for n in range(p + 1)] + [[mode(shifted(Lg[j], shift), q) for j in range(deg + 1)] for q in modes]
        if rank(A) < deg + 1:
            return
    I, N, p, e, n, m = setup(chk, p)
    I.contracts["dg1d.advection_physics.interior_flux"] = zeros_like
    L = "order %d modes %s: " % (p.val, " ".join(map(str, modes)))

    def go():
        Minv, Fm, G0, G1 = I.tolist(I.call(I.getattr(m, "icb_matrices"), [simp_num(p), PyList(list(modes)), TT], {}))
        Minv2, Fm2, _, _ = I.tolist(I.call(I.getattr(m, "dg_matrices"), [simp_num(p), TT], {}))
        shapes(chk, I, L, p, (("the inverse mass matrix", Minv), ("the volume matrix", Fm), ("the left-face matrix", G0), ("the right-face matrix", G1)))
        kw = dict(hyps=list(I.pc), func=DGS)
        for r in range(int(p.val) + 1):
            for s in range(int(p.val) + 1):
                for nm, a, b in (("inverse mass", Minv, Minv2), ("volume", Fm, Fm2)):
                    chk.prove_eq(L + "%s matrix as without enhancement, entry %d %d" % (nm, r, s), I.np.asarr(a).at(K(r), K(s)), I.np.asarr(b).at(K(r), K(s)), **kw)
            got = prune(I, derivative(I, N, p, e, K(r), "icb " + " ".join(map(str, modes))), ())
            want = scaled(I, Minv, K(r), p, T.sub(rows(I, G0, K(r), p), rows(I, G1, K(r), p)))
            chk.prove_eq(L + "minus the right-face plus the left-face matrix give the face terms of mode %d" % r, got, want, **kw)
    chk.run(I, go, L, quants=list(I.lemmas))


def tables(chk):
    for name in SCHEMES + ("another scheme",):
        I = chk.interp()
        m = script(I, RKS)
        seen = []

        def classic(I, args, kw):
            a = dict(zip(("solution", "deck", "dgsolver", "limiter", "coeffs", "alphas", "betas"), args), **kw)
            seen.append((a["coeffs"], a["betas"]))
        I.contracts["dg1d.rk.classic_rk"] = classic
        s = T.var("scheme", "S")
        if name == "another scheme":
            for x in SCHEMES + ("low_storage_rk4",):
                I.assume(T.ne(s, T.const(x)))
        which = s if name == "another scheme" else name

        def go():
            del seen[:]
            c, B = I.tolist(I.call(I.getattr(m, "get_formatted_rk_coeffs"), [which], {}))
            d = I.call(cls(I, "deck", "Deck"), [], {})
            I.setattr(d, "rk", which)
            sol = new_solution(I, "advection", "sinewave", 3, 1)
            I.call(fn(I, "rk", "integrate"), [sol, d, None, None], {})
            if len(seen) != 1:
                raise Unsupported("the integrator is not entered through classic_rk")
            c2, b2 = I.np.asarr(seen[0][0]), I.np.asarr(seen[0][1])
            c, B = I.np.asarr(c), I.np.asarr(B)
            n = len(I.tolist(c2))
            F_ = RKS + " get_formatted_rk_coeffs"
            chk.require("%s: as many weights as stages" % name, len(I.tolist(c)) == n and all(x.op == "c" and x.val == n for x in B.shape), F_)
            bad = [k for k in range(n) if T.sub(T.toR(c.at(K(k))), T.toR(c2.at(K(k)))) is not T.const(F(0))]
            chk.require("%s: the analysis uses the solver's weights" % name, not bad, F_, "weights %s" % bad)
            # the solver uses the entries below the diagonal
            bad = [(k, j) for k in range(n) for j in range(n)
                   if T.sub(T.toR(B.at(K(k), K(j))), T.toR(b2.at(K(k), K(j))) if j < k else T.const(F(0))) is not T.const(F(0))]
            chk.require("%s: the analysis uses the solver's stage coefficients" % name, not bad, F_, "entries %s" % bad[:5])
        chk.run(I, go, "tables " + name)
