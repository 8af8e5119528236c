from .quadrature import *

DOMAIN = {"sinewave": (-1, 1), "ictest": (-1, 1), "simplew": (-4, 4), "entrpyw": (-1, 1), "acsticw": (-1, 1), "scktube": (-1, 1), "shuoshe": (0, 10)}


def spec(chk):
    chk.tasks([("setup " + s, lambda s=s, nf=nf, ic=ic: setup(chk, s, nf, ic)) for s, nf, ic in SYSTEMS] +
              [("domain " + ic, lambda ic=ic: domain(chk, ic)) for ic in DOMAIN] + [("lemmas", lambda: lemmas(chk))])
    chk.assume_note("least-squares fit contract (numpy legfit): with p+1 distinct nodes and degree p it interpolates; at the Gauss nodes its coefficients are (2n+1)/2 sum_g w_g P_n(x_g) y_g")
    chk.assume_note("discrete orthogonality at the p+1 Gauss points in both directions: sum_g w P_n P_m = 2/(2n+1) if n = m else 0 (n, m <= p), and sum_n (2n+1)/2 P_n(x_g) P_n(x_h) = 1/w_g if g = h else 0")


def fit_rw(t):
    """contract of legfit at the Gauss nodes"""
    if t.val != "legfit":
        return None
    x, y, D, n = t.args
    if x.op != "app" or x.val != "gx" or x.args[0] is not D or x.args[1].op != "v":
        return None
    g = x.args[1]
    w = T.mul(T.app("gw", D, g), T.app("P", n, x))
    return T.scale(F(1, 2), T.mul(T.toR(T.add(T.scale(F(2), n), K(1))), T.sum_(g, K(0), D, T.mul(w, y))))


def orthogonal(D):
    """sum_g w_g P_n(x_g) P_m(x_g) = 2/(2n+1) if n = m else 0"""
    def rule(N, bs, facs):
        if len(bs) != 1 or len(facs) not in (2, 3) or bs[0][1] is not K(0) or T.sub(bs[0][2], D) is not K(0):
            return None
        g = bs[0][0]
        x = T.app("gx", D, g)
        P, w = [], 0
        for f in facs:
            if f.op == "mul" and all(e > 0 for e in f.val):
                P += [a for a, e in zip(f.args, f.val) for _ in range(e)]
            elif f.op == "app" and f.val == "gw":
                w += 1
            else:
                P.append(f)
        if w != 1 or len(P) != 2 or any(f.op != "app" or f.val != "P" or f.args[1] is not x or g in T.vars_of(f.args[0]) for f in P):
            return None
        n, m = P[0].args[0], P[1].args[0]
        v = T.div(K(2), T.toR(T.add(T.scale(F(2), n), K(1))))
        return T.ite(T.eq(T.sub(n, m), 0), v, K(0))
    return rule




def setup(chk, system, nf, ic):
    I = chk.interp()
    N, p = sym_mesh(I)
    A, B = R("A"), R("B")
    I.assume(T.lt(A, B))
    D = T.add(p, K(1))
    n, e, i = ranged(I, "n", 0, D), ranged(I, "e", 0, N), ranged(I, "i", 0, T.add(N, K(1)))
    chk.cover(I.pc, "a mesh, a domain, a cell and a mode")
    f = Builtin("initial condition", lambda a: PyList([T.app("ic%d" % q, T.toR(a)) for q in range(nf)]))
    L = system + ": "

    def go():
        seen = []
        I.contracts["dg1d.solution.Solution.setup_common_ic"] = lambda I_, a, kw: seen.append(1)
        sol = new_solution(I, system, ic, N, p)
        del I.contracts["dg1d.solution.Solution.setup_common_ic"]
        I.call(I.getattr(sol, "setup_common_ic"), [f, A, B], {})
        kw = dict(hyps=list(I.pc), func="dg1d.solution.Solution.setup_common_ic")
        get = lambda a: I.getattr(sol, a)
        h = T.div(T.sub(B, A), T.toR(N))
        edge = lambda k: T.add(A, T.mul(h, T.toR(k)))
        chk.prove_eq(L + "number of cells", get("N_E"), N, **kw)
        chk.prove_eq(L + "cell size", get("dx"), h, **kw)
        x, xc = I.np.asarr(get("x")), I.np.asarr(get("xc"))
        chk.prove_eq(L + "number of mesh points", x.shape[0], T.add(N, K(1)), **kw)
        chk.prove_eq(L + "mesh points", x.at(i), edge(i), **kw)
        chk.prove_eq(L + "number of centroids", xc.shape[0], N, **kw)
        chk.prove_eq(L + "centroids", xc.at(e), T.add(edge(e), T.scale(F(1, 2), h)), **kw)
        u = I.np.asarr(get("u"))
        chk.prove_eq(L + "number of modes", u.shape[0], D, **kw)
        chk.prove_eq(L + "number of columns", u.shape[1], T.scale(F(nf), T.add(N, K(2))), **kw)
        g = T.fresh("g", "I")
        for q in range(nf):
            got = prune(I, u.at(n, T.add(T.scale(F(nf), T.add(e, K(1))), K(q))), ())
            pt = T.add(edge(e), T.mul(T.scale(F(1, 2), h), T.add(K(1), T.app("gx", D, g))))
            want = T.scale(F(1, 2), T.mul(T.toR(T.add(T.scale(F(2), n), K(1))), T.sum_(g, K(0), D, T.mul(
                T.mul(T.app("gw", D, g), T.app("P", n, T.app("gx", D, g))), T.app("ic%d" % q, pt)))))
            names = {"ic%d" % k for k in range(nf)}
            clean = tidy_args(I, names, [])
            rw = [fit_rw, clean]
            chk.prove_eq(L + "field %d: the coefficients interpolate component %d of the initial condition at the cell's quadrature points" % (q, q),
                         got, want, sum_rules=[orthogonal(D)], rewrites=rw, **dict(kw, func="dg1d.solution.Solution.populate"))
    chk.run(I, go, L + "setup")


def domain(chk, ic):
    I = chk.interp()
    N, p = sym_mesh(I)
    nf = 1 if ic in ("sinewave", "ictest") else 3
    system = "advection" if nf == 1 else "euler"
    chk.cover(I.pc, "a mesh and an order")

    def go():
        calls = []
        I.contracts["dg1d.solution.Solution.setup_common_ic"] = lambda I_, a, kw: calls.append((a, kw))
        sol = new_solution(I, system, ic, N, p, extra=" 0.1 1 2 3 4 5 6" if ic == "scktube" else "")
        chk.require(ic + ": the initial condition is set up once", len(calls) == 1)
        a, kw = calls[0]
        a = list(a[1:]) + [kw[k] for k in ("f", "A", "B")[len(a) - 1:]]
        kw = dict(hyps=list(I.pc), func="dg1d.solution.Solution." + ic)
        lo, hi = DOMAIN[ic]
        chk.prove_eq(ic + ": left end of the domain", a[1], K(lo), **kw)
        chk.prove_eq(ic + ": right end of the domain", a[2], K(hi), **kw)
        r = I.call(a[0], [K(F(1, 3)) if ic == "acsticw" else R("x")], {}) if ic not in ("simplew", "scktube", "shuoshe") else None
        if r is not None:
            chk.require(ic + ": one component per field", len(r.items if isinstance(r, PyList) else r) == nf)
    chk.run(I, go, ic)


def lemmas(chk):
    """consequences of the coefficient formula"""
    I = chk.interp()
    p = INT("p")
    I.assume(T.le(0, p))
    D = T.add(p, K(1))
    n = ranged(I, "n", 0, D)
    g, m = T.fresh("g", "I"), T.fresh("m", "I")
    x = T.app("gx", D, g)
    c = lambda k: T.app("c", k)
    # data polynomial of degree <= p: values sum_m c_m P_m(x_g)
    val = T.sum_(m, K(0), D, T.mul(c(m), T.app("P", m, x)))
    coef = T.scale(F(1, 2), T.mul(T.toR(T.add(T.scale(F(2), n), K(1))), T.sum_(g, K(0), D, T.mul(T.mul(T.app("gw", D, g), T.app("P", n, x)), val))))

    def swap(N_, bs, facs):
        """do the sum over points first"""
        if len(bs) != 2:
            return None
        gs = [b for b in bs if any(f.op == "app" and f.val == "gw" and f.args[1] is b[0] for f in facs)]
        if len(gs) != 1:
            return None
        inner = [f for f in facs if gs[0][0] in T.vars_of(f)]
        r = orthogonal(D)(N_, gs, inner)
        if r is None:
            return None
        for f in facs:
            if f not in inner:
                r = T.mul(r, f)
        o, = [b for b in bs if b is not gs[0]]
        return T.sum_(o[0], o[1], o[2], r)
    chk.prove_eq("polynomial data of degree at most the order are reproduced", coef, c(n), hyps=list(I.pc),
                 sum_rules=[swap, orthogonal(D), delta(lambda cond: True)])
    y = T.app("y", g)
    avg = T.scale(F(1, 2), T.sum_(g, K(0), D, T.mul(T.app("gw", D, g), y)))
    c0 = T.scale(F(1, 2), T.mul(K(1), T.sum_(g, K(0), D, T.mul(T.mul(T.app("gw", D, g), T.app("P", K(0), x)), y))))
    chk.prove_eq("the cell average is the Gauss quadrature of the data", c0, avg, hyps=list(I.pc), rewrites=[legendre_rw])
