from .flux import *
from .c25 import settle, powers, Star


def spec(chk):
    todo = [("rusanov", lambda: algebraic(chk, "rusanov")), ("roe", lambda: algebraic(chk, "roe"))]
    todo.append(("sonic", lambda: sonic(chk)))
    todo += [("godunov supersonic " + d, lambda d=d: supersonic(chk, d)) for d in "LR"]
    todo.append(("godunov", lambda: godunov(chk)))
    chk.tasks(todo)
    chk.assume_note("admissible states: positive density and pressure (parametrised by density q^2, sound speed a>0, any velocity), any gamma>1")


def swapped():
    return lambda i: mirror(R_(i)), lambda i: mirror(L_(i))


def algebraic(chk, f):
    I, M, i = euler(chk)
    A, B = swapped()

    def go():
        h, m = call_flux(I, f, M, L_, R_), call_flux(I, f, M, A, B)
        for k, s in enumerate((-1, 1, -1)):
            j = T.add(T.scale(F(3), i), K(k))
            chk.prove_eq("%s: component %d of the mirrored pair is %s" % (f, k, "negated" if s < 0 else "unchanged"), m.at(j), sc(s, h.at(j)),
                         hyps=list(I.pc), quants=list(I.lemmas), func="dg1d.euler_physics.riemann_" + f)
    chk.run(I, go, "mirror " + f, quants=list(I.lemmas))


def sonic(chk):
    """sonic(-u1, c1, P1, -u2, c2, -a1, -a2) has the density and energy of sonic(u1, c1, P1, u2, c2, a1, a2) and the opposite momentum"""
    I = chk.interp()
    set_gamma(I)
    I.simplify_on()
    u1, c1, P1, u2, c2, a1, a2 = [R(x) for x in ("u1", "c1", "P1", "u2", "c2", "a1", "a2")]
    I.assume(T.lt(0, c1))
    I.assume(T.lt(0, P1))
    I.assume(T.le(0, c2))
    I.assume(T.or_(T.and_(T.lt(a1, 0), T.lt(0, a2)), T.and_(T.lt(0, a1), T.lt(a2, 0))))
    n = lambda x: sc(-1, x)

    def go():
        f = fn(I, "euler_physics", "sonic")
        U, W = [I.call(f, a, {}) for a in ([u1, c1, P1, u2, c2, a1, a2], [n(u1), c1, P1, n(u2), c2, n(a1), n(a2)])]
        U, W = [[T.toR(T.const(x)) for x in (y.items if isinstance(y, PyList) else y)] for y in (U, W)]
        for k, s in enumerate((1, -1, 1)):
            for nm, cond in (("opening", T.and_(T.lt(a1, 0), T.lt(0, a2))), ("closing", T.and_(T.lt(0, a1), T.lt(a2, 0)))):
                h = list(I.pc) + [cond, T.lt(0, add(mul(div(a2, sub(a2, a1)), c1), mul(div(n(a1), sub(a2, a1)), c2)))]
                chk.prove_eq("sonic state of mirrored waves (%s): component %d %s" % (nm, k, "unchanged" if s > 0 else "negated"), W[k], sc(s, U[k]),
                             hyps=h + powers(U[k], W[k]), func="dg1d.euler_physics.sonic")
    chk.run(I, go, "mirrored sonic state", defined=False)


def unmirror(t):
    """rewrite the sonic states of the mirrored pair by those of the pair (the relation proved of the real function above)"""
    m = {}
    for x in T.all_apps(t):
        if x.val in ("sonic0", "sonic1", "sonic2"):
            a = list(x.args)
            for k in (0, 3, 5, 6):
                a[k] = sc(-1, a[k])
            m[x] = sc(-1 if x.val == "sonic1" else 1, T.app(x.val, *a))
    return T.subst(t, m)


def supersonic(chk, side):
    """flow supersonic from one side only; the mirrored pair then is supersonic from the other side only"""
    I, M, i = euler(chk)
    use_massflux(I)
    l, r = L_(i), R_(i)
    A, B = swapped()
    left, right = T.le(l.a, l.v), T.le(r.v, sc(-1, r.a))
    I.assume(T.and_(left, T.not_(right)) if side == "L" else T.and_(right, T.not_(left)))
    chk.cover(I.pc + I.facts(I.pc), "supersonic from one side only")

    def go():
        h, m = call_flux(I, "godunov", M, L_, R_), call_flux(I, "godunov", M, A, B)
        for k, s in enumerate((-1, 1, -1)):
            j = T.add(T.scale(F(3), i), K(k))
            a, b = settle(I, [T.toR(T.const(m.at(j))), T.toR(T.const(h.at(j)))], list(I.pc), lambda c: not any(x.op == "app" and x.val == "massflux" for x in T.subterms(c)))
            chk.prove_eq("godunov, supersonic from the %s: component %d of the mirrored pair is %s" % (side, k, "negated" if s < 0 else "unchanged"),
                         a, sc(s, b), hyps=list(I.pc), quants=list(I.lemmas), func="dg1d.euler_physics.riemann_godunov")
    for o in chk.run(I, go, "mirror godunov supersonic " + side, normal=False):
        chk.require("godunov: a face either gets its flux or the run stops", o.kind in ("normal", "ret", "exit"))


def godunov(chk):
    I = chk.interp()
    I.lemmas.append(POS)
    set_gamma(I)
    use_massflux(I)
    I.simplify_on()
    M, i = T.const(1), K(0)
    l, r = L_(i), R_(i)
    I.assume(T.lt(l.v, l.a))
    I.assume(T.lt(sc(-1, r.a), r.v))
    for s in (l, r):
        for x in (s.a, s.rho, s.p):
            I.assume(T.lt(0, x))
    A, B = swapped()
    F_ = "dg1d.euler_physics.riemann_godunov"

    def go():
        h = call_flux(I, "godunov", M, L_, R_)
        m = call_flux(I, "godunov", M, A, B)
        va = [T.toR(T.const(h.at(K(k)))) for k in range(3)]
        vb = [unmirror(T.toR(T.const(m.at(K(k))))) for k in range(3)]
        w = Star(I, va + vb, l, r)
        chk.require("godunov: both fluxes come from one star pressure", len(w.final) == 1, F_, "%d pairs of mass fluxes in the fluxes" % len(w.final))
        if len(w.final) != 1:
            return
        for ln, v, found, h, heavy, rm, S, regions in w.patterns():
            chk.prove("godunov, %s: every normal end is in one of the regions below" % ln, T.or_(*[T.and_(*c) for _, c, _ in regions]),
                      hyps=h + heavy, func=F_)
            for nm, conds, what in regions:
                if what < 2:
                    conds = conds + [T.lt(0, w.final[0][0])] + powers(*rm)
                x = settle(I, v, h + conds)
                for k, s in enumerate((-1, 1, -1)):
                    chk.prove_eq("godunov, %s, %s: component %d of the mirrored pair is %s" % (ln, nm, k, "negated" if s < 0 else "unchanged"),
                                 x[3 + k], sc(s, x[k]), hyps=h + conds, func=F_, quants=[massflux_fact])
    for o in chk.run(I, go, "mirror godunov", normal=False):
        chk.require("godunov: a face either gets its flux or the run stops", o.kind in ("normal", "ret", "exit"), F_)
