from .flux import *


def spec(chk):
    todo = [("advection", lambda: advection(chk))]
    for side in "LR":
        todo.append(("godunov supersonic " + side, lambda side=side: godunov(chk, side)))
    for side in "LR":
        for a in ("none", "off"):
            for b in ("none", "off"):
                todo.append(("roe one-sided %s %s %s" % (side, a, b), lambda s=side, a=a, b=b: roe(chk, s, a, b)))
    chk.tasks(todo)
    chk.assume_note("admissible states: positive density and pressure (parametrised by density q^2, sound speed a>0, any velocity), any gamma>1")


def advection(chk):
    I = chk.interp()
    M = INT("M")
    I.assume(T.le(1, M))
    j = ranged(I, "j", 0, M)

    def go():
        a = Arr(Buf((M,), lambda ix: T.app("ul", *ix)))
        b = Arr(Buf((M,), lambda ix: T.app("ur", *ix)))
        f = I.np.asarr(I.call(fn(I, "advection_physics", "riemann_upwinding"), [a, b], {}))
        chk.prove_eq("advection: one flux value per face", f.shape[0], M, hyps=list(I.pc))
        chk.prove_eq("advection: the face flux is the left state", f.at(j), T.app("ul", j), hyps=list(I.pc),
                     func="dg1d.advection_physics.riemann_upwinding")
    chk.run(I, go, "advection")


def godunov(chk, side):
    I, M, i = euler(chk)
    use_massflux(I)
    l, r = L_(i), R_(i)
    left = T.le(l.a, l.v)
    right = T.and_(T.not_(left), T.le(r.v, sc(-1, r.a)))
    I.assume(left if side == "L" else right)
    chk.cover(I.pc + I.facts(I.pc), "supersonic from the " + side)

    def go():
        h = call_flux(I, "godunov", M, L_, R_)
        want = (l if side == "L" else r).flux()
        for k in range(3):
            chk.prove_eq("godunov: supersonic flow, component %d is the upstream (%s) physical flux" % (k, side),
                         h.at(T.add(T.scale(F(3), i), K(k))), want[k], hyps=list(I.pc), quants=list(I.lemmas),
                         func="dg1d.euler_physics.riemann_godunov")
    for o in chk.run(I, go, "godunov " + side, normal=False):
        if o.kind not in ("normal", "ret"):
            chk.require("godunov: the only other outcome is the stop with an error at some face", o.kind == "exit")


def roe(chk, side, fix0, fix2):
    """fix0, fix2: 'off' (the wave spreads: the correction interval is not empty but the speed is outside) or 'none' """
    I, M, i = euler(chk)
    l, r = L_(i), R_(i)
    v, H, a = roe_average(l, r)
    lam = [sub(v, a), v, add(v, a)]
    I.assume(T.le(0, lam[0]) if side == "L" else T.le(lam[2], 0))
    up = lambda x: x if side == "L" else sc(-1, x)
    # all three speeds have one sign; |speed| = up(speed)
    for k in range(3):
        I.assume(T.le(0, up(lam[k])))
    for k, s, how in ((0, -1, fix0), (2, 1, fix2)):
        w = spread(l, r, s)
        I.assume(T.le(w, 0) if how == "none" else T.and_(T.lt(0, w), T.le(sc(2, w), up(lam[k]))))
    chk.cover(I.pc + I.facts(I.pc), "Roe speeds of one sign " + side)
    L = "roe, all speeds of one sign (%s), corrections %s/%s: " % (side, fix0, fix2)

    def go():
        h = call_flux(I, "roe", M, L_, R_)
        want = (l if side == "L" else r).flux()
        for k in range(3):
            chk.prove_eq(L + "component %d is the upstream physical flux" % k,
                         h.at(T.add(T.scale(F(3), i), K(k))), want[k], hyps=list(I.pc), quants=list(I.lemmas),
                         func="dg1d.euler_physics.riemann_roe")
    chk.run(I, go, L, quants=list(I.lemmas))
