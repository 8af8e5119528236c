import re
from .flux import *


def spec(chk):
    chk.tasks([("advection", lambda: advection(chk)), ("volume flux", lambda: volume(chk))] +
              [("consistency " + f, lambda f=f: consistency(chk, f)) for f in FLUXES] +
              [("locality " + f, lambda f=f: locality(chk, f)) for f in FLUXES])
    chk.assume_note("admissible states: positive density and pressure (parametrised by density q^2, sound speed a>0, any velocity), any gamma>1")


def advection(chk):
    I = chk.interp()
    M = INT("M")
    I.assume(T.le(1, M))
    j = ranged(I, "j", 0, M)
    G = ranged(I, "g", 0, INT("G"))

    def go():
        a = Arr(Buf((M,), lambda ix: T.app("ul", *ix)))
        b = Arr(Buf((M,), lambda ix: T.app("ur", *ix)))
        f = I.np.asarr(I.call(fn(I, "advection_physics", "riemann_upwinding"), [a, b], {}))
        chk.prove_eq("advection: one flux value per face", f.shape[0], M, hyps=list(I.pc))
        chk.prove("advection: the flux of equal states is that state", T.implies(T.eq(T.app("ul", j), T.app("ur", j)), T.eq(f.at(j), T.app("ul", j))),
                  list(I.pc), func="dg1d.advection_physics.riemann_upwinding")
        ug = Arr(Buf((INT("G"), M), lambda ix: T.app("ug", *ix)))
        h = I.np.asarr(I.call(fn(I, "advection_physics", "interior_flux"), [ug], {}))
        chk.prove_eq("advection: the volume flux is u", h.at(G, j), T.app("ug", G, j), hyps=list(I.pc), func="dg1d.advection_physics.interior_flux")
    chk.run(I, go, "advection")


def volume(chk):
    I, M, i = euler(chk)
    G = INT("G")
    g = ranged(I, "g", 0, G)
    rho, v, E = (lambda n: lambda *ix: T.app(n, *ix))("r"), lambda *ix: T.app("v", *ix), lambda *ix: T.app("E", *ix)
    I.lemmas.append(positive("r"))

    def go():
        def f(idx):
            gg, j = idx
            k, e = T.imod(j, T.const(3)), T.idiv(j, T.const(3))
            return T.ite(T.eq(k, 0), rho(gg, e), T.ite(T.eq(k, 1), mul(rho(gg, e), v(gg, e)), E(gg, e)))
        u = Arr(Buf((G, T.scale(F(3), M)), f))
        h = I.np.asarr(I.call(fn(I, "euler_physics", "interior_flux"), [u], {}))
        r, w, e = rho(g, i), v(g, i), E(g, i)
        p = mul(sub(GAMMA, ONE), sub(e, sc("1/2", mul(r, w, w))))
        want = [mul(r, w), add(mul(r, w, w), p), mul(add(e, p), w)]
        for k in range(3):
            chk.prove_eq("volume flux component %d" % k, h.at(g, T.add(T.scale(F(3), i), K(k))), want[k],
                         hyps=list(I.pc), func="dg1d.euler_physics.interior_flux", quants=list(I.lemmas))
    chk.run(I, go, "volume flux", quants=list(I.lemmas))


def consistency(chk, f):
    I, M, i = euler(chk)
    use_massflux(I)
    left = right = L_

    def go():
        h = call_flux(I, f, M, left, right)
        want = L_(i).flux()
        chk.prove_eq(f + ": one flux per face and field", h.shape[0], T.scale(F(3), M), hyps=list(I.pc))
        for k in range(3):
            chk.prove_eq("%s: flux of equal states, component %d" % (f, k), h.at(T.add(T.scale(F(3), i), K(k))), want[k],
                         hyps=list(I.pc), func="dg1d.euler_physics.riemann_" + f, quants=list(I.lemmas))
    chk.run(I, go, "consistency " + f, quants=list(I.lemmas))


def locality(chk, f):
    """the flux of face i is a function of the two states at face i: every state value its final symbolic value mentions,
    through loops included, is read at face i"""
    I, M, i = euler(chk)
    use_massflux(I)
    names = {x + s for x in "qva" for s in "LR"}

    def go():
        h = call_flux(I, f, M, L_, R_)
        for k in range(3):
            v = h.at(T.add(T.scale(F(3), i), K(k)))
            bad = [x for x in T.all_apps(v) if x.val in names and not I.implied(T.eq(x.args[0], i))]
            bad += [x for x in T.all_apps(v) if re.match(r"loop\d|lv|OLD", x.val)]
            chk.require("%s: flux %d of a face depends on its own two states only" % (f, k), not bad, "dg1d.euler_physics.riemann_" + f,
                        "also reads %s" % [T.show(b) for b in bad[:3]])
    for o in chk.run(I, go, "locality " + f, quants=list(I.lemmas), normal=False):
        if o.kind not in ("normal", "ret"):
            chk.require("%s: the only other outcome is the stop with an error" % f, f == "godunov" and o.kind == "exit")
