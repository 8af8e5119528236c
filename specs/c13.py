from .flux import *


def spec(chk):
    chk.tasks([("advection", lambda: one(chk, "advection", 1, "sinewave")),
               ("euler", lambda: one(chk, "euler", 3, "entrpyw"))])
    chk.assume_note("Euler: admissible cell averages (positive density and pressure, any velocity), any gamma>1, real Roe sound speed")


def jump(x):
    return div(sc(2, x), mul(add(1, x), add(1, x)))


def adv_crit(I, j, th):
    phi = T.abs_(T.sub(T.app("u", K(0), T.add(j, K(1))), T.app("u", K(0), j)))
    return T.lt(th[0], jump(phi)), T.FALSE


def cell(j):
    return State(T.app("qS", j), T.app("vS", j), T.app("aS", j))


def euler_crit(I, j, th):
    l, r = cell(j), cell(T.add(j, K(1)))
    v, H, a = roe_average(l, r)
    dp = sub(r.p, l.p)
    dV2 = sub(sub(r.rho, l.rho), div(dp, mul(a, a)))
    contact = T.lt(th[0], jump(div(T.abs_(dV2), add(l.rho, r.rho))))
    shock = T.and_(T.lt(th[1], jump(div(T.abs_(dp), add(l.p, r.p)))),
                   T.lt(sub(v, a), sub(l.v, l.a)), T.lt(sub(r.v, r.a), sub(v, a)))
    return contact, shock


def one(chk, system, nf, ic):
    I = chk.interp()
    if nf == 3:
        I.lemmas.append(POS)
    N, p = sym_mesh(I)
    th = [R("th0"), R("th1")]
    e = ranged(I, "e", 0, T.add(N, K(2)))
    s, c = ranged(I, "s", 0, T.add(p, K(1))), ranged(I, "c", 0, T.scale(F(nf), T.add(N, K(2))))
    chk.cover(I.pc, "a mesh and a cell")
    crit = adv_crit if nf == 1 else euler_crit

    def go():
        sol = new_solution(I, system, ic, N, p, thresholds=th)
        I.simplify_on()
        if nf == 3:
            set_gamma(I)
            u = I.getattr(sol, "u")

            def f(idx):
                m, j = idx
                k, q = T.imod(j, K(3)), T.idiv(j, K(3))
                st = cell(q)
                avg = T.ite(T.eq(k, 0), st.u[0], T.ite(T.eq(k, 1), st.u[1], st.u[2]))
                return T.ite(T.eq(m, 0), avg, T.app("u", m, j))
            I.setattr(sol, "u", Arr(Buf(u.shape, f)))
        else:
            arbitrary(I, sol)
        old = I.np.asarr(I.getattr(sol, "u")).at(s, c)
        sn = I.getattr(sol, "sensors")
        was = I.np.asarr(I.getattr(sn, "sensors"))
        chk.prove_eq("one flag per cell, ghosts included", was.shape[0], T.add(N, K(2)), hyps=list(I.pc))
        I.setattr(sn, "sensors", Arr(Buf(was.shape, lambda ix: T.app("flag0", *ix, sort="I"), "i")))
        I.call(I.getattr(sn, "sensing"), [sol], {})
        got = I.np.asarr(I.getattr(sn, "sensors")).at(e)
        kw = dict(hyps=list(I.pc), func="dg1d.%s_physics.sensing" % system, quants=list(I.lemmas))
        prev = T.sub(e, K(1))
        hasl, hasr = T.le(1, e), T.le(e, N)
        cl, sl = crit(I, prev, th)
        cr, sr = crit(I, e, th)
        shock = T.or_(T.and_(hasl, sl), T.and_(hasr, sr))
        contact = T.or_(T.and_(hasl, cl), T.and_(hasr, cr))
        want = T.ite(shock, K(2), T.ite(contact, K(1), K(0)))
        chk.prove_eq(system + ": flag of a cell as documented", got, want, **kw)
        chk.prove_eq(system + ": the solution is not modified", I.np.asarr(I.getattr(sol, "u")).at(s, c), old, **kw)
    chk.run(I, go, "sensing " + system, quants=list(I.lemmas))
