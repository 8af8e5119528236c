from .common import *


def spec(chk):
    for system, nf, ic in SYSTEMS:
        for side in ("left", "right"):
            for bc in ("periodic", "zerograd"):
                with chk.section("apply_bc %s %s %s" % (system, side, bc)):
                    one(chk, system, nf, ic, side, bc)
    chk.assume_note("a boundary name other than periodic/zerograd leaves that side's ghost cell unspecified (the code prints an error)")


def one(chk, system, nf, ic, side, bc):
    I = chk.interp()
    N, p = sym_mesh(I)
    s = INT("s")
    f = INT("f")
    j = INT("j")
    I.assume(T.and_(T.le(0, s), T.le(s, p), T.le(0, f), T.lt(f, nf), T.le(0, j), T.lt(j, T.scale(F(nf), N))))
    # the names are run-time strings: nothing but their value is known; the other side's name is arbitrary
    bl, br = T.var("bc_l", "S"), T.var("bc_r", "S")
    I.assume(T.eq(bl if side == "left" else br, T.const(bc)))
    chk.cover(I.pc, "a solution with %s %s" % (side, bc))
    L = "%s, %s side %s: " % (system, side, bc)

    def go():
        sol = new_solution(I, system, ic, N, p)
        arbitrary(I, sol)
        I.setattr(sol, "bc_l", bl)
        I.setattr(sol, "bc_r", br)
        I.call(I.getattr(sol, "apply_bc"), [], {})
        u = I.np.asarr(I.getattr(sol, "u"))
        old = lambda a, b: T.app("u", a, b)
        first = T.add(T.const(nf), f)
        last = T.add(T.scale(F(nf), N), f)
        src = {("left", "periodic"): last, ("left", "zerograd"): first,
               ("right", "periodic"): first, ("right", "zerograd"): last}[(side, bc)]
        dst = f if side == "left" else T.add(T.scale(F(nf), T.add(N, T.const(1))), f)
        kw = dict(hyps=list(I.pc), func="dg1d.solution.Solution.apply_bc")
        chk.prove_eq(L + "shape unchanged", u.shape[1], T.scale(F(nf), T.add(N, T.const(2))), **kw)
        chk.prove_eq(L + "ghost cell equals its source cell", u.at(s, dst), old(s, src), **kw)
        chk.prove_eq(L + "interior cells unchanged", u.at(s, T.add(T.const(nf), j)), old(s, T.add(T.const(nf), j)), **kw)
    chk.run(I, go, L + "apply_bc")
