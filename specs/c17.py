from .common import *

FN = {1: ("u",), 3: ("rho", "rhou", "E")}


def spec(chk):
    top = 6 if chk.thorough else 3
    chk.tasks([("%s order %d" % (s[0], p), lambda s=s, p=p: one(chk, s, p, sensing)) for s in SYSTEMS for p in range(top + 1) for sensing in ((False, True) if p < 2 else (False,))])
    chk.bound("orders 0 to %d enumerated; every number of cells from 2, every coefficient, time, step number, output number and boundary name" % top)
    chk.assume_note("a number formatted with 17 or more significant digits reads back exactly; numpy's text writer and reader lay out one line per row (virtual file system)")
    chk.assume_note("boundary names contain no blanks, commas or equals signs; at least two cells (one data line alone cannot be told from a row)")


def one(chk, s, p, sensing):
    system, nf, ic = s
    I = chk.interp()
    N, N2 = INT("N"), INT("N2")
    I.assume(T.le(2, N))
    I.assume(T.le(2, N2))
    step, num = INT("step"), INT("num")
    I.assume(T.le(0, step))
    I.assume(T.le(0, num))
    I.hooks["plain_strings"] = True
    bl, br = T.var("bc_l", "S"), T.var("bc_r", "S")
    t = R("t")
    e, m = ranged(I, "e", 0, N), ranged(I, "m", 0, p + 1)
    i = ranged(I, "i", 0, T.add(N, K(1)))
    chk.cover(I.pc, "a mesh")
    L = "%s order %d%s: " % (system, p, " with sensors" if sensing else "")
    use_flux_contracts(I, nf)

    def key(field):
        return StrVal([field, I.fmt(step, "010d").parts[0], ".dat"]).key()

    def go():
        I.vfs = Cell()
        hset(I.vfs, "files", {})
        sol = new_solution(I, system, ic, N, p, thresholds=[R("th0"), R("th1")] if sensing else None)
        I.simplify_on()
        arbitrary(I, sol)
        for k, v in (("t", t), ("n", num), ("bc_l", bl), ("bc_r", br)):
            I.setattr(sol, k, v)
        if sensing:
            sn = I.getattr(sol, "sensors")
            I.setattr(sn, "sensors", Arr(Buf((T.add(N, K(2)),), lambda ix: T.app("flag", *ix, sort="I"), "i")))
        dx, x, xc, minv = (I.getattr(sol, k) for k in ("dx", "x", "xc", "scaled_minv"))
        xr, xcr, mr = x.reader(), xc.reader(), I.np.asarr(minv).reader()
        I.call(I.getattr(sol, "printer"), [step, R("dt")], {})
        W = dict(hyps=list(I.pc), func="dg1d.solution.Solution.printer")
        files = I.vfs.d["files"]
        want = [key(f) for f in FN[nf]] + ([key("sensor")] if sensing else [])
        chk.require(L + "one file per field%s, named after the output number" % (" and one for the sensors" if sensing else ""), set(files) == set(want),
                    W["func"], "%r" % (list(files),))
        for q, f in enumerate(FN[nf]):
            tb = files[key(f)]["table"]
            chk.require(L + "%s is a table" % f, tb is not None, W["func"])
            chk.prove_eq(L + "%s: one line per interior cell" % f, tb["n"], N, **W)
            chk.prove_eq(L + "%s: centroid and all modes on a line" % f, tb["m"], K(p + 2), **W)
            d = I.np.asarr(I.loadtxt(StrVal([f, I.fmt(step, "010d").parts[0], ".dat"]), delimiter=tb["delim"].strip() or None))
            chk.prove_eq(L + "%s: the line starts with the centroid" % f, d.at(e, K(0)), xcr((e,)), **W)
            col = T.add(T.scale(F(nf), T.add(e, K(1))), K(q))
            chk.prove_eq(L + "%s: then all modes of the interior cell, in full precision" % f, d.at(e, T.add(m, K(1))), T.app("u", m, col), **W)
        if sensing:
            tb = files[key("sensor")]["table"]
            chk.prove_eq(L + "sensor file: one line per interior cell", tb["n"], N, **W)
            chk.prove_eq(L + "sensor file: centroid and flag", tb["m"], K(2), **W)
            chk.prove_eq(L + "sensor file: the flag of that interior cell", tb["at"]((e, K(1))), T.toR(T.app("flag", T.add(e, K(1)), sort="I")), **W)
            chk.require(L + "sensor file: flags are written as integers", tb["specs"][1].endswith("d") or tb["specs"][1] in ("%.18e", "%g", "%.0f"), W["func"])
        # reload into another solution
        s2 = new_solution(I, system, ic, N2, 1)
        I.call(I.getattr(s2, "loader"), [step], {})
        kw = dict(hyps=list(I.pc), func="dg1d.solution.Solution.loader")
        get = lambda a: I.getattr(s2, a)
        for nm, a, b in (("step number", get("n"), num), ("time", get("t"), t), ("left boundary condition", get("bc_l"), bl),
                         ("right boundary condition", get("bc_r"), br), ("number of cells", get("N_E"), N), ("cell size", get("dx"), dx)):
            chk.prove_eq(L + "reloaded " + nm, a, b, **kw)
        chk.require(L + "reloaded order", T.const(I.getattr(get("basis"), "p")) is K(p), kw["func"])
        chk.prove_eq(L + "reloaded mesh points", I.np.asarr(get("x")).at(i), xr((i,)), **kw)
        chk.prove_eq(L + "reloaded number of mesh points", I.np.asarr(get("x")).shape[0], T.add(N, K(1)), **kw)
        chk.prove_eq(L + "reloaded centroids", I.np.asarr(get("xc")).at(e), xcr((e,)), **kw)
        chk.prove_eq(L + "reloaded scaled inverse mass", I.np.asarr(get("scaled_minv")).at(m), mr((m,)), **kw)
        u2 = I.np.asarr(get("u"))
        chk.prove_eq(L + "reloaded number of modes", u2.shape[0], K(p + 1), **kw)
        chk.prove_eq(L + "reloaded number of columns", u2.shape[1], T.scale(F(nf), T.add(N, K(2))), **kw)
        for q in range(nf):
            col = T.add(T.scale(F(nf), T.add(e, K(1))), K(q))
            chk.prove_eq(L + "reloaded coefficients of field %d" % q, u2.at(m, col), T.app("u", m, col), **kw)
        # same behaviour: both boundary names known
        for bc in ("periodic", "zerograd"):
            I.setattr(sol, "bc_l", bc)
            I.setattr(sol, "bc_r", bc)
            I.setattr(s2, "bc_l", bc)
            I.setattr(s2, "bc_r", bc)
            res, faces = [], []
            for o in (sol, s2):
                dgs = I.call(cls(I, "dg", "DG"), [o], {})
                r = I.np.asarr(I.call(I.getattr(dgs, "residual"), [o], {}))
                res.append(Arr(Buf(r.shape, r.reader())))
                r = I.np.asarr(I.call(I.getattr(o, "evaluate_faces"), [], {}))
                faces.append(Arr(Buf(r.shape, r.reader())))
            ua, ub = I.np.asarr(I.getattr(sol, "u")), I.np.asarr(get("u"))
            side, c = ranged(I, "side", 0, 2), ranged(I, "c", 0, T.scale(F(nf), T.add(N, K(2))))
            h = dict(kw, hyps=list(I.pc))
            chk.prove_eq(L + "reloaded solution, %s: same coefficients, ghost cells included" % bc, ub.at(m, c), ua.at(m, c), **h)
            for q in range(nf):
                col = T.add(T.scale(F(nf), T.add(e, K(1))), K(q))
                chk.prove_eq(L + "reloaded solution, %s: same face values of field %d" % (bc, q), faces[1].at(side, col), faces[0].at(side, col), **h)
                chk.prove_eq(L + "reloaded solution, %s: same time derivative of field %d" % (bc, q), res[1].at(m, col), res[0].at(m, col), **h)
    chk.run(I, go, L + "snapshot", defined=True)
