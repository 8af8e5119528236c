from common import *
import dg1d.rk as rk
import dg1d.deck as deckm
import dg1d.limiting as limiting
import dg1d.basis as basis
import dg1d.enhance as enhance
import dg1d.advection_physics as adv
import dg1d.euler_physics as eul

RK = ("rk3", "rk4", "rk5", "rk6", "rk8", "rk10", "rk12", "rk14", "low_storage_rk4", "none")


def flux_of(system, riemann):
    if system == "advection":
        return adv.riemann_upwinding
    return {"roe": eul.riemann_roe, "rusanov": eul.riemann_rusanov, "godunov": eul.riemann_godunov}[riemann]


def iflux_of(system):
    return adv.interior_flux if system == "advection" else eul.interior_flux


def state(case):
    R = rng(case)
    sol = new(case["system"], case["N"], case["p"], case.get("riemann", "roe"), case.get("enhance", ""),
              case.get("thresholds"))
    sol.u = smooth_u(R, case["system"], case["N"], case["p"])
    sol.bc_l, sol.bc_r = case.get("bc", ["periodic", "periodic"])
    sol.u = ghosts(sol.u, sol.N_F, sol.bc_l, sol.bc_r)
    if not admissible(sol):
        raise Skip()
    # the ghost columns hold something else before the call
    nf = sol.N_F
    if case.get("stale", True):
        sol.u[:, :nf] *= 1.5
        sol.u[:, -nf:] *= 0.5
    return sol


def mesh_case(R, i, pmax=6, nmax=9):
    system = R.choice(["advection", "euler"])
    p = i % (pmax + 1) if i < 14 else R.randint(0, pmax)
    N = 1 + i % 4 if i < 14 else R.randint(1, nmax)
    bcs = ["periodic", "zerograd"]
    return dict(system=system, p=p, N=N, riemann=R.choice(FLUXES), seed=seeds(R),
                bc=[R.choice(bcs), R.choice(bcs)] if R.random() < 0.5 else [b := R.choice(bcs), b])


def enh(R, p):
    m = sorted(R.sample(range(p + 1), R.randint(1, min(p + 1, 3))))
    R.shuffle(m)
    return "icb " + " ".join(map(str, m))


# ---------------------------------------------------------------- C01
def g01(R, hints):
    i = 0
    while True:
        c = mesh_case(R, i)
        c["mode"] = R.choice(["residual", "residual", "enhanced", "steps"])
        if c["mode"] == "enhanced":
            c["enhance"] = enh(R, c["p"])
        if c["mode"] == "steps":
            c["p"], c["N"] = R.randint(0, 3), R.randint(2, 8)
            c["bc"] = ["periodic", "periodic"]
            c["rk"] = R.choice(RK)
            c["limit"] = R.choice(["", "adaptive_hr"])
            c["thresholds"] = [R.choice([1e-6, 0.05]), R.choice([1e-6, 0.05])]
        i += 1
        yield c


def r01(case):
    sol = state(case)
    nf, N = sol.N_F, sol.N_E
    if case["mode"] == "steps":
        sol.u = ghosts(sol.u, nf, sol.bc_l, sol.bc_r)
        tot = lambda: np.array([sol.dx * sol.u[0, nf + f:-nf:nf].sum() for f in range(nf)])
        sc = sol.dx * np.abs(sol.u[0, :]).sum()
        t0 = tot()
        dk = deckm.Deck()
        dk.rk, dk.nout, dk.cfl = case["rk"], 2, 0.2
        lim = limiting.Limiter(case["limit"], sol)
        dgs = dg.DG(sol)
        sol.printer = lambda *a: None
        dt = rk.cfl_time_step(sol, dk.cfl)
        dk.finaltime = 2.5 * dt
        bad = []
        try:
            rk.integrate(sol, dk, dgs, lim)
        except SystemExit:
            raise Skip()
        if not np.all(np.isfinite(sol.u)):
            raise Skip()
        t1 = tot()
        if not np.all(np.abs(t1 - t0) <= 1e-9 * sc):
            return "mesh totals changed from %s to %s in %d steps" % (t0.tolist(), t1.tolist(), sol.n)
        return None
    dgs = dg.DG(sol)
    try:
        F = np.array(dgs.residual(sol))
    except SystemExit:
        raise Skip()
    u = ghosts(sol.u, nf, sol.bc_l, sol.bc_r)
    fl = flux_of(case["system"], case["riemann"])
    if case["mode"] == "enhanced":
        uf = np.array(sol.evaluate_faces())
        q = fl(uf[1, :-nf].copy(), uf[0, nf:].copy())
    else:
        _, q = weak_form(sol, u, fl, iflux_of(case["system"]))
    if not np.all(np.isfinite(q)):
        raise Skip()
    rate = sol.dx * F[0, :]
    sc = np.max(np.abs(q)) + 1e-12
    for f in range(nf):
        tot = rate[nf + f:-nf:nf].sum()
        if abs(tot - (q[f] - q[N * nf + f])) > 1e-8 * sc * N:
            return "field %d: d/dt integral %r but flux difference of the ends is %r" % (f, tot, q[f] - q[N * nf + f])
        if case["bc"] == ["periodic", "periodic"] and case["mode"] == "residual" and abs(tot) > 1e-8 * sc * N:
            return "field %d: integral changes at rate %r with periodic ends" % (f, tot)
        for e in range(1, N + 1):
            want = q[(e - 1) * nf + f] - q[e * nf + f]
            if abs(rate[e * nf + f] - want) > 1e-8 * sc:
                return "cell %d field %d: rate %r but face fluxes differ by %r" % (e, f, rate[e * nf + f], want)


# ---------------------------------------------------------------- C02
def g02(R, hints):
    i = 0
    while True:
        c = mesh_case(R, i, 8)
        c["custom"] = R.random() < 0.6
        i += 1
        yield c


def custom_flux(ul, ur):
    return np.sin(0.7 * ul) + 0.3 * ul * ur - 0.2 * ur ** 2


def custom_iflux(u):
    return np.cos(u) + 0.3 * u ** 2


def r02(case):
    sol = state(case)
    fl, ifl = flux_of(case["system"], case["riemann"]), iflux_of(case["system"])
    if case["custom"]:
        if not isinstance(getattr(sol, "keywords", None), dict) or "riemann" not in sol.keywords or "interior_flux" not in sol.keywords:
            raise Skip()
        sol.keywords["riemann"], sol.keywords["interior_flux"] = custom_flux, custom_iflux
        fl, ifl = custom_flux, custom_iflux
    u0 = ghosts(sol.u, sol.N_F, sol.bc_l, sol.bc_r)
    dgs = dg.DG(sol)
    try:
        dgs.residual(new_like(sol, case))      # an earlier call with other data must not matter
        F = np.array(dgs.residual(sol))
    except SystemExit:
        raise Skip()
    try:
        want, q = weak_form(sol, u0, fl, ifl)
    except SystemExit:
        raise Skip()
    nf = sol.N_F
    if not np.all(np.isfinite(want)):
        raise Skip()
    sc = max(np.max(np.abs(want)), (2 * case["p"] + 1) / sol.dx * np.max(np.abs(q)), 1e-12)
    if not close(F[:, nf:-nf], want[:, nf:-nf], 1e-8, scale=sc):
        d = np.abs(F - want)[:, nf:-nf]
        i = np.unravel_index(np.argmax(d), d.shape)
        return "mode %d, column %d: computed %r, weak form %r" % (i[0], i[1] + nf, F[i[0], i[1] + nf], want[i[0], i[1] + nf])


def new_like(sol, case):
    s = sol.copy()
    s.u = sol.u * 1.0
    s.u[0, :] *= 1.25
    return s


# ---------------------------------------------------------------- C03
def g03(R, hints):
    i = 0
    while True:
        c = mesh_case(R, i, 8)
        c["mode"] = R.choice(["residual", "residual", "limit"])
        if c["mode"] == "limit":
            c["p"] = min(c["p"], 6)
            c["thresholds"] = [-1.0, -1.0] if R.random() < 0.7 else [0.1, 0.1]
        i += 1
        yield c


def r03(case):
    R = rng(case)
    sol = new(case["system"], case["N"], case["p"], case["riemann"], "", case.get("thresholds"))
    sol.bc_l, sol.bc_r = case["bc"]
    nf = sol.N_F
    w = np.array([R.uniform(-3, 3)]) if nf == 1 else prim(*rand_prim(R))
    sol.u = np.zeros_like(sol.u)
    sol.u[0, :] = np.tile(w, case["N"] + 2)
    if case["mode"] == "limit":
        lim = limiting.Limiter("adaptive_hr", sol)
        before = sol.u.copy()
        lim.limit(sol)
        if not close(sol.u, before, 1e-10):
            return "limiting changed a uniform state %s by %r" % (w.tolist(), float(np.max(np.abs(sol.u - before))))
        return None
    sol.u[:, :nf] = 0.77
    sol.u[:, -nf:] = 0.77
    F = np.array(dg.DG(sol).residual(sol))
    fl = w if nf == 1 else phys(w)
    sc = (2 * case["p"] + 1) ** 2 / sol.dx * max(np.max(np.abs(fl)), np.max(np.abs(w)) * (1 if nf == 1 else sound(w) + 1))
    tol = 1e-10 if case["riemann"] != "godunov" else 1e-8
    d = float(np.max(np.abs(F[:, nf:-nf])))
    if not d <= tol * sc:
        return "uniform state %s has time derivative %r" % (w.tolist(), d)


# ---------------------------------------------------------------- C04
def g04(R, hints):
    i = 0
    while True:
        c = mesh_case(R, i, 4)
        c["bc"] = [R.choice(["periodic", "zerograd"]), R.choice(["periodic", "zerograd"])]
        c["load"] = R.random() < 0.3 and c["N"] >= 2
        i += 1
        yield c


def r04(case):
    sol = state(case)
    sol.bc_l = "".join(list(case["bc"][0]))
    sol.bc_r = "".join(list(case["bc"][1]))
    if case["load"]:
        sol.printer(3, 0.0)
        s2 = new(case["system"], case["N"] + 1, case["p"], case["riemann"])
        s2.loader(3)
        u0 = sol.u.copy()
        sol = s2
    else:
        u0 = sol.u.copy()
    nf = sol.N_F
    sol.apply_bc()
    want = ghosts(u0, nf, case["bc"][0], case["bc"][1])
    if sol.u.shape != want.shape or not np.array_equal(sol.u, want):
        return "after apply_bc with %s: ghost or interior columns differ from the rule" % (case["bc"],)


# ---------------------------------------------------------------- C22
def g22(R, hints):
    i = 0
    while True:
        p = i % 5 if i < 15 else R.randint(0, 4)
        c = dict(p=p, enhance=enh(R, p), seed=seeds(R), N=R.randint(1, 4), nf=R.choice([1, 3]),
                 mode=R.choice(["poly", "free"]))
        i += 1
        yield c


def modes_of(poly, c, p):
    """Legendre modes of poly (of the reference variable of cell 0) on the cell centred at 2c"""
    x, w = gauss(p + len(poly) + 2)
    y = poly(x + 2 * c)
    return np.array([(2 * n + 1) / 2 * np.sum(w * P(n, x) * y) for n in range(p + 1)])


def enhanced_poly(own, neigh, modes, p, shift):
    """coefficients of the unique polynomial with the own modes and the selected neighbour modes"""
    deg = p + len(modes)
    A = np.zeros((deg + 1, deg + 1))
    b = np.zeros(deg + 1)
    x, w = gauss(deg + 2)
    for n in range(p + 1):
        for j in range(deg + 1):
            A[n, j] = (2 * n + 1) / 2 * np.sum(w * P(n, x) * P(j, x))
        b[n] = own[n]
    for i, m in enumerate(modes):
        for j in range(deg + 1):
            A[p + 1 + i, j] = (2 * m + 1) / 2 * np.sum(w * P(m, x) * P(j, x + shift))
        b[p + 1 + i] = neigh[m]
    return np.linalg.solve(A, b), A


def r22(case):
    R = rng(case)
    p, N, nf = case["p"], case["N"], case["nf"]
    modes = sorted(int(x) for x in case["enhance"].split()[1:])
    deg = p + len(modes)
    E = enhance.Enhance(p, case["enhance"], (N + 2) * nf)
    if case["mode"] == "poly":
        u = np.zeros((p + 1, (N + 2) * nf))
        facev = np.zeros((N + 1, nf))
        k = R.randint(0, N + 1)
        for f in range(nf):
            co = R.uniform(-1, 1, deg + 1)
            poly = lambda y: sum(c * (y / 3.0) ** i for i, c in enumerate(co))
            for e in range(N + 2):
                x, w = gauss(deg + 2)
                y = poly(x + 2 * (e - k))
                u[:, e * nf + f] = [(2 * n + 1) / 2 * np.sum(w * P(n, x) * y) for n in range(p + 1)]
            for e in range(N + 1):
                facev[e, f] = poly(2 * (e - k) + 1.0)
        uf = np.array(E.face_value(u, nf))
        sc = np.max(np.abs(facev)) + np.max(np.abs(u))
        for e in range(N + 1):
            for f in range(nf):
                for row, col, nm in ((1, e * nf + f, "left"), (0, (e + 1) * nf + f, "right")):
                    if not abs(uf[row, col] - facev[e, f]) <= 1e-6 * sc:
                        return "%s trace at face %d: %r, polynomial value %r" % (nm, e, uf[row, col], facev[e, f])
        return None
    u = R.uniform(-1, 1, (p + 1, (N + 2) * nf))
    uf = np.array(E.face_value(u, nf))
    for e in range(N + 1):
        for f in range(nf):
            L, Rr = u[:, e * nf + f], u[:, (e + 1) * nf + f]
            c, A = enhanced_poly(L, Rr, modes, p, 2.0)
            if np.linalg.cond(A) > 1e7:
                raise Skip()
            want = sum(c[j] for j in range(deg + 1))
            if not abs(uf[1, e * nf + f] - want) <= 1e-6 * (1 + np.max(np.abs(c))):
                return "left trace at face %d: %r, expected %r" % (e, uf[1, e * nf + f], want)
            c, A = enhanced_poly(Rr, L, modes, p, -2.0)
            want = sum(c[j] * (-1) ** j for j in range(deg + 1))
            if not abs(uf[0, (e + 1) * nf + f] - want) <= 1e-6 * (1 + np.max(np.abs(c))):
                return "right trace at face %d: %r, expected %r" % (e, uf[0, (e + 1) * nf + f], want)


# ---------------------------------------------------------------- C23
def g23(R, hints):
    for p in range(0, 31):
        yield dict(mode="tables", p=p, seed=0)
    while True:
        yield dict(mode=R.choice(["shift", "product"]), p=R.randint(0, 12), seed=seeds(R))


def r23(case):
    p = case["p"]
    R = rng(case)
    Lg = np.polynomial.Legendre
    if case["mode"] == "tables":
        b = basis.Basis(p)
        n = np.arange(p + 1)
        x, w = np.asarray(b.x), np.asarray(b.w)
        if len(x) != p + 1 or not close(P(p + 1, x), np.zeros(p + 1), 1, scale=1e-10 * (p + 1) ** 2):
            return "quadrature points are not the p+1 Gauss points"
        for k in range(2 * p + 2):
            ex = 2.0 / (k + 1) if k % 2 == 0 else 0.0
            if abs(np.sum(w * x ** k) - ex) > 1e-11:
                return "quadrature rule not exact for x^%d" % k
        ph = np.array([P(k, x) for k in n])
        dph = np.array([dP(k, x) for k in n])
        if not close(b.phi, ph.T, 1e-10):
            return "evaluation table"
        if not close(b.dphi_w, dph * w, 1e-10, scale=max(np.max(np.abs(dph * w)), 1)):
            return "gradient table"
        if not close(b.psi, np.array([(-1.0) ** n, np.ones(p + 1)]), 1e-14):
            return "face table"
        if not close(b.m, 2.0 / (2 * n + 1), 1e-14) or not close(b.minv, (2 * n + 1) / 2.0, 1e-14):
            return "mass table"
        if b.p != p or b.N_s != p + 1 or b.N_G != p + 1:
            return "sizes"
        return None
    c1 = R.uniform(-1, 1, p + 1)
    if case["mode"] == "shift":
        s = float(R.choice([2, -2, 0.5, 1, -3, R.uniform(-3, 3)]))
        l = Lg(c1)
        ls = basis.shift_legendre_polynomial(l, s)
        y = R.uniform(-1, 1, 5)
        want = sum(c1[k] * P(k, y + s) for k in range(p + 1))
        sc = sum(abs(c1[k]) * abs(P(k, 1 + abs(s))) for k in range(p + 1))
        got = sum(ls.coef[k] * P(k, y) for k in range(len(ls.coef)))
        if not close(got, want, 1e-9, scale=sc):
            return "shift by %r: %s instead of %s" % (s, got, want)
        return None
    q = R.randint(0, 9)
    c2 = R.uniform(-1, 1, q + 1)
    got = basis.integrate_legendre_product(Lg(c1), Lg(c2))
    want = sum(c1[k] * c2[k] * 2.0 / (2 * k + 1) for k in range(min(p, q) + 1))
    if not abs(got - want) <= 1e-8 * (p + q + 2):
        return "product integral %r instead of %r" % (got, want)


# ---------------------------------------------------------------- C24
def g24(R, hints):
    i = 0
    while True:
        c = mesh_case(R, i, 4, 6)
        c["mode"] = R.choice(["eval", "residual", "copy", "copylimit"])
        c["thresholds"] = [0.05, 0.05]
        if R.random() < 0.5:
            c["enhance"] = enh(R, c["p"])
        i += 1
        yield c


def snap(sol):
    return dict(u=sol.u.copy(), t=sol.t, n=sol.n, x=sol.x.copy(), xc=sol.xc.copy(), dx=sol.dx, bc=(sol.bc_l, sol.bc_r),
                m=sol.scaled_minv.copy(), phi=sol.basis.phi.copy(), psi=sol.basis.psi.copy(), d=sol.basis.dphi_w.copy())


def differs(a, b, ghosts_free=0):
    for k in a:
        if k == "u" and ghosts_free:
            if a[k].shape != b[k].shape or not np.array_equal(a[k][:, ghosts_free:-ghosts_free], b[k][:, ghosts_free:-ghosts_free]):
                return k
        elif not (np.array_equal(a[k], b[k]) if isinstance(a[k], np.ndarray) else a[k] == b[k]):
            return k
    return None


def r24(case):
    sol = state(dict(case, stale=False))
    nf = sol.N_F
    if case["mode"] == "eval":
        s0 = snap(sol)
        for nm, f in (("collocate", sol.collocate), ("evaluate_faces", sol.evaluate_faces),
                      ("max_wave_speed", sol.max_wave_speed), ("sensing", lambda: sol.sensors.sensing(sol)),
                      ("interior_flux", lambda: sol.interior_flux(sol.collocate())),
                      ("riemann", lambda: sol.riemann(sol.evaluate_faces()[1, :-nf], sol.evaluate_faces()[0, nf:]))):
            try:
                r = f()
            except SystemExit:
                raise Skip()
            d = differs(s0, snap(sol))
            if d:
                return "%s changed %s of the solution" % (nm, d)
        # fluxes leave their arguments alone
        uf = np.array(sol.evaluate_faces())
        a, b = uf[1, :-nf].copy(), uf[0, nf:].copy()
        a0, b0 = a.copy(), b.copy()
        try:
            sol.riemann(a, b)
        except SystemExit:
            raise Skip()
        if not (np.array_equal(a, a0) and np.array_equal(b, b0)):
            return "riemann changed its arguments"
        g = sol.collocate()
        g0 = g.copy()
        sol.interior_flux(g)
        if not np.array_equal(g, g0):
            return "interior_flux changed its argument"
        return None
    if case["mode"] == "residual":
        s0 = snap(sol)
        sen = sol.sensors.sensors.copy()
        try:
            F = dg.DG(sol).residual(sol)
        except SystemExit:
            raise Skip()
        d = differs(s0, snap(sol), nf)
        if d:
            return "residual changed %s beyond ghost cells" % d
        if not np.array_equal(sen, sol.sensors.sensors):
            return "residual changed the sensors"
        F[...] = 7.0
        d = differs(s0, snap(sol), nf)
        if d:
            return "the returned time derivative aliases %s" % d
        return None
    c = sol.copy()
    s0 = snap(sol)
    sen = sol.sensors.sensors.copy()
    dgs = dg.DG(c)
    try:
        if case["mode"] == "copy":
            F0 = np.array(dg.DG(sol).residual(sol))
            s0 = snap(sol)
            own, pts = sol.evaluate_faces(), sol.collocate()
            own0, pts0 = own.copy(), pts.copy()
            c.u *= 1.1
            c.t += 1
            c.apply_bc()
            c.evaluate_faces()
            c.collocate()
            if not (np.array_equal(own, own0) and np.array_equal(pts, pts0)):
                return "evaluating a copy changed the traces or point values of the original"
            dgs.residual(c)
            c.sensors.sensing(c)
            d = differs(s0, snap(sol))
            if d:
                return "changing a copy changed %s of the original" % d
            if not np.array_equal(sen, sol.sensors.sensors):
                return "sensing a copy changed the sensors of the original"
            # the copy's faces are evaluated from the copy's own coefficients
            c2 = sol.copy()
            ref = np.array(sol.evaluate_faces())
            c2.u[...] = 1.3 * sol.u
            got = np.array(c2.evaluate_faces())
            if not close(got, 1.3 * ref, 1e-9, scale=np.max(np.abs(ref)) + 1e-9):
                return "the copy's face values are not those of the copy"
            sol.u[...] = 0.5 * sol.u
            got2 = np.array(c2.evaluate_faces())
            if not np.array_equal(got, got2):
                return "changing the original changed the copy's face values"
        else:
            lim = limiting.Limiter("adaptive_hr", sol)
            lim.limit(c)
            d = differs(s0, snap(sol))
            if d:
                return "limiting a copy changed %s of the original" % d
            if not np.array_equal(sen, sol.sensors.sensors):
                return "limiting a copy changed the sensors of the original"
            c.u[...] = 3
            d = differs(s0, snap(sol))
            if d:
                return "writing to a limited copy changed %s of the original" % d
            c3 = new(case["system"], case["N"], case["p"], case["riemann"])
            c3.copy_data_only(sol)
            c3.u[...] = 9
            if differs(s0, snap(sol)):
                return "copy_data_only shares data"
    except SystemExit:
        raise Skip()


# ---------------------------------------------------------------- C26
def g26(R, hints):
    i = 0
    while True:
        c = mesh_case(R, i, 9, 12)
        c["system"] = "advection"
        c["bc"] = ["periodic", "periodic"]
        i += 1
        yield c


def r26(case):
    sol = state(case)
    F = np.array(dg.DG(sol).residual(sol))
    u = ghosts(sol.u, 1, "periodic", "periodic")
    p, N = case["p"], case["N"]
    n = np.arange(p + 1)
    rate = 2 * sol.dx * np.sum((u * F) / (2 * n + 1)[:, None], axis=0)
    right = u.sum(axis=0)
    left = ((-1.0) ** n).dot(u)
    sc = np.max(np.abs(right)) ** 2 + np.max(np.abs(left)) ** 2 + 1e-12
    tot = rate[1:-1].sum()
    if tot > 1e-8 * sc * N:
        return "energy grows at rate %r" % tot
    for e in range(1, N + 1):
        want = right[e - 1] ** 2 - right[e] ** 2 - (left[e] - right[e - 1]) ** 2
        if not rate[e] <= want + 1e-8 * sc * (p + 1):
            return "cell %d: energy rate %r exceeds %r" % (e, rate[e], want)


PROPS = {
    "C01": (g01, r01, "distinct (mesh, order, system, flux, ends, data, mode) parameter sets"),
    "C02": (g02, r02, "distinct (mesh, order, system, flux, ends, data) parameter sets"),
    "C03": (g03, r03, "distinct (state, mesh, order, system, flux, ends) parameter sets"),
    "C04": (g04, r04, "distinct (mesh, order, ends, data, fresh/loaded) parameter sets"),
    "C22": (g22, r22, "distinct (order, mode set, data) parameter sets"),
    "C23": (g23, r23, "orders 0..30 once, then random series"),
    "C24": (g24, r24, "distinct (operation, solution) parameter sets"),
    "C26": (g26, r26, "distinct (mesh, order, data) parameter sets"),
}
