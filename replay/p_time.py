from common import *
import dg1d.rk as rk
import dg1d.rk_coeffs as rkc
import dg1d.deck as deckm
import dg1d.limiting as limiting
from p_scheme import state, mesh_case, RK, enh
import trees

STAGES = {"rk3": 3, "rk4": 4, "rk5": 5, "rk6": 6, "rk8": 8, "rk10": 10, "rk12": 12, "rk14": 14}


def tables(name):
    c, a, b = getattr(rkc, "get_%s_coefficients" % name)()
    c, a = np.array(c, float), np.array(a, float)
    s = len(c)
    B = np.zeros((s, s))
    b = np.array(b, float)
    B[:b.shape[0], :b.shape[1]] = b
    return c, a, B


# ---------------------------------------------------------------- C09
def g09(R, hints):
    i = 0
    while True:
        c = mesh_case(R, i, 6, 8)
        c["mode"] = ("dt", "dt", "stop", "nan", "run")[i % 5]
        c["cfl"] = R.choice([0.5, 0.1, 1.0, 0.05, 2.0])
        i += 1
        yield c


def r09(case):
    sol = state(dict(case, bc=["periodic", "periodic"], stale=True))
    nf = sol.N_F
    if nf == 1:
        s = 1.0
    else:
        u = sol.u[0, :]
        s = 0.0
        for e in range(case["N"] + 2):
            r, v, p = wstate(u[3 * e:3 * e + 3])
            if p <= 0 or r <= 0:
                raise Skip()
            s = max(s, abs(v) + math.sqrt(constants.gamma * p / r))
    want = case["cfl"] * sol.dx / ((2 * case["p"] + 1) * s)
    if case["mode"] == "dt":
        dt = rk.cfl_time_step(sol, case["cfl"])
        if not abs(dt - want) <= 1e-12 * want:
            return "time step %r, expected %r" % (dt, want)
        # a later pending output may only shorten it
        d2, out, done = rk.get_next_time_step(sol, sol.t + 1e9, case["cfl"], sol.t + 2e9)
        if not abs(d2 - want) <= 1e-12 * want:
            return "proposed time step %r, expected %r" % (d2, want)
        return None
    R = rng(case)
    if case["mode"] == "run":
        # the step actually taken by a run never exceeds the limit for the state it starts from
        taken = []
        dk = deckm.Deck()
        dk.rk, dk.nout, dk.cfl = R.choice(RK), 2, min(case["cfl"], 0.3) / (case["p"] + 1)
        dk.finaltime = 2.2 * dk.cfl * sol.dx / ((2 * case["p"] + 1) * s)
        sol.u = ghosts(sol.u, nf, sol.bc_l, sol.bc_r)
        orig = sol.apply_bc
        hist = [(sol.t, speed(sol))]

        class Lim:
            def limit(self, so):
                if so is sol:
                    hist.append((sol.t, speed(sol)))
        sol.printer = lambda *a: None
        try:
            rk.integrate(sol, dk, dg.DG(sol), Lim())
        except SystemExit:
            raise Skip()
        for (t0, s0), (t1, s1) in zip(hist, hist[1:]):
            lim = dk.cfl * sol.dx / ((2 * case["p"] + 1) * s0)
            if not t1 - t0 <= lim * (1 + 1e-9) + 1e-15:
                return "step from t=%r took %r, limit %r" % (t0, t1 - t0, lim)
        return None
    if case["mode"] == "stop":
        for dt in (9.9e-15, 1e-15, 0.0, -1.0, -float("inf")):
            if not stops(dt):
                return "a step of %r is accepted" % dt
        for dt in (1.01e-14, 1e-10, 1.0, 1e10):
            if stops(dt):
                return "a step of %r is refused" % dt
        cfl = 1e-14 * 0.9 * s * (2 * case["p"] + 1) / sol.dx
    else:
        if not stops(float("nan")):
            return "a NaN step is accepted"
        cfl = float("nan")
    # a whole run stops without advancing
    dk = deckm.Deck()
    dk.rk, dk.nout, dk.cfl, dk.finaltime = R.choice(RK), 3, cfl, 1.0
    sol.u = ghosts(sol.u, nf, sol.bc_l, sol.bc_r)
    u0, t0, n0 = sol.u.copy(), sol.t, sol.n
    calls = []
    sol.printer = lambda *a: calls.append(a)

    class Lim2:
        def limit(self, so):
            pass
    try:
        rk.integrate(sol, dk, dg.DG(sol), Lim2())
        return "the run did not stop (cfl %r)" % cfl
    except SystemExit as e:
        if not (isinstance(e.code, str) and e.code.strip()):
            return "the run stopped without an error message"
    if not np.array_equal(u0, sol.u) or sol.t != t0 or sol.n != n0:
        return "the solution advanced before the run stopped"


def speed(sol):
    if sol.N_F == 1:
        return 1.0
    u = sol.u[0]
    r, v = u[0::3], u[1::3] / u[0::3]
    p = (constants.gamma - 1) * (u[2::3] - 0.5 * r * v * v)
    if not np.all(p > 0):
        raise Skip()
    return float(np.max(np.abs(v) + np.sqrt(constants.gamma * p / r)))


def stops(dt):
    try:
        rk.sanity_check_dt(dt, 3, 0.5)
    except SystemExit:
        return True
    return False


# ---------------------------------------------------------------- C10
def g10(R, hints):
    i = 0
    while True:
        yield dict(rk=RK[i % len(RK)], nout=R.choice([2, 2, 3, 4, 5, 11, 20]), tf=R.choice([1.0, 0.3, 2.7, 10.0]),
                   t0=R.choice([0, 0, 0.1]), dts=R.choice(["small", "big", "mixed", "exact", "const"]), seed=seeds(R),
                   files=R.random() < 0.1)
        i += 1


def r10(case):
    R = rng(case)
    sol = new("advection", 2, 0)
    sol.u = ghosts(sol.u, 1, "periodic", "periodic")
    sol.t, t0 = case["t0"], case["t0"]
    nout, tf = case["nout"], case["t0"] + case["tf"]
    gap = case["tf"] / (nout - 1)
    dk = deckm.Deck()
    dk.rk, dk.nout, dk.finaltime, dk.cfl = case["rk"], nout, tf, 1.0
    const = gap * R.choice([0.1, 0.37, 1.0, 2.5, 30.0])
    count = [0]

    def stable():
        count[0] += 1
        k = case["dts"]
        if count[0] > 4000:
            raise Skip()
        if k == "const":
            return const
        if k == "small":
            return gap * R.uniform(0.05, 0.5)
        if k == "big":
            return gap * R.uniform(0.8, 5)
        if k == "exact":
            return gap * R.choice([0.5, 0.25, 1.0])
        return gap * 10 ** R.uniform(-1.5, 1.0)
    sol.max_wave_speed = lambda: sol.dx / stable()          # dt = dx * cfl / speed
    hist, snaps = [], []
    step = [sol.n]
    if case["files"]:
        pr = sol.printer

        def printer(k, dt):
            pr(k, dt)
            snaps.append((k, sol.t, sol.n))
    else:
        printer = lambda k, dt: snaps.append((k, sol.t, sol.n))
    sol.printer = printer
    steps = [0]

    class Lim:
        def limit(self, so):
            if so is sol:
                steps[0] += 1
                hist.append(so.t)

    class Dg:
        def residual(self, so):
            return 0.0 * so.u
    rk.integrate(sol, dk, Dg(), Lim())
    if [s[0] for s in snaps] != list(range(nout)):
        return "snapshots written: %s, requested 0..%d" % ([s[0] for s in snaps], nout - 1)
    for k, t, n in snaps:
        want = t0 + k * (tf - t0) / (nout - 1)
        if not abs(t - want) <= 1e-9 * max(1, abs(tf)):
            return "snapshot %d at time %r, requested %r" % (k, t, want)
    if abs(sol.t - tf) > 1e-12 * max(1, abs(tf)):
        return "the run ended at %r, final time %r" % (sol.t, tf)
    prev = t0
    for t in hist:
        if t < prev - 1e-13:
            return "time decreased from %r to %r" % (prev, t)
        pend = [t0 + k * gap for k in range(1, nout) if t0 + k * gap > prev + 1e-9 * gap]
        if pend and t > pend[0] + 1e-9 * max(1, abs(tf)):
            return "time %r passed the pending output at %r" % (t, pend[0])
        prev = t
    if sol.n != steps[0]:
        return "step counter %d after %d steps" % (sol.n, steps[0])
    if case["files"]:
        import os
        have = sorted(f for f in os.listdir(".") if f.endswith(".dat"))
        if have != ["u%010d.dat" % k for k in range(nout)]:
            return "snapshot files %s" % have


# ---------------------------------------------------------------- C11
def g11(R, hints):
    for nm in RK[:-1]:
        yield dict(rk=nm, mode="sums")
    for nm in RK[:-1]:
        o = STAGES.get(nm, 4)
        yield dict(rk=nm, mode="order", order=min(o, 10))
    for nm in ("rk12", "rk14"):
        yield dict(rk=nm, mode="order", order=min(STAGES[nm], 11))


class Scalar:
    """a solution for the integrators: u is any array"""


def integrate_once(name, u0, dt, f):
    """one real step of the named scheme for the autonomous problem u' = f(u)"""
    sol = new("advection", max(u0.size - 2, 1), 0)
    sol.u = u0.reshape(1, -1).copy()
    sol.apply_bc = lambda: None
    sol.max_wave_speed = lambda: sol.dx / (3 * dt)
    sol.printer = lambda *a: None
    sol.copy = lambda: _cp(sol)
    dk = deckm.Deck()
    dk.rk, dk.nout, dk.cfl, dk.finaltime = name, 2, 1.0, dt

    class Dg:
        def residual(self, so):
            return f(so.u)

    class Lim:
        def limit(self, so):
            pass
    rk.integrate(sol, dk, Dg(), Lim())
    return sol.u.ravel()


def _cp(sol):
    d = sol.__dict__.pop("copy")
    try:
        return solution.Solution.copy(sol)
    finally:
        sol.__dict__["copy"] = d


def r11(case):
    nm = case["rk"]
    if nm == "low_storage_rk4":
        if case["mode"] == "sums":
            return None
        # one real step against the fourth-order Taylor expansion, for a nonlinear problem
        for lam in (0.3, -0.7):
            f = lambda u: lam * u + 0.1 * u ** 2
            e = []
            for h in (0.2, 0.1):
                u0 = np.array([1.0, 0.5, 1.0, 0.5])
                got = integrate_once(nm, u0, h, f)
                y = u0.copy()
                for _ in range(2000):
                    hh = h / 2000
                    k1 = f(y); k2 = f(y + hh / 2 * k1); k3 = f(y + hh / 2 * k2); k4 = f(y + hh * k3)
                    y = y + hh / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
                e.append(np.max(np.abs(got - y)))
            if not e[1] <= e[0] / 24 + 1e-13:
                return "low-storage step errors %r for h = 0.2, 0.1 are not of fifth order" % e
        return None
    c, a, B = tables(nm)
    if case["mode"] == "sums":
        if abs(c.sum() - 1) > 1e-13:
            return "%s: weights sum to %r" % (nm, c.sum())
        if np.any(np.triu(B) != 0):
            return "%s: not explicit" % nm
        d = np.max(np.abs(B.sum(axis=1) - a))
        if d > 1e-12:
            return "%s: stage times differ from row sums by %r" % (nm, d)
        return None
    worst = (0, None)
    for q, gam, phi in trees.conditions(B, case["order"]):
        err = abs(c.dot(phi) - 1.0 / gam)
        if err > worst[0]:
            worst = (err, q)
    if worst[0] > 1e-12:
        return "%s: an order condition of order %d fails by %r" % (nm, worst[1], worst[0])


# ---------------------------------------------------------------- C12
def g12(R, hints):
    i = 0
    while True:
        yield dict(rk=RK[i % len(RK)], steps=1 + (i // len(RK)) % 3, system=R.choice(["advection", "euler"]), p=R.randint(0, 3),
                   N=R.randint(1, 5), dt=R.choice([0.1, 0.02, 0.3]), lim=R.random() < 0.6, seed=seeds(R))
        i += 1


def r12(case):
    R = rng(case)
    sol = new(case["system"], case["N"], case["p"])
    nf = sol.N_F
    sol.u = R.uniform(-1, 1, sol.u.shape)
    sol.bc_l, sol.bc_r = ("periodic", "zerograd") if R.rand() < 0.5 else ("zerograd", "periodic")
    M = R.uniform(-0.4, 0.4, (sol.u.shape[0], sol.u.shape[0]))
    op = lambda u: M.dot(u) + 0.2 * np.sin(u) - 0.1 * np.roll(u, 1, axis=1)
    lm = (lambda u: 0.9 * u + 0.01 * np.cos(u)) if case["lim"] else (lambda u: u.copy())
    dt = case["dt"]
    sol.max_wave_speed = lambda: sol.dx / ((2 * case["p"] + 1) * dt)
    sol.printer = lambda *a: None
    sol.t = 0.0
    dk = deckm.Deck()
    dk.rk, dk.nout, dk.cfl = case["rk"], 2, 1.0
    dk.finaltime = dt * (case["steps"] - 0.3)

    class Dg:
        def residual(self, so):
            return op(so.u)

    class Lim:
        def limit(self, so):
            so.u = lm(so.u)
    u, t, n = sol.u.copy(), sol.t, sol.n
    rk.integrate(sol, dk, Dg(), Lim())
    for k in range(case["steps"]):
        h = dt if k < case["steps"] - 1 else dk.finaltime - t
        if case["rk"] == "low_storage_rk4":
            c, B = np.array([1, 2, 2, 1]) / 6.0, np.diag([0.5, 0.5, 1.0], -1)
        else:
            c, a, B = tables(case["rk"] if case["rk"] in STAGES else "rk4")
        K = []
        for s in range(len(c)):
            us = u.copy()
            for j in range(s):
                us = us + B[s, j] * K[j]
            if s > 0:
                us = lm(us)
            K.append(h * op(us))
        un = u.copy()
        for s in range(len(c)):
            un = un + c[s] * K[s]
        u = lm(ghosts(un, nf, sol.bc_l, sol.bc_r))
        t += h
        n += 1
    if not close(sol.u, u, 1e-9, scale=max(1.0, np.max(np.abs(u)))):
        return "%s, %d steps: result differs from the Runge-Kutta update by %r" % (case["rk"], case["steps"], float(np.max(np.abs(sol.u - u))))
    if abs(sol.t - t) > 1e-12 or sol.n != n:
        return "time/step count %r %r instead of %r %r" % (sol.t, sol.n, t, n)


PROPS = {
    "C09": (g09, r09, "distinct (solution, cfl, mode) parameter sets"),
    "C10": (g10, r10, "distinct (outputs, final time, step sequence) parameter sets"),
    "C11": (g11, r11, "each table: sums and all order conditions up to min(order, 11)"),
    "C12": (g12, r12, "distinct (scheme, operator, limiter, steps, data) parameter sets"),
}
