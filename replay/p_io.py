from common import *
import os
import dg1d.deck as deckm
import dg1d.rk as rk
import dg1d.limiting as limiting
import dg1d.euler_physics as eul
import dg1d.advection_physics as adv
from p_scheme import state, mesh_case, RK, enh
from p_time import STAGES


# ---------------------------------------------------------------- C17
def g17(R, hints):
    i = 0
    while True:
        c = mesh_case(R, i, 5, 9)
        c["N"] = max(c["N"], 2)
        c["bc"] = [R.choice(["periodic", "zerograd"]), R.choice(["periodic", "zerograd"])]
        c["step"] = R.choice([0, 1, 7, 123, 10 ** 9])
        c["ic"] = R.choice([None, None, "acsticw", "simplew", "shuoshe"]) if c["system"] == "euler" else None
        c["thresholds"] = [0.05, 0.05] if R.random() < 0.5 else None
        i += 1
        yield c


def r17(case):
    R = rng(case)
    ic = case["ic"]
    sol = new(case["system"], case["N"], case["p"], case["riemann"], "", case["thresholds"], ic)
    nf, N = sol.N_F, case["N"]
    sol.u = smooth_u(R, case["system"], N, case["p"])
    sol.bc_l, sol.bc_r = "".join(list(case["bc"][0])), "".join(list(case["bc"][1]))
    sol.t = float(R.uniform(0, 10) * 10 ** R.randint(-6, 3))
    sol.n = int(R.randint(0, 10 ** 6))
    if case["thresholds"]:
        sol.sensors.sensors[:] = R.randint(0, 3, N + 2)
    sol.u[:, :nf] = 88.0
    sol.u[:, -nf:] = 99.0
    sol.printer(case["step"], 0.001)
    fields = ["u"] if nf == 1 else ["rho", "rhou", "E"]
    names = sorted("%s%010d.dat" % (f, case["step"]) for f in fields)
    have = sorted(f for f in os.listdir(".") if f.endswith(".dat"))
    sen = "sensor%010d.dat" % case["step"]
    if have != sorted(names + ([sen] if case["thresholds"] else [])):
        return "files written: %s" % have
    for k, f in enumerate(fields):
        d = np.loadtxt("%s%010d.dat" % (f, case["step"]), delimiter=",", ndmin=2)
        if d.shape != (N, case["p"] + 2):
            return "%s has %s numbers per file, expected %s" % (f, d.shape, (N, case["p"] + 2))
        mid = 0.5 * (sol.x[1:] + sol.x[:-1])
        if not close(d[:, 0], mid, 1e-12, scale=1 + np.max(np.abs(mid))):
            return "first column is not the centroids"
        if not np.array_equal(d[:, 1:], sol.u[:, nf + k:nf * (N + 1):nf].T):
            return "modal coefficients of %s in the file differ" % f
    if case["thresholds"]:
        d = np.loadtxt(sen, delimiter=",", ndmin=2)
        if d.shape != (N, 2) or not np.array_equal(d[:, 1], sol.sensors.sensors[1:-1]):
            return "sensor file does not list one flag per interior cell"
    s2 = new(case["system"], 3, 1, case["riemann"])
    s2.loader(case["step"])
    if s2.n != sol.n or s2.t != sol.t:
        return "step/time %r %r restored as %r %r" % (sol.n, sol.t, s2.n, s2.t)
    if s2.bc_l != sol.bc_l or s2.bc_r != sol.bc_r:
        return "boundary conditions %r restored as %r" % ((sol.bc_l, sol.bc_r), (s2.bc_l, s2.bc_r))
    if s2.N_E != N or s2.basis.p != case["p"]:
        return "cells/order restored as %r %r" % (s2.N_E, s2.basis.p)
    sc = np.max(np.abs(sol.x))
    if not close(s2.x, sol.x, 1e-12, scale=sc) or not close(s2.xc, sol.xc, 1e-12, scale=sc) or abs(s2.dx - sol.dx) > 1e-12 * sc:
        return "mesh restored as dx=%r, x=%s" % (s2.dx, np.asarray(s2.x).tolist()[:4])
    if s2.u.shape != sol.u.shape or not np.array_equal(s2.u[:, nf:-nf], sol.u[:, nf:-nf]):
        return "interior coefficients differ after reloading"
    a, b = sol.copy(), s2
    a.apply_bc()
    b.apply_bc()
    if not np.array_equal(a.u, b.u):
        return "ghost cells differ after reloading"
    if not close(b.evaluate_faces(), a.evaluate_faces(), 1e-12):
        return "face values differ after reloading"
    if not admissible(a):
        raise Skip()
    try:
        Fa = np.array(dg.DG(a).residual(a))
        Fb = np.array(dg.DG(b).residual(b))
    except SystemExit:
        raise Skip()
    if not np.all(np.isfinite(Fa)):
        raise Skip()
    if not close(Fb[:, nf:-nf], Fa[:, nf:-nf], 1e-9, scale=np.max(np.abs(Fa)) + 1.0 / sol.dx):
        return "time derivative differs after reloading by %r" % float(np.max(np.abs(Fb - Fa)))


# ---------------------------------------------------------------- C18
OPTS = [("PDE system", "system", ["advection", "euler"]), ("RK scheme", "rk", ["rk3", "rk4", "low_storage_rk4", "weird"]),
        ("riemann solver", "riemann", ["roe", "rusanov", "godunov"]),
        ("initial condition", "ic", ["sinewave 10", "entrpyw 32", "scktube 10 0.0 1 0 1 0.125 0 0.1"]),
        ("number of outputs", "nout", [2, 10, 33]), ("final time", "finaltime", [1.0, 0.25, 12.0, 1e-3]),
        ("Courant-Friedrichs-Lewy condition", "cfl", [0.5, 0.9, 0.05]), ("order", "order", [0, 1, 5]),
        ("limiting", "limiting", ["", "adaptive_hr", "none"]), ("enhancement", "enhance", ["", "icb 0 1", "icb 0"]),
        ("sensor thresholds", "sensor_thresholds", [[0.1], [0.1, 0.2], [1e-3, 5.0], []])]
DEFAULTS = dict(system="advection", rk="", riemann="roe", ic="sinewave", nout=10, finaltime=1, cfl=0.5, order=1, limiting="",
                enhance="", sensor_thresholds=[])


def g18(R, hints):
    i = 0
    while True:
        n = R.choice([0, 1, 1, 2, 4, 11, 11, 14])
        ks = [R.randrange(11) for _ in range(n)] if n != 11 else R.sample(range(11), 11)
        if i < 11:
            ks = [i]
        ents = [(k, R.choice(OPTS[k][2])) for k in ks]
        yield dict(entries=ents, junk=R.random() < 0.5, writer=R.random() < 0.3, tail=R.choice(["", " ", "  \t"]),
                   suffix=R.choice(["", " ", " (comment)"]), seed=seeds(R))
        i += 1


JUNK = ["\n", "some text\n", "# a comment\n", "0.5\n", "   \n", "cfl 0.3\n"]


def r18(case):
    R = rng(case)
    want = dict(DEFAULTS)
    lines = []
    defs = []
    for k, v in case["entries"]:
        head, attr, _ = OPTS[k]
        want[attr] = v
        txt = " ".join(map(str, v)) if isinstance(v, list) else str(v)
        defs.append((head, txt))
        if case["junk"]:
            for _ in range(R.randint(0, 3)):
                lines.append(JUNK[R.randint(len(JUNK))])
        lines.append("#" + head + case["suffix"] + "\n")
        lines.append(txt + case["tail"] + "\n")
    if case["junk"]:
        lines.append(JUNK[R.randint(len(JUNK))])
    if case["writer"]:
        name = deckm.write_deck(os.getcwd(), defs)
    else:
        name = os.path.join(os.getcwd(), "my.deck")
        with open(name, "w") as f:
            f.write("".join(lines))
    d = deckm.Deck()
    for k, v in DEFAULTS.items():
        if getattr(d, k) != v:
            return "default of %s is %r" % (k, getattr(d, k))
    d.parser(name)
    os.unlink(name)
    for k, v in want.items():
        got = getattr(d, k)
        if got != v or type(got) != type(v) and not (k == "finaltime" and got == v):
            return "%s = %r, expected %r (entries %s)" % (k, got, v, case["entries"])


# ---------------------------------------------------------------- C19
def g19(R, hints):
    i = 0
    while True:
        yield dict(mode=("sol", "rk", "main", "limit", "pair")[i % 5 if i % 10 < 5 else R.choice([0, 1, 3, 4])],
                   system=R.choice(["advection", "euler"]), riemann=R.choice(["roe", "rusanov", "godunov", "", "hllc"]),
                   rk=RK[i % len(RK)] if R.random() < 0.8 else R.choice(["", "rk7", "RK4"]), p=R.randint(1, 3),
                   limiting=R.choice(["", "adaptive_hr", "foo"]), enhance=R.random() < 0.5,
                   thresholds=R.choice([[], [0.1, 0.2], [0.3, 0.05]]), seed=seeds(R))
        i += 1


def flux_matches(sol, system, riemann, R):
    if system == "advection":
        a, b = R.uniform(-1, 1, 4), R.uniform(-1, 1, 4)
        if not np.array_equal(sol.riemann(a.copy(), b.copy()), a):
            return "advection does not use the upwind flux"
        if not np.array_equal(sol.interior_flux(a.reshape(2, 2)), a.reshape(2, 2)) or sol.max_wave_speed() != 1:
            return "advection physics not selected"
        return None
    l = np.concatenate([prim(1.0, 0.3, 1.0), prim(1.0, -0.2, 2.0)])
    r = np.concatenate([prim(0.5, -0.1, 0.4), prim(2.0, 0.4, 1.0)])
    f = {"rusanov": eul.riemann_rusanov, "godunov": eul.riemann_godunov}.get(riemann, eul.riemann_roe)
    if not np.array_equal(sol.riemann(l.copy(), r.copy()), f(l.copy(), r.copy())):
        return "riemann solver %r: another flux is used" % riemann
    g = l.reshape(2, 3)
    if not np.array_equal(sol.interior_flux(g), eul.interior_flux(g)):
        return "Euler volume flux not selected"
    keep = sol.u
    sol.u = np.zeros((1, 6))
    sol.u[0] = l
    same = sol.max_wave_speed() == eul.max_wave_speed(sol.u)
    sol.u = keep
    if not same:
        return "Euler wave speed not selected"


def r19(case):
    R = rng(case)
    e = enh(__import__("random").Random(case["seed"]), case["p"]) if case["enhance"] else ""
    mode = case["mode"]
    if mode == "main":
        return main19(case, e)
    sol = new(case["system"], 3, case["p"], case["riemann"], e, case["thresholds"])
    if mode in ("sol", "pair"):
        others = []
        if mode == "pair":
            o = new("euler" if case["system"] == "advection" else "advection", 4, 2, "rusanov", "icb 0 1", [0.5, 0.5])
            o2 = new("euler", 4, 2, "godunov", "", [])
            others = [o, o2]
        m = flux_matches(sol, case["system"], case["riemann"], R)
        if m:
            return m
        if sol.N_F != (1 if case["system"] == "advection" else 3) or sol.keywords["system"] != case["system"]:
            return "system"
        if bool(sol.issensing) != bool(case["thresholds"]):
            return "sensors %r with thresholds %r" % (sol.issensing, case["thresholds"])
        if case["thresholds"] and list(sol.sensors.thresholds) != case["thresholds"]:
            return "thresholds %r instead of %r" % (sol.sensors.thresholds, case["thresholds"])
        sol.u = R.uniform(-1, 1, sol.u.shape)
        plain = np.dot(np.array([(-1.0) ** np.arange(case["p"] + 1), np.ones(case["p"] + 1)]), sol.u)
        got = np.array(sol.evaluate_faces())
        same = close(got, plain, 1e-12)
        if same == bool(e):
            return "face enhancement %r: %s faces are evaluated" % (e, "plain" if same else "other")
        if case["thresholds"]:
            # the sensor of the system with the given thresholds
            sol2 = new(case["system"], 3, case["p"], "", "", case["thresholds"])
            (adv if case["system"] == "advection" else eul)
        return None
    sol.u = ghosts(smooth_u(R, case["system"], 3, case["p"], 0.05), sol.N_F, "periodic", "periodic")
    if not admissible(sol):
        raise Skip()
    dk = deckm.Deck()
    dk.nout, dk.cfl, dk.finaltime, dk.rk = 2, 1.0, 0.01, case["rk"]
    if mode == "limit":
        lim = limiting.Limiter(case["limiting"], sol)
        if case["limiting"] == "adaptive_hr" and not case["thresholds"]:
            raise Skip()
        u0 = sol.u.copy()
        if case["thresholds"]:
            sol.sensors.sensing = lambda so: so.sensors.sensors.fill(1)
        lim.limit(sol)
        changed = not np.array_equal(u0, sol.u)
        if changed != (case["limiting"] == "adaptive_hr"):
            return "limiting option %r: solution %s" % (case["limiting"], "changed" if changed else "unchanged")
        return None
    # integrator: one step of a linear problem is the stability polynomial of the table
    sol = new("advection", 3, 1)
    R2 = R.uniform(-1, 1, sol.u.shape)
    sol.u = R2.copy()
    sol.bc_l = sol.bc_r = "periodic"
    sol.u = ghosts(sol.u, 1, "periodic", "periodic")
    u0 = sol.u.copy()
    z = -0.9
    sol.max_wave_speed = lambda: 1e-9
    sol.printer = lambda *a: None
    dk.finaltime = 1.0
    calls = [0]

    class Dg:
        def residual(self, so):
            calls[0] += 1
            return z * so.u

    class Lim:
        def limit(self, so):
            pass
    rk.integrate(sol, dk, Dg(), Lim())
    import p_time
    nm = case["rk"] if case["rk"] in STAGES else "rk4"
    c, a, B = p_time.tables(nm)
    if case["rk"] == "low_storage_rk4":
        c, B = np.array([1, 2, 2, 1]) / 6.0, np.diag([0.5, 0.5, 1.0], -1)
    want = 1 + z * c.dot(np.linalg.solve(np.eye(len(c)) - z * B, np.ones(len(c))))
    if calls[0] != len(c):
        return "scheme %r evaluated %d stages, expected %d" % (case["rk"], calls[0], len(c))
    if not close(sol.u, want * u0, 1e-10):
        return "scheme %r: another integrator ran" % case["rk"]


def main19(case, e):
    """the entry point with the integrator replaced by a recorder"""
    import runpy
    import sys
    import subprocess
    ics = {"advection": "sinewave 5", "euler": "entrpyw 5"}
    defs = [("PDE system", case["system"]), ("riemann solver", case["riemann"]), ("initial condition", ics[case["system"]]),
            ("RK scheme", case["rk"]), ("order", str(case["p"])), ("limiting", case["limiting"]),
            ("enhancement", e), ("sensor thresholds", " ".join(map(str, case["thresholds"]))),
            ("final time", "0.7"), ("number of outputs", "4"), ("Courant-Friedrichs-Lewy condition", "0.25")]
    if case["limiting"] == "adaptive_hr" and not case["thresholds"]:
        raise Skip()
    with open("main.deck", "w") as f:
        for k, v in defs:
            f.write("#%s\n%s\n" % (k, v))
    rec = []
    old = (rk.integrate, subprocess.check_output, sys.argv)
    rk.integrate = lambda *a, **k: rec.append((a, k))
    subprocess.check_output = lambda *a, **k: "test\n"
    sys.argv = ["main.py", "-d", "main.deck"]
    try:
        runpy.run_path(os.path.join(os.environ.get("DG1D_ROOT", "/repo"), "dg1d", "main.py"), run_name="__main__")
    finally:
        rk.integrate, subprocess.check_output, sys.argv = old
    if len(rec) != 1:
        raise Skip()
    a = list(rec[0][0]) + list(rec[0][1].values())
    sol = [x for x in a if isinstance(x, solution.Solution)]
    dk = [x for x in a if isinstance(x, deckm.Deck)]
    lim = [x for x in a if isinstance(x, limiting.Limiter)]
    if not (sol and dk and lim):
        raise Skip()
    sol, dk, lim = sol[0], dk[0], lim[0]
    m = flux_matches(sol, case["system"], case["riemann"], rng(case))
    if m:
        return "main: " + m
    if sol.basis.p != case["p"] or sol.N_E != 5:
        return "main: order or mesh"
    if bool(sol.issensing) != bool(case["thresholds"]) or (case["thresholds"] and list(sol.sensors.thresholds) != case["thresholds"]):
        return "main: sensor thresholds"
    if (dk.rk, dk.finaltime, dk.nout, dk.cfl) != (case["rk"].rstrip(), 0.7, 4, 0.25):
        return "main: the integrator gets another deck: %r" % ((dk.rk, dk.finaltime, dk.nout, dk.cfl),)
    R = rng(case)
    sol.u = R.uniform(-1, 1, sol.u.shape)
    plain = np.dot(np.array([(-1.0) ** np.arange(case["p"] + 1), np.ones(case["p"] + 1)]), sol.u)
    if close(sol.evaluate_faces(), plain, 1e-12) == bool(e):
        return "main: face enhancement %r not honoured" % e
    if case["thresholds"]:
        sol.sensors.sensing = lambda so: so.sensors.sensors.fill(1)
    u0 = sol.u.copy()
    lim.limit(sol)
    if np.array_equal(u0, sol.u) == (case["limiting"] == "adaptive_hr"):
        return "main: limiting %r not honoured" % case["limiting"]


# ---------------------------------------------------------------- C20
def g20(R, hints):
    i = 0
    while True:
        yield dict(mode=("builtin", "poly", "free")[i % 3], p=i % 7 if i < 21 else R.randint(0, 8), N=R.randint(1, 9),
                   ic=R.choice(["sinewave", "ictest", "entrpyw", "acsticw", "simplew", "shuoshe", "scktube"]), seed=seeds(R),
                   A=R.choice([-1.0, 0.0, -4.0, 2.0]), L=R.choice([2.0, 8.0, 10.0, 0.5]), system=R.choice(["advection", "euler"]))
        i += 1


DOMAIN = dict(sinewave=(-1, 1), ictest=(-1, 1), entrpyw=(-1, 1), acsticw=(-1, 1), simplew=(-4, 4), shuoshe=(0, 10), scktube=(-1, 1))


def exact_ic(name, par=None):
    """documented initial conditions: x -> conserved components"""
    if name == "sinewave":
        return lambda x: np.array([math.sin(2 * math.pi * x)])
    if name == "ictest":
        return lambda x: np.array([math.sin(x - math.pi / 3) ** 3 + 1])
    if name == "entrpyw":
        return lambda x: prim(1 + 0.2 * math.sin(math.pi * x), 1.0, 1.0, 1.4)
    if name == "acsticw":
        h = lambda x: 1e-4 * math.cos(0.5 * math.pi * x) ** 8
        return lambda x: prim(1 + h(x), 0.0, 1 / 1.4 + h(x), 1.4)
    if name == "shuoshe":
        return lambda x: prim(3.857143, 2.629369, 10.333333, 1.4) if x < 1 else prim(1 + 0.2 * math.sin(5 * (x - 5)), 0.0, 1.0, 1.4)
    if name == "scktube":
        return lambda x: prim(*(par[1:4] if x < par[0] else par[4:7]), 1.4)
    if name == "simplew":
        g = 3.0

        def f(x):
            s = -1 if x < 0 else 1
            y = abs(x)
            if y >= 1.5:
                u = 2 / g
            elif y > 0.5:
                u = (1 + math.tanh((y - 1) / (0.25 - (y - 1) ** 2))) / g
            else:
                u = 0.0
            u = s * u
            a = 1 - (g - 1) / 2 * abs(u)
            rho = g * a ** (2 / (g - 1))
            return prim(rho, u, rho * a * a / g, g)
        return f


def r20(case):
    R = rng(case)
    p, N = case["p"], case["N"]
    x, w = gauss(p + 1)
    if case["mode"] == "builtin":
        nm = case["ic"]
        par = None
        extra = ""
        if nm == "scktube":
            par = [round(float(R.uniform(-0.5, 0.5)), 3), 1.0, 0.1, 1.0, 0.125, -0.2, 0.1]
            extra = " " + " ".join(map(str, par))
        sysn = "advection" if nm in ("sinewave", "ictest") else "euler"
        sol = new(sysn, N, p, ic=nm, extra=extra)
        A, B = DOMAIN[nm]
        f = exact_ic(nm, par)
    else:
        sysn = case["system"]
        sol = new(sysn, N, p)
        A, B = case["A"], case["A"] + case["L"]
        nf = sol.N_F
        deg = p if case["mode"] == "poly" else p + 4
        co = R.uniform(-1, 1, (nf, deg + 1))
        mid, half = 0.5 * (A + B), 0.5 * (B - A)
        f = lambda x: np.array([sum(c * ((x - mid) / half) ** k for k, c in enumerate(co[i])) for i in range(nf)])
        g = (lambda x: list(f(x)))
        sol.setup_common_ic(g, A, B)
    nf = sol.N_F
    h = (B - A) / N
    if sol.N_E != N or len(sol.x) != N + 1 or len(sol.xc) != N or abs(sol.dx - h) > 1e-12 * (B - A):
        return "mesh sizes: N_E=%r, dx=%r" % (sol.N_E, sol.dx)
    if not close(sol.x, A + h * np.arange(N + 1), 1e-12, scale=abs(A) + abs(B)) or \
            not close(sol.xc, A + h * (np.arange(N) + 0.5), 1e-12, scale=abs(A) + abs(B)):
        return "mesh points"
    if sol.u.shape != (p + 1, (N + 2) * nf):
        return "coefficient array has shape %r" % (sol.u.shape,)
    ph = np.array([P(k, x) for k in range(p + 1)])
    for e in range(N):
        xs = A + h * e + 0.5 * h * (x + 1)
        if case["mode"] == "builtin" and case["ic"] in ("scktube", "shuoshe"):
            jump = par[0] if case["ic"] == "scktube" else 1.0
            if np.min(np.abs(xs - jump)) < 1e-9:
                raise Skip()
        vals = np.array([f(y) for y in xs])
        sc = np.max(np.abs(vals)) + 1e-3
        for k in range(nf):
            c = sol.u[:, (e + 1) * nf + k]
            if not close(ph.T.dot(c), vals[:, k], 1e-8, scale=sc):
                return "cell %d field %d: values at the quadrature points %s, initial condition %s" % (e, k, ph.T.dot(c).tolist(), vals[:, k].tolist())
            if not abs(c[0] - 0.5 * np.sum(w * vals[:, k])) <= 1e-9 * sc:
                return "cell %d field %d: average %r, quadrature %r" % (e, k, c[0], 0.5 * np.sum(w * vals[:, k]))
            if case["mode"] == "poly":
                y = R.uniform(-1, 1)
                got = sum(c[j] * P(j, y) for j in range(p + 1))
                if not abs(got - f(A + h * e + 0.5 * h * (y + 1))[k]) < 1e-8 * sc:
                    return "polynomial data not reproduced"


# ---------------------------------------------------------------- C21
def g21(R, hints):
    i = 0
    while True:
        ic = ("entrpyw", "acsticw", "simplew", "shuoshe", "scktube", "sinewave", "ictest")[i % 7]
        par = None
        if ic == "scktube":
            par = [R.choice([0.0, -0.3, 0.25]), R.uniform(0.1, 5), R.uniform(-2, 2), R.uniform(0.1, 5), R.uniform(0.1, 5), R.uniform(-2, 2), R.uniform(0.1, 5)]
        yield dict(ic=ic, par=par, seed=seeds(R))
        i += 1


def r21(case):
    R = rng(case)
    nm = case["ic"]
    got = []
    keep = solution.Solution.setup_common_ic

    def setup(self, f, A, B):
        got.append((f, A, B, constants.gamma))
        keep(self, f, A, B)
    extra = "" if case["par"] is None else " " + " ".join("%.17g" % v for v in case["par"])
    solution.Solution.setup_common_ic = setup
    try:
        sol = new("advection" if nm in ("sinewave", "ictest") else "euler", 4, 2, ic=nm, extra=extra)
    finally:
        solution.Solution.setup_common_ic = keep
    if not got:
        raise Skip()
    f, A, B, g = got[0]
    if (A, B) != DOMAIN[nm]:
        return "domain %r" % ((A, B),)
    ref = exact_ic(nm, case["par"])
    xs = list(R.uniform(A, B, 20)) + [A, B, -1.5, -0.5, 0.5, 1.5, 1.0, 0.0, -1.0, -0.50001, 1.49999, 0.50001]
    if case["par"]:
        d = case["par"][0]
        xs += [d, np.nextafter(d, -9), np.nextafter(d, 9)]
    xs += [np.nextafter(1.0, 0), np.nextafter(1.0, 2)]
    for x in xs:
        if not A <= x <= B:
            continue
        x = float(x)
        v = np.array(f(x), float)
        want = ref(x)
        if not close(v, want, 1e-10, scale=np.max(np.abs(want)) + 1e-9):
            return "%s at x=%r: %s, documented %s" % (nm, x, v.tolist(), want.tolist())
        if len(v) == 3:
            gg = constants.gamma
            r, u, p = wstate(v, gg)
            if not (r > 0 and p > 0):
                return "%s at x=%r: density %r pressure %r" % (nm, x, r, p)
            if nm == "simplew":
                a = math.sqrt(gg * p / r)
                if abs(p / r ** gg - 1 / gg ** gg) > 1e-9 or abs(a + (gg - 1) / 2 * abs(u) - 1) > 1e-9:
                    return "simple wave invariants at x=%r" % x
    if abs(constants.gamma - (3.0 if nm == "simplew" else 1.4)) > 1e-15:
        return "gamma is %r" % constants.gamma
    b = {"simplew": "zerograd", "shuoshe": "zerograd", "scktube": "zerograd"}.get(nm, "periodic")
    if sol.bc_l != b or sol.bc_r != b:
        return "boundary conditions %r %r" % (sol.bc_l, sol.bc_r)


PROPS = {
    "C17": (g17, r17, "distinct (solution, step number, ends, sensors) parameter sets"),
    "C18": (g18, r18, "distinct (entries, order, junk lines, writer/parser) parameter sets"),
    "C19": (g19, r19, "distinct (deck options, stage of the run) parameter sets"),
    "C20": (g20, r20, "distinct (mesh, order, initial condition) parameter sets"),
    "C21": (g21, r21, "distinct (initial condition, parameters) sets, ~30 points each"),
}
