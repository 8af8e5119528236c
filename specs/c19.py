from .flux import *
from .timeloop import *
from .c14 import hr_contract

TABLES = ("rk3", "rk4", "rk5", "rk6", "rk8", "rk10", "rk12", "rk14")
SOL = "dg1d.solution.Solution.set_manipulation_functions"
PHYS = {"euler": "euler_physics", "advection": "advection_physics"}


def spec(chk):
    todo = [("selection %s/%s" % (s, n), lambda s=s, n=n: selection(chk, s, n))
            for s in ("euler", "advection", "another system") for n in ("rusanov", "godunov", "roe", "another flux")]
    todo += [("several solutions", lambda: several(chk)), ("sensors", lambda: sensors(chk)), ("enhancement", lambda: enhancement(chk)), ("limiter", lambda: limiter(chk))]
    todo += [("integrator %s" % s, lambda s=s: Integrator(chk, s).check()) for s in TABLES + ("low_storage_rk4", "another scheme")]
    todo += [("entry point %s" % s, lambda s=s: entry(chk, s)) for s in ("advection", "euler")]
    chk.tasks(todo)
    chk.assume_note("the numerical fluxes, wave speeds, sensors and Runge-Kutta tables are arbitrary distinct functions here (their own contracts: C07, C08, C11, C12, C13)")
    chk.assume_note("the deck read by the entry point is an arbitrary assignment of the options (parser: C18)")


# ---------------------------------------------------------------- physics functions as arbitrary named functions
def physics(I):
    """each physics function of each system is an arbitrary function of its arguments, told apart by its name"""
    def vec(name):
        def c(I, args, kw):
            a = [I.np.asarr(x) for x in list(args) + list(kw.values())]
            ts = [tok(I, x) for x in a]
            return Arr(Buf(a[0].shape, lambda idx: T.app(name, *ts, *idx)))
        return c

    def speed(name):
        def c(I, args, kw):
            x = T.app(name, tok(I, (list(args) + list(kw.values()))[0]))
            I.assume(T.lt(0, x))
            return x
        return c

    def sense(name):
        def c(I, args, kw):
            s = dict(zip(("sensors", "thresholds", "solution"), args), **kw)
            I.vlog.append((name, s["sensors"], s["thresholds"], s["solution"]))
        return c
    I.vlog = []
    for m, fs in (("euler_physics", ("roe", "rusanov", "godunov")), ("advection_physics", ("upwinding",))):
        q = "dg1d.%s." % m
        for f in fs:
            I.contracts[q + "riemann_" + f] = vec("flux!" + f)
        I.contracts[q + "interior_flux"] = vec("iflux!" + m)
        I.contracts[q + "max_wave_speed"] = speed("speed!" + m)
        I.contracts[q + "sensing"] = sense(m)


def text(I, name, *but):
    """an arbitrary string other than the given ones"""
    t = T.var(name, "S")
    for b in but:
        I.assume(T.ne(t, T.const(b)))
    return t


def chosen(system, flux):
    if system != "euler":
        return "upwinding"
    return flux if flux in ("rusanov", "godunov") else "roe"


def selected(chk, I, sol, system, flux, L):
    """the solution's operations are those of the selected system and flux"""
    m = PHYS["euler" if system == "euler" else "advection"]
    nf = 3 if system == "euler" else 1
    n = INT("n")
    f = lambda nm: Arr(Buf((n,), lambda idx: T.app(nm, *idx)))
    j, g = INT("j"), INT("g")
    a, b = f("lft"), f("rgt")
    kw = dict(hyps=list(I.pc), func=SOL)
    call = lambda nm, *x: I.call(I.getattr(sol, nm), list(x), {})
    got = I.np.asarr(call("riemann", a, b))
    chk.prove_eq(L + "the face flux is the selected one (%s)" % chosen(system, flux), got.at(j), T.app("flux!" + chosen(system, flux), tok(I, a), tok(I, b), j), **kw)
    ug = Arr(Buf((n, n), lambda idx: T.app("ug", *idx)))
    chk.prove_eq(L + "the volume flux is that of the system", I.np.asarr(call("interior_flux", ug)).at(g, j), T.app("iflux!" + m, tok(I, ug), g, j), **kw)
    u = arbitrary(I, sol, "coef")
    chk.prove_eq(L + "the wave speed is that of the system", T.const(call("max_wave_speed")), T.app("speed!" + m, tok(I, u)), **kw)
    chk.prove_eq(L + "number of fields", I.getattr(sol, "N_F"), K(nf), **kw)


def names(I, system, flux):
    s = text(I, "system", "euler") if system == "another system" else system
    r = text(I, "flux", "rusanov", "godunov", "roe") if flux == "another flux" else flux
    return s, r


def selection(chk, system, flux):
    I = chk.interp()
    N, p = sym_mesh(I)
    physics(I)
    s, r = names(I, system, flux)
    chk.cover(I.pc, "a system and a flux")
    L = "%s/%s: " % (system, flux)

    def go():
        sol = new_solution(I, s, "entrpyw" if system == "euler" else "sinewave", N, p, riemann=r)
        selected(chk, I, sol, system, flux, L)
    chk.run(I, go, L, quants=list(I.lemmas))


def several(chk):
    """solutions built afterwards, with any other selections, change nothing; neither do copies of the first one"""
    for system, flux, other, oflux in (("euler", "rusanov", "advection", "godunov"), ("advection", "roe", "euler", "another flux"),
                                       ("euler", "godunov", "euler", "roe"), ("euler", "roe", "euler", "rusanov")):
        I = chk.interp()
        N, p = sym_mesh(I)
        physics(I)
        L = "%s/%s then %s/%s: " % (system, flux, other, oflux)

        def go():
            s, r = names(I, other, oflux)
            ic = lambda s: "entrpyw" if s == "euler" else "sinewave"
            th = [R("th0"), R("th1")]
            a = new_solution(I, system, ic(system), N, p, riemann=flux, thresholds=th)
            b = new_solution(I, s, ic(other), N, p, riemann=r)
            c = I.call(I.getattr(a, "copy"), [], {})
            selected(chk, I, b, other, oflux, L + "second: ")
            selected(chk, I, a, system, flux, L + "first: ")
            selected(chk, I, c, system, flux, L + "copy of the first: ")
            kw = dict(hyps=list(I.pc), func="dg1d.solution.Solution.__init__")
            chk.require(L + "the second has no sensors", I.getattr(b, "issensing") is False, kw["func"])
            d = new_solution(I, system, ic(system), N, p, riemann=flux, thresholds=[R("ot0"), R("ot1")])
            thresholds(chk, I, a, th, L + "first: ")
            thresholds(chk, I, d, [R("ot0"), R("ot1")], L + "third: ")
        chk.run(I, go, L, quants=list(I.lemmas))


def thresholds(chk, I, sol, th, L):
    got = I.getattr(I.getattr(sol, "sensors"), "thresholds")
    n = None
    if isinstance(th, SymSeq):
        if got is th:
            return chk.require(L + "the thresholds are the given ones", True, "dg1d.sensor.Sensor.__init__")
        if not isinstance(got, SymSeq):
            raise Unsupported("thresholds stored as %r" % (got,))
        k = T.fresh("k", "I")
        chk.prove_eq(L + "number of thresholds", got.n, th.n, hyps=list(I.pc), func="dg1d.sensor.Sensor.__init__")
        return chk.prove_eq(L + "the thresholds are the given ones", got.item(k), th.item(k), hyps=list(I.pc) + [T.le(0, k), T.lt(k, th.n)], func="dg1d.sensor.Sensor.__init__")
    got = I.tolist(got)
    chk.require(L + "number of thresholds", len(got) == len(th), "dg1d.sensor.Sensor.__init__")
    for a, b in zip(got, th):
        chk.prove_eq(L + "the thresholds are the given ones", a, b, hyps=list(I.pc), func="dg1d.sensor.Sensor.__init__")


def sensors(chk):
    for system in ("euler", "advection"):
        I = chk.interp()
        N, p = sym_mesh(I)
        physics(I)
        e = ranged(I, "e", 0, T.add(N, K(2)))
        seq = SymSeq(INT("nth"), lambda k: T.app("threshold", k))
        I.assume(T.le(0, seq.n))

        def go():
            line = I.mkstr([("entrpyw " if system == "euler" else "sinewave "), I.fmt(N, "d")])
            sol = I.call(cls(I, "solution", "Solution"), [line, system, p, "roe", "", seq], {})
            some = I.decide(T.lt(0, seq.n))
            F_ = "dg1d.solution.Solution.__init__"
            L = "%s, %s thresholds: " % (system, "some" if some else "no")
            on = I.getattr(sol, "issensing")
            chk.prove(L + "sensors are on exactly if thresholds are given", T.const(on) if some else T.not_(T.const(on)), hyps=list(I.pc), func=F_)
            if not some:
                return
            thresholds(chk, I, sol, seq, L)
            sn = I.getattr(sol, "sensors")
            sa = I.np.asarr(I.getattr(sn, "sensors"))
            chk.prove_eq(L + "one flag per cell", sa.shape[0], T.add(N, K(2)), hyps=list(I.pc), func="dg1d.sensor.Sensor.__init__")
            # leftovers of an earlier evaluation
            I.setattr(sn, "sensors", Arr(Buf(sa.shape, lambda ix: T.app("old", *ix, sort="I"), "i")))
            n0 = len(I.vlog)
            I.call(I.getattr(sn, "sensing"), [sol], {})
            log = I.vlog[n0:]
            chk.require(L + "the sensor of the system is evaluated once, on this solution", len(log) == 1 and log[0][0] == PHYS[system] and log[0][3] is sol, "dg1d.sensor.Sensor.sensing", repr([x[0] for x in log]))
            if len(log) == 1:
                a = I.np.asarr(I.getattr(sn, "sensors"))
                b = I.np.asarr(log[0][1])
                chk.require(L + "the flags passed are those of the solution", a is b or a.buf is b.buf, "dg1d.sensor.Sensor.sensing")
                chk.prove_eq(L + "the flags start from zero", b.at(e), K(0), hyps=list(I.pc), func="dg1d.sensor.Sensor.sensing")
                chk.require(L + "with its thresholds", log[0][2] is I.getattr(sn, "thresholds"), "dg1d.sensor.Sensor.sensing")
        chk.run(I, go, system + ", sensors", quants=list(I.lemmas))


def use_enhance(I):
    def init(I, args, kw):
        o, order, method, size = (list(args) + list(kw.values()))[:4]
        for k, v in (("asked_order", order), ("asked_method", method), ("asked_size", size)):
            I.setattr(o, k, v)

    def face(I, args, kw):
        o, u, nf = (list(args) + list(kw.values()))[:3]
        t = tok(I, u)
        return Arr(Buf((T.const(2), I.np.asarr(u).shape[1]), lambda idx: T.app("enhanced", I.getattr(o, "asked_method"), t, *idx)))
    I.contracts["dg1d.enhance.Enhance.__init__"] = init
    I.contracts["dg1d.enhance.Enhance.face_value"] = face


def faces(chk, I, sol, enh, p, L):
    """the face values are the plain ones, or those of the enhancement enh"""
    F_ = "dg1d.solution.Solution.evaluate_faces"
    u = arbitrary(I, sol, "coef")
    got = I.np.asarr(I.call(I.getattr(sol, "evaluate_faces"), [], {}))
    c = INT("c")
    hy = list(I.pc) + [T.le(0, c), T.lt(c, u.shape[1])]
    for side in (0, 1):
        if enh is None:
            psi = I.np.asarr(I.getattr(I.getattr(sol, "basis"), "psi"))
            k = T.fresh("k", "I")
            want = T.sum_(k, K(0), T.add(p, K(1)), T.mul(psi.at(K(side), k), T.app("coef", k, c)))
        else:
            want = T.app("enhanced", enh, tok(I, u), K(side), c)
        chk.prove_eq(L + "face values at side %d" % side, got.at(K(side), c), want, hyps=hy, func=F_, quants=list(I.lemmas))


def enhancement(chk):
    for system, nf, ic in SYSTEMS:
        for on in (False, True):
            I = chk.interp()
            N, p = sym_mesh(I)
            use_enhance(I)
            e = text(I, "enhancement", "") if on else ""
            L = "%s, enhancement %s: " % (system, "named" if on else "not named")

            def go():
                sol = new_solution(I, system, ic, N, p, enhance=e)
                if on:
                    enh = I.getattr(sol, "enhance")
                    kw = dict(hyps=list(I.pc), func="dg1d.solution.Solution.__init__")
                    chk.prove_eq(L + "of the deck's type", I.getattr(enh, "asked_method"), e, **kw)
                    chk.prove_eq(L + "of the solution's order", I.getattr(enh, "asked_order"), p, **kw)
                    chk.prove_eq(L + "for all columns", T.const(I.getattr(enh, "asked_size")), T.scale(F(nf), T.add(N, K(2))), **kw)
                faces(chk, I, sol, e if on else None, p, L)
            chk.run(I, go, L, quants=list(I.lemmas))


def use_limiter(I):
    I.contracts["dg1d.limiting.Limiter.hr"] = hr_contract

    def sensing(I, args, kw):
        sn = args[0]
        a = I.np.asarr(I.getattr(sn, "sensors"))
        I.setattr(sn, "sensors", Arr(Buf(a.shape, lambda ix: K(1), "i")))
    I.contracts["dg1d.sensor.Sensor.sensing"] = sensing


def limited(chk, I, sol, lim, on, N, p, nf, L):
    """with every cell flagged: hierarchical reconstruction if it is selected, nothing otherwise"""
    from pyvc.npmodel import canon
    F_ = "dg1d.limiting.Limiter.limit"
    arbitrary(I, sol, "coef")
    I.call(I.getattr(lim, "limit"), [sol], {})
    u = I.np.asarr(I.getattr(sol, "u"))
    s, e = INT("s"), INT("e")
    hy = list(I.pc) + [T.le(0, s), T.le(s, p), T.le(1, e), T.le(e, N)]
    for f in range(nf):
        j = lambda q: T.add(T.scale(F(nf), q), K(f))
        c = lambda q: T.app("coef", canon(0), j(q))
        want = T.app("hr", c(e), c(T.sub(e, K(1))), c(T.add(e, K(1))), s) if on else T.app("coef", s, j(e))
        chk.prove_eq(L + "field %d: flagged cells are %s" % (f, "reconstructed" if on else "left alone"), u.at(s, j(e)), want, hyps=hy, func=F_, quants=list(I.lemmas))


def limiter(chk):
    for system, nf, ic in SYSTEMS:
        for on in (False, True):
            I = chk.interp()
            N, p = sym_mesh(I)
            use_limiter(I)
            name = "adaptive_hr" if on else text(I, "limiting", "adaptive_hr")
            L = "%s, limiting %s: " % (system, "adaptive_hr" if on else "anything else")

            def go():
                sol = new_solution(I, system, ic, N, p, thresholds=[R("th0"), R("th1")])
                lim = I.call(cls(I, "limiting", "Limiter"), [name, sol], {})
                I.simplify_on()
                limited(chk, I, sol, lim, on, N, p, nf, L)
            chk.run(I, go, L, quants=list(I.lemmas))


# ---------------------------------------------------------------- integrators
def generic_table(name):
    """an arbitrary explicit two-stage table, one per scheme name"""
    e = lambda x, *i: T.app("%s!%s" % (x, name), *[K(k) for k in i])

    def c(I, args, kw):
        b = [[T.const(F(0))], [e("beta", 1, 0)]]
        arr = lambda rows: I.np.asarr(PyList([PyList(r) if isinstance(r, list) else r for r in rows]))
        return (arr([e("c", 0), e("c", 1)]), arr([T.const(F(0)), e("alpha", 1)]), arr(b))
    return c, e


class Integrator(Harness):
    """one arbitrary step through rk.integrate is the step of the table of the selected scheme"""
    def check(self):
        I = self.I
        L = self.scheme
        self.tables = {}
        for s in TABLES:
            I.contracts["dg1d.rk_coeffs.get_%s_coefficients" % s], self.tables[s] = generic_table(s)
        if L == "another scheme":
            self.scheme = text(I, "scheme", "low_storage_rk4", *TABLES)
        # the weights of the tables count (smart_axpy skips weights of magnitude below 1e-15)
        for e in self.tables.values():
            for w in (e("c", 0), e("c", 1), e("beta", 1, 0)):
                I.assume(T.lt(T.const(F(1, 10 ** 15)), w))
        self.label = L
        self.chk.run(I, self.go, "integrator " + L, normal=False, defined=False)
        self.chk.require("integrator %s: the time loop was reached" % L, self.heads > 0)
        self.chk.require("integrator %s: a step was executed" % L, getattr(self, "steps", 0) > 0)

    def outcome(self, o, pre):
        if o.kind not in ("normal",):
            return
        self.steps = getattr(self, "steps", 0) + 1
        chk, I = self.chk, self.I
        u, t, n = pre
        u1, t1, n1 = self.state()
        dt = T.sub(t1, t)
        if self.label == "low_storage_rk4":
            c, beta = [F(1, 6), F(1, 3), F(1, 3), F(1, 6)], [[], [F(1, 2)], [0, F(1, 2)], [0, 0, 1]]
        else:
            e = self.tables[self.label if self.label in TABLES else "rk4"]
            c, beta = [e("c", 0), e("c", 1)], [[], [e("beta", 1, 0)]]
        ks = []
        for k in range(len(c)):
            U = comb(u, [(beta[k][j], ks[j]) for j in range(k) if T.const(beta[k][j]) is not T.const(0)])
            if k > 0:
                U = operator(I, "LIM", U)
            r = operator(I, "RES", U).reader()
            ks.append(Arr(Buf(u.shape, lambda idx, r=r: T.mul(dt, r(idx)))))
        want = operator(I, "LIM", operator(I, "BC", comb(u, list(zip(c, ks)))))
        i, j = INT("i"), INT("j")
        chk.prove_eq("integrator %s: the step is that of the %s" % (self.label, "low-storage scheme" if self.label == "low_storage_rk4" else "scheme's table" if self.label in TABLES else "classical fourth-order table"),
                     u1.at(i, j), want.at(i, j), hyps=list(I.pc), func="dg1d.rk.integrate")


# ---------------------------------------------------------------- entry point
def entry(chk, system):
    I = chk.interp()
    N, p = sym_mesh(I)
    physics(I)
    use_enhance(I)
    nf = 3 if system == "euler" else 1
    F_ = "dg1d.main"
    seq = SymSeq(INT("nth"), lambda k: T.app("threshold", k))
    I.assume(T.le(0, seq.n))
    st = dict(rk=T.var("scheme", "S"), nout=INT("nout"), finaltime=R("tf"), cfl=R("cfl"), order=p, system=system, sensor_thresholds=seq)
    read = []

    def parse(I, args, kw):
        d, f = (list(args) + list(kw.values()))[:2]
        read.append(f)
        for k, v in st.items():
            I.setattr(d, k, v)
    I.contracts["dg1d.deck.Deck.parser"] = parse
    use_limiter(I)
    for m in ("helpers", "deck", "solution", "rk", "dg", "limiting"):
        I.module("dg1d." + m)

    def go():
        del read[:]
        runs = []
        on = I.choose(2)
        en = I.choose(2)
        fl = I.choose(4)
        flux = ("rusanov", "godunov", "roe", "another flux")[fl]
        st["riemann"] = names(I, system, flux)[1]
        st["limiting"] = "adaptive_hr" if on else text(I, "limiting", "adaptive_hr")
        st["enhance"] = text(I, "enhancement", "") if en else ""
        st["ic"] = I.mkstr([("entrpyw " if system == "euler" else "sinewave "), I.fmt(N, "d")])
        if on:
            I.assume(T.lt(0, seq.n))       # adaptive limiting needs sensors

        def integrate(I, args, kw):
            a = dict(zip(("solution", "deck", "dgsolver", "limiter"), args), **kw)
            runs.append(a)
        I.contracts["dg1d.rk.integrate"] = integrate
        m = I.load("dg1d.main", main=True)
        I.exec_block(m.tree.body, m.frame)
        L = "entry point %s/%s: " % (system, flux)
        chk.require(L + "one deck is read, the one named on the command line", len(read) == 1 and read[0] is T.var("arg:deck", "S"), F_)
        chk.require(L + "one run", len(runs) == 1, F_)
        if len(runs) != 1:
            return
        a = runs[0]
        sol, d, lim = a["solution"], a["deck"], a["limiter"]
        for k in ("rk", "nout", "finaltime", "cfl"):
            chk.prove_eq(L + "the integrator gets the deck's " + k, I.getattr(d, k), st[k], hyps=list(I.pc), func=F_)
        chk.prove_eq(L + "mesh", T.const(I.getattr(sol, "N_E")), N, hyps=list(I.pc), func=F_)
        chk.prove_eq(L + "order", T.const(I.getattr(I.getattr(sol, "basis"), "p")), p, hyps=list(I.pc), func=F_)
        chk.prove_eq(L + "start time", T.const(I.getattr(sol, "t")), K(0), hyps=list(I.pc), func=F_)
        some = I.decide(T.lt(0, seq.n))
        sensing = T.const(I.getattr(sol, "issensing"))
        chk.prove(L + "sensors on exactly if there are thresholds", sensing if some else T.not_(sensing), hyps=list(I.pc), func=F_)
        if some:
            thresholds(chk, I, sol, seq, L)
        faces(chk, I, sol, st["enhance"] if en else None, p, L + ("enhancement " if en else "no enhancement "))
        selected(chk, I, sol, system, flux, L)
        I.simplify_on()
        limited(chk, I, sol, lim, bool(on), N, p, nf, L)
        # the spatial operator is that of this solution: its face and volume fluxes are asked of it
        chk.require(L + "a spatial operator is passed", isinstance(a["dgsolver"], Obj) and a["dgsolver"].cls is cls(I, "dg", "DG"), F_)
    chk.run(I, go, "entry point " + system, quants=list(I.lemmas))
