import re
from pyvc.prove import Prover
from .flux import *

EPS = Fraction(1) - Fraction("1e-15")


def spec(chk):
    todo = [("mass flux, shock", lambda: shock(chk)), ("mass flux, rarefaction", lambda: fan(chk)), ("mass flux, not a number", lambda: negative(chk))]
    for s in (-1, 1):
        todo.append(("sonic state %+d" % s, lambda s=s: sonic_state(chk, s)))
    todo.append(("godunov", lambda: godunov(chk)))
    todo.append(("godunov, every face", lambda: every_face(chk)))
    chk.tasks(todo)
    chk.assume_note("admissible states: positive density and pressure, any gamma > 1; powers: 0 <= x < 1 and e > 0 give 0 <= x^e < 1")
    chk.assume_note("the isentropic relation is stated for a star pressure above zero (vacuum itself excluded)")
    chk.assume_note("pressure ratios within 1e-15 of one count as shocks (the documented smallness of the code)")


def powers(*ts):
    """facts about real powers occurring in the terms"""
    out = []
    for t in T_all(ts):
        b, e = t.args
        out += [T.implies(T.and_(T.le(0, b), T.lt(b, 1), T.lt(0, e)), T.and_(T.le(0, t), T.lt(t, 1))), T.implies(T.lt(0, b), T.lt(0, t))]
    return out


def T_all(ts):
    seen, out = set(), []
    for t in ts:
        T.subterms(T.const(t), seen, out)
    return [t for t in out if t.op == "rpow"]


def physics(chk):
    I = chk.interp()
    set_gamma(I)
    I.hooks["nan"] = True
    r, c, pm = R("r"), R("c"), R("pm")
    for x in (r, c):
        I.assume(T.lt(0, x))
    I.simplify_on()
    return I, r, c, div(mul(r, sq(c)), GAMMA), pm


MF = "dg1d.euler_physics.massflux"


def call_massflux(I, *a):
    return I.call(fn(I, "euler_physics", "massflux"), list(a), {})


def shock(chk):
    I, r, c, p, pm = physics(chk)
    I.assume(T.le(sc(EPS, p), pm))
    chk.cover(I.pc, "a star pressure above the pressure")
    P = R("P")
    J = chk.interp()

    def go():
        m = call_massflux(I, r, c, p, pm)
        kw = dict(hyps=list(I.pc), func=MF)
        g = GAMMA
        want = mul(r, add(sc("1/2", mul(add(g, ONE), pm)), sc("1/2", mul(sub(g, ONE), p))))
        chk.prove_eq("shock: the mass flux squared is rho ((g+1)/2 p* + (g-1)/2 p)", sq(m), want, **kw)
        chk.prove("shock: the mass flux is positive", T.lt(0, m), **kw)
        # Rankine-Hugoniot: density behind the shock from the energy jump, mass flux from the momentum jump
        G = div(add(g, ONE), sub(g, ONE))
        rs = div(mul(r, add(mul(G, pm), p)), add(mul(G, p), pm))
        h = dict(kw, hyps=list(I.pc))
        e = lambda pp, rr: div(pp, mul(sub(g, ONE), rr))
        chk.prove_eq("shock: internal energy jump for the density behind it", sub(e(pm, rs), e(p, r)),
                     sc("1/2", mul(add(p, pm), sub(div(ONE, r), div(ONE, rs)))), **h)
        chk.prove_eq("shock: the mass flux satisfies the momentum jump condition", mul(sq(m), sub(div(ONE, r), div(ONE, rs))), sub(pm, p), **h)
    chk.run(I, go, "mass flux across a shock")

    # the contract used by the callers: any positive density, sound speed and pressure
    I2, r2, c2, _, pm2 = physics(chk)
    I2.assume(T.lt(0, P))
    I2.assume(T.le(sc(EPS, P), pm2))

    def contract():
        m = call_massflux(I2, r2, c2, P, pm2)
        chk.prove("mass flux contract: positive across a shock", T.lt(0, m), hyps=list(I2.pc), func=MF)
    chk.run(I2, contract, "mass flux contract (shock)")


def fan(chk):
    I, r, c, p, pm = physics(chk)
    I.assume(T.le(0, pm))
    I.assume(T.lt(pm, sc(EPS, p)))
    chk.cover(I.pc, "a star pressure below the pressure")

    def go():
        m = call_massflux(I, r, c, p, pm)
        g = GAMMA
        x = T.power(div(pm, p), div(sub(g, ONE), sc(2, g)))
        h = list(I.pc) + powers(m, x)
        # across an isentropic simple wave the velocity changes by 2/(g-1) times the change in sound speed c - c (p*/p)^((g-1)/2g)
        du = mul(div(T.const(2), sub(g, ONE)), sub(c, mul(c, x)))
        chk.prove_eq("rarefaction: mass flux times the isentropic velocity change is the pressure drop", mul(m, du), sub(p, pm), hyps=h + [T.lt(0, pm)], func=MF)
        chk.prove("rarefaction: the mass flux is positive", T.lt(0, m), hyps=h, func=MF)
    chk.run(I, go, "mass flux across a rarefaction")

    P = R("P")
    I2, r2, c2, _, pm2 = physics(chk)
    I2.assume(T.lt(0, P))
    I2.assume(T.le(0, pm2))
    I2.assume(T.lt(pm2, sc(EPS, P)))

    def contract():
        m = call_massflux(I2, r2, c2, P, pm2)
        chk.prove("mass flux contract: positive across a rarefaction", T.lt(0, m), hyps=list(I2.pc) + powers(m), func=MF)
    chk.run(I2, contract, "mass flux contract (rarefaction)")


def negative(chk):
    I, r, c, p, pm = physics(chk)
    P = R("P")
    I.assume(T.lt(0, P))
    I.assume(T.lt(pm, 0))

    def go():
        m = call_massflux(I, r, c, P, pm)
        chk.require("mass flux contract: not a number for a negative star pressure", m is NAN, MF, "%r" % (m,))
    chk.run(I, go, "mass flux, negative star pressure")


def sonic_state(chk, s):
    """s = -1: fan of the left-running wave, characteristic speed u - c; s = +1: u + c"""
    I = chk.interp()
    set_gamma(I)
    I.hooks["nan"] = True
    I.simplify_on()
    u1, c1, P1, u2, c2 = [R(x) for x in ("u1", "c1", "P1", "u2", "c2")]
    I.assume(T.lt(0, c1))
    I.assume(T.lt(0, P1))
    I.assume(T.le(0, c2))
    a1, a2 = add(u1, sc(s, c1)), add(u2, sc(s, c2))
    I.assume(T.or_(T.and_(T.lt(a1, 0), T.lt(0, a2)), T.and_(T.lt(0, a1), T.lt(a2, 0))))
    chk.cover(I.pc, "a fan that spans the face")
    F_ = "dg1d.euler_physics.sonic"

    def go():
        U = I.call(fn(I, "euler_physics", "sonic"), [u1, c1, P1, u2, c2, a1, a2], {})
        U1, U2, U3 = [T.toR(T.const(x)) for x in (U.items if isinstance(U, PyList) else U)]
        g = GAMMA
        lo, hi = (a1, a2)
        w1, w2 = div(a2, sub(a2, a1)), div(sc(-1, a1), sub(a2, a1))
        cs = add(mul(w1, c1), mul(w2, c2))
        for cond, nm in ((T.and_(T.lt(a1, 0), T.lt(0, a2)), "opening"), (T.and_(T.lt(0, a1), T.lt(a2, 0)), "closing")):
            h = list(I.pc) + [cond]
            L = "sonic state, u %s c, %s: " % ("-" if s < 0 else "+", nm)
            # in steps: weights positive, so the interpolated sound speed is
            chk.prove(L + "weights are positive", T.and_(T.lt(0, w1), T.lt(0, w2)), hyps=h, func=F_)
            h = h + [T.lt(0, w1), T.lt(0, w2)]
            chk.prove(L + "sound speed is positive", T.lt(0, cs), hyps=h, func=F_)
            h = h + [T.lt(0, cs)]
            h += powers(U1, U3)
            chk.prove(L + "density is positive", T.lt(0, U1), hyps=h, func=F_)
            h = h + [T.lt(0, U1)]
            u = div(U2, U1)
            p = mul(sub(g, ONE), sub(U3, sc("1/2", mul(U2, u))))
            chk.prove_eq(L + "the velocity is %s the interpolated sound speed" % ("plus" if s < 0 else "minus"), u, sc(-s, cs), hyps=h, func=F_)
            chk.prove_eq(L + "that is the local sound speed: c^2 = gamma p / rho", sq(cs), div(mul(g, p), U1), hyps=h, func=F_)
            chk.prove_eq(L + "the pressure lies on the isentrope of the state ahead", p,
                         mul(T.power(div(cs, c1), div(sc(2, g), sub(g, ONE))), P1), hyps=h, func=F_)
    chk.run(I, go, "sonic state")


def godunov(chk):
    """one face whose flow is not supersonic: every normal end comes from a converged star pressure, and the flux is the physical
    flux of the state at the face in the wave pattern of that star pressure"""
    I = chk.interp()
    I.lemmas.append(POS)
    set_gamma(I)
    use_massflux(I)
    I.simplify_on()
    M, i = T.const(1), K(0)
    l, r = L_(i), R_(i)
    I.assume(T.lt(l.v, l.a))
    I.assume(T.lt(sc(-1, r.a), r.v))
    chk.cover(I.pc + I.facts(I.pc), "not supersonic")
    F_ = "dg1d.euler_physics.riemann_godunov"

    def go():
        h = call_flux(I, "godunov", M, L_, R_)
        val = [T.toR(T.const(h.at(K(k)))) for k in range(3)]
        star(chk, I, val, l, r, F_)
    for o in chk.run(I, go, "godunov", normal=False, quants=list(I.lemmas)):
        chk.require("godunov: a face either gets its flux or the run stops", o.kind in ("normal", "ret", "exit"), F_, str(o.kind))


def every_face(chk):
    """the flux of face i among M faces is the flux the same two states get as the only face: what is proved of one face holds of each"""
    I, M, i = euler(chk)
    use_massflux(I)
    many, one_ = [], []
    I.explore(lambda: collect(many, call_flux(I, "godunov", M, L_, R_), i))
    I = chk.interp()
    I.lemmas.append(POS)
    set_gamma(I)
    use_massflux(I)
    I.simplify_on()
    I.explore(lambda: collect(one_, call_flux(I, "godunov", T.const(1), L_, R_), K(0)))
    F_ = "dg1d.euler_physics.riemann_godunov"
    for k in range(3):
        a = {T.subst(v[k], {i: K(0), M: K(1)}).id for v in many}
        b = {v[k].id for v in one_}
        chk.require("godunov: component %d of face i is that of the same states alone" % k, a == b, F_, "different value")


def collect(out, h, i):
    out.append([T.toR(T.const(h.at(T.add(T.scale(F(3), i), K(k))))) for k in range(3)])


class Star:
    """the star state in a flux that is not supersonic: the mass fluxes, star pressures, star velocity and sound speeds behind the
    waves that the value mentions get names, so that the wave patterns can be taken apart"""
    def __init__(self, I, vals, l, r):
        self.I, self.l, self.r = I, l, r
        side = {l.rho.id: "L", r.rho.id: "R"}
        seen = {}
        for t in list(vals) + list(I.pc):
            for a in T.all_apps(t):
                if a.val == "massflux":
                    seen[a.id] = a
        byp = {}
        for a in seen.values():
            s_ = side.get(a.args[0].id)
            if s_ is None or a.args[1] is not {"L": l, "R": r}[s_].a:
                raise Unsupported("mass flux of another state than the two of the face")
            byp.setdefault(a.args[3].id, {})[s_] = a
        pairs = [d for d in byp.values() if len(d) == 2]
        if not pairs:
            raise Unsupported("no pair of mass fluxes")
        pairs.sort(key=lambda d: T.size(d["L"]))
        self.m, self.named, pm = {}, [], {}
        for j, d in enumerate(pairs):
            P = T.var("P!%d" % j)
            self.m[d["L"]], self.m[d["R"]] = T.var("mL!%d" % j), T.var("mR!%d" % j)
            self.named.append((P, T.var("mL!%d" % j), T.var("mR!%d" % j), d["L"].args[3]))
            pm[d["L"].args[3]] = P
        allm = dict(self.m)
        allm.update(pm)
        self.pc = [c for c in (T.subst(c, allm) for c in I.pc) if not any(re.match(r"loop|lv|nanmode", x.val) for x in T.all_apps(c))
                   and not any(re.match(r"lv|nanmode", str(x.val)) for x in T.vars_of(c))]
        self.val = [T.subst(v, allm) for v in vals]
        used = {x.id for v in self.val for x in T.vars_of(v)}
        self.final = [q for q in self.named if q[1].id in used and q[2].id in used]
        self.light = [c for c in self.pc if T.size(c) < 60]
        self.heavy = [c for c in self.pc if T.size(c) >= 60]
        self.V, self.C = T.var("v!m"), (T.var("c!L"), T.var("c!R"))

    def density(self, s, shock):
        g, P = GAMMA, self.final[0][0]
        if shock:
            return div(mul(s.rho, add(mul(add(g, ONE), P), mul(sub(g, ONE), s.p))), add(mul(sub(g, ONE), P), mul(add(g, ONE), s.p)))
        return mul(s.rho, T.power(div(P, s.p), div(ONE, g)))

    def velocity(self):
        P, mL, mR, _ = self.final[0]
        l, r = self.l, self.r
        return div(sub(add(mul(mL, l.v), mul(mR, r.v)), sub(r.p, l.p)), add(mL, mR))

    def patterns(self):
        """per wave pattern: its name, the values with the names in, what is found of them, hypotheses, densities, regions"""
        I, l, r, V, C = self.I, self.l, self.r, self.V, self.C
        P, mL, mR, _ = self.final[0]
        vm = self.velocity()
        nowave = lambda c: not any(x.op == "sqrt" or x in (mL, mR) for x in T.subterms(c))
        for kl in (True, False):
            for kr in (True, False):
                rm = self.density(l, kl), self.density(r, kr)
                am = [T.sqrt(div(mul(GAMMA, P), x)) for x in rm]
                pat = [T.le(s_.p, P) if k else T.lt(P, s_.p) for s_, k in ((l, kl), (r, kr))]
                ln = "%s left, %s right" % tuple("shock" if k else "rarefaction" for k in (kl, kr))
                h = self.light + pat
                v = settle(I, self.val + self.heavy, h, nowave)
                v, found = name(I, v, h, [(V, vm, "div", vm.args[1]), (sc(-1, V), sc(-1, vm), "div", vm.args[1]), (C[0], am[0], "sqrt", None), (C[1], am[1], "sqrt", None)])
                v, heavy = v[:len(self.val)], v[len(self.val):]
                h = h + [T.le(0, C[0]), T.le(0, C[1])]
                S = sub(V, C[0]), add(V, C[1])
                regions = [("star region, contact moves right", [T.le(S[0], 0), T.le(0, S[1]), T.le(0, V)], 0),
                           ("star region, contact moves left", [T.le(S[0], 0), T.le(0, S[1]), T.lt(V, 0)], 1),
                           ("inside the left fan", [T.lt(0, S[0]), T.lt(sub(l.v, l.a), 0)], 2),
                           ("inside the right fan", [T.lt(S[1], 0), T.lt(0, add(r.v, r.a))], 3)]
                yield ln, v, found, h, heavy, rm, S, regions


def star(chk, I, val, l, r, F_):
    w = Star(I, val, l, r)
    pc = w.pc
    chk.require("godunov: one star pressure makes the flux", len(w.final) == 1, F_, "%d pairs of mass fluxes in the flux" % len(w.final))
    if len(w.final) != 1:
        return
    P, mL, mR, arg = w.final[0]
    # convergence: the star pressure is an iterate whose residual is below the tolerance
    tol = T.const(Fraction("1e-6"))
    up = lambda a, b: div(sub(add(mul(a, r.p), mul(b, l.p)), mul(a, b, sub(r.v, l.v))), add(a, b))
    near = []
    for Q, a, b, arg_ in w.named:
        if arg_.op == "v" and arg_.val.startswith("lv"):
            continue
        for X, d in ((P, arg), (Q, arg_)):
            # X = the update of Q: as defined by the code
            e = T.subst(d, w.m)
            if Q is not X and P in (Q, X):
                near.append(T.and_(T.eq(e, up(a, b)), T.lt(T.abs_(sub(X, Q)), tol)))
    chk.prove("godunov: the fixed-point residual of the star pressure is below the tolerance", T.or_(*near), hyps=pc, func=F_)
    chk.prove("godunov: positive mass fluxes and star pressure not negative", T.and_(T.lt(0, mL), T.lt(0, mR), T.le(0, P)), hyps=pc, func=F_)
    # wave pattern of the star pressure
    g, V, C = GAMMA, w.V, w.C
    for ln, v, found, h, heavy, rm, S, regions in w.patterns():
        chk.require("godunov, %s: star velocity and sound speeds as the wave relations give them" % ln,
                    {V.id, C[0].id, C[1].id} <= set(found), F_, "not found in the flux")
        chk.prove("godunov, %s: every normal end is in one of the regions below" % ln, T.or_(*[T.and_(*c) for _, c, _ in regions]),
                  hyps=h + heavy, func=F_)
        for nm, conds, what in regions:
            x = settle(I, v, h + conds)
            L = "godunov, %s, %s: " % (ln, nm)
            hh = h + conds
            if what < 2:
                D = rm[what]
                e = div(P, sub(g, ONE))
                want = [mul(D, V), add(mul(D, sq(V)), P), mul(V, add(e, P, sc("1/2", mul(D, sq(V)))))]
                hh = hh + [T.lt(0, P)] + powers(D)
            else:
                s_, k, sg = ((l, 0, -1), (r, 1, 1))[what - 2]
                U = [T.app("sonic%d" % j, s_.v, s_.a, s_.p, V, C[k], add(s_.v, sc(sg, s_.a)), S[k]) for j in range(3)]
                pp = mul(sub(g, ONE), sub(U[2], div(sq(U[1]), sc(2, U[0]))))
                want = [U[1], add(div(sq(U[1]), U[0]), pp), div(mul(add(U[2], pp), U[1]), U[0])]
            for j in range(3):
                chk.prove_eq(L + "component %d is the physical flux of that state" % j, x[j], want[j], hyps=hh, func=F_, quants=[massflux_fact])


def settle(I, ts, hyps, only=None):
    """drop the conditional parts that the hypotheses decide, innermost conditions first"""
    ts = list(ts)
    saved = I.pc
    undecided = set()
    try:
        I.pc = list(hyps)
        while True:
            todo = {}
            for t in ts:
                for x in T.subterms(t):
                    if x.op == "ite" and x.args[0].id not in undecided and (only is None or only(x.args[0])):
                        todo[x.args[0].id] = x.args[0]
            todo = [c for c in todo.values() if not any(y.op == "ite" and y.args[0].id not in undecided and (only is None or only(y.args[0])) for y in T.subterms(c))]
            m = {}
            if not todo:
                for x in {y.id: y for t in ts for y in T.subterms(t) if y.op in ("max", "min")}.values():
                    a, b = x.args if x.op == "max" else x.args[::-1]
                    if I.implied(T.le(b, a)):
                        m[x] = x.args[0]
                    elif I.implied(T.le(a, b)):
                        m[x] = x.args[1]
                if not m:
                    return ts
            for c in todo:
                if I.implied(c):
                    m[c] = T.TRUE
                elif I.implied(T.not_(c)):
                    m[c] = T.FALSE
                else:
                    undecided.add(c.id)
            ts = [T.subst(t, m) for t in ts]
    finally:
        I.pc = saved


def name(I, ts, hyps, names):
    """replace the subterms equal to the given expressions by their names"""
    saved = I.pc
    found = []
    try:
        I.pc = list(hyps)
        for v, e, op, den in names:
            m = {}
            cand = {x.id: x for t in ts for x in T.subterms(t) if x.op == op and (den is None or x.args[1] is den)}
            for x in cand.values():
                a, b = (x, e) if op != "sqrt" else (x.args[0], e.args[0])
                if a is b or Prover(hyps, (), (), (), 4000, 400, 20).prove(T.eq(a, b)).ok:
                    m[x] = v
            if m:
                found.append(T.const(v).id)
            ts = [T.subst(t, m) for t in ts]
    finally:
        I.pc = saved
    return ts, found
