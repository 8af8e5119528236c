from .flux import *
from pyvc.prove import Prover
from .c25 import settle

RU, RO, GO = ["dg1d.euler_physics.riemann_" + f for f in FLUXES]


def spec(chk):
    chk.tasks([("rusanov", lambda: rusanov(chk)), ("roe waves", lambda: waves(chk))] +
              [("roe %s %s" % (a, b), lambda a=a, b=b: roe(chk, a, b)) for a in ("none", "off", "on") for b in ("none", "off", "on")] +
              [("roe, contact at rest", lambda: roe_contact(chk)), ("godunov, contact at rest", lambda: godunov_contact(chk))])
    chk.assume_note("admissible states: positive density and pressure (parametrised by density q^2, sound speed a>0, any velocity), any gamma>1")


def rusanov(chk):
    I, M, i = euler(chk)
    l, r = L_(i), R_(i)

    def go():
        h = call_flux(I, "rusanov", M, L_, R_)
        speed = lambda s: add(T.abs_(s.v), s.a)
        s = T.max_(speed(l), speed(r))
        for k in range(3):
            want = sub(sc("1/2", add(l.flux()[k], r.flux()[k])), sc("1/2", mul(s, sub(r.u[k], l.u[k]))))
            chk.prove_eq("rusanov: component %d is the mean flux minus half the jump times the larger wave speed" % k, h.at(T.add(T.scale(F(3), i), K(k))), want,
                         hyps=list(I.pc), quants=list(I.lemmas), func=RU)
    chk.run(I, go, "rusanov", quants=list(I.lemmas))


def decomposition(l, r):
    """speeds, strengths and vectors of the three waves of the Roe linearisation"""
    v, H, a = roe_average(l, r)
    rho = mul(l.q, r.q)
    dp, dv, dr = sub(r.p, l.p), sub(r.v, l.v), sub(r.rho, l.rho)
    lam = [sub(v, a), v, add(v, a)]
    st = [div(sub(dp, mul(rho, a, dv)), sc(2, sq(a))), sub(dr, div(dp, sq(a))), div(add(dp, mul(rho, a, dv)), sc(2, sq(a)))]
    vec = [[ONE, sub(v, a), sub(H, mul(v, a))], [ONE, v, sc("1/2", sq(v))], [ONE, add(v, a), add(H, mul(v, a))]]
    return lam, st, vec


def waves(chk):
    """the three waves make up the jump of the states and, times their speeds, the jump of the fluxes (lemma on the definition)"""
    I, M, i = euler(chk)
    l, r = L_(i), R_(i)
    lam, st, vec = decomposition(l, r)
    for k in range(3):
        chk.prove_eq("roe: the waves add up to the jump of the states, component %d" % k, add(*[mul(st[w], vec[w][k]) for w in range(3)]), sub(r.u[k], l.u[k]),
                     hyps=list(I.pc), quants=list(I.lemmas), func=RO)
        chk.prove_eq("roe: the waves times their speeds add up to the jump of the fluxes, component %d" % k,
                     add(*[mul(lam[w], st[w], vec[w][k]) for w in range(3)]), sub(r.flux()[k], l.flux()[k]), hyps=list(I.pc), quants=list(I.lemmas), func=RO)
    # the radicand of the Roe sound speed is a sum of non-negative terms, one of them positive (so the named root is positive)
    rad, w = roe_average(l, r)[2].args[0], add(l.q, r.q)
    s1 = div(add(mul(l.q, sq(l.a)), mul(r.q, sq(r.a))), w)
    s2 = div(sc("1/2", mul(sub(GAMMA, ONE), l.q, r.q, sq(sub(r.v, l.v)))), sq(w))
    kw = dict(hyps=list(I.pc), quants=list(I.lemmas), func=RO)
    chk.prove_eq("roe: the squared sound speed is the mean of the squared sound speeds plus the velocity jump term", rad, add(s1, s2), **kw)
    chk.prove("roe: the mean of the squared sound speeds is positive", T.lt(0, s1), **kw)
    chk.prove("roe: the velocity jump term is not negative", T.le(0, s2), **kw)
    D, x = R("D"), R("x")
    chk.prove("roe: the entropy correction never lowers the magnitude of a wave speed", T.le(T.abs_(x), add(div(sq(x), D), sc("1/4", D))),
              hyps=[T.lt(0, D)], func=RO)


def roe(chk, fix0, fix2):
    I, M, i = euler(chk)
    l, r = L_(i), R_(i)
    lam, st, vec = decomposition(l, r)
    ws = [T.abs_(x) for x in lam]
    for k, s, how in ((0, -1, fix0), (2, 1, fix2)):
        w = spread(l, r, s)
        I.assume(T.le(w, 0) if how == "none" else T.and_(T.lt(0, w), T.le(sc(2, w), ws[k])) if how == "off" else T.and_(T.lt(0, w), T.lt(ws[k], sc(2, w))))
        if how == "on":
            ws[k] = add(div(sq(lam[k]), sc(4, w)), w)
    chk.cover(I.pc + I.facts(I.pc), "corrections %s %s" % (fix0, fix2))
    # the Roe velocity and sound speed are named
    V, A = T.var("v!roe"), T.var("a!roe")
    v, H, a = roe_average(l, r)
    given = lambda c: T.subst(c, {a: A, v: V})
    L = "roe, entropy corrections %s/%s: " % (fix0, fix2)
    samples = [Sample(n, {"v!roe": v, "a!roe": a}) for n in range(3)]

    def go():
        h = call_flux(I, "roe", M, L_, R_)
        ring = Prover(list(I.pc), [POS], (), (), 1000, 50, 10)
        same = lambda x, y: all(s.near(x, y) for s in samples) and ring.prove(T.eq(x, y)).ok
        hyps = [given(c) for c in I.pc] + [T.lt(0, A), T.lt(0, l.a), T.lt(0, r.a), T.lt(0, l.q), T.lt(0, r.q)]
        for k in range(3):
            want = sub(sc("1/2", add(l.flux()[k], r.flux()[k])), sc("1/2", add(*[mul(ws[w], st[w], vec[w][k]) for w in range(3)])))
            got = T.toR(T.const(h.at(T.add(T.scale(F(3), i), K(k)))))
            got = roots(got, same, [(l.a, l.a), (r.a, r.a), (div(r.q, l.q), div(r.q, l.q)), (a, A)])
            got = quotients(got, same, [(l.v, l.v), (r.v, r.v), (v, V)])
            got, = settle(I, [got], hyps)
            chk.prove_eq(L + "component %d is the mean flux minus half the waves times their speeds" % k, got, given(want),
                         hyps=hyps, quants=list(I.lemmas), func=RO)
    chk.run(I, go, L, quants=list(I.lemmas))


class Sample:
    """one admissible pair of states in floating point: only pre-selects what is worth proving equal"""
    def __init__(self, n, defs):
        x = lambda k: 0.7 + ((n + 1) * (k + 3) * 0.6180339887 % 1)
        self.funcs = {"%s%s" % (f, s): (lambda j, c=x(2 * k + m) - (1.1 if f == "v" else 0): c) for k, f in enumerate("qva") for m, s in enumerate("LR")}
        self.env = {"i": 0, "M": 1, "gamma": 1 + x(9)}
        for nm, e in defs.items():
            self.env[nm] = T.evaluate(e, self.env, self.funcs)

    def near(self, x, y):
        try:
            p, q = T.evaluate(x, self.env, self.funcs), T.evaluate(y, self.env, self.funcs)
        except T.EvalError:
            return True
        return abs(p - q) <= 1e-9 * (1 + abs(q))


def roots(t, same, known):
    """replace the square roots of the known non-negative values, innermost first"""
    while True:
        m = {}
        for x in T.subterms(t):
            if x.op == "sqrt" and not any(y.op == "sqrt" and y is not x for y in T.subterms(x)):
                for e, nm in known:
                    if same(x.args[0], e.args[0] if e.op == "sqrt" else sq(e)):
                        m[x] = nm
                        break
        if not m:
            return t
        t = T.subst(t, m)


def quotients(t, same, known):
    """replace the quotients equal to known values, smallest first"""
    done = set()
    while True:
        todo = [x for x in T.subterms(t) if x.op == "div" and x.id not in done and not any(y.op == "div" and y is not x and y.id not in done for y in T.subterms(x))]
        if not todo:
            return t
        m = {}
        for x in todo:
            done.add(x.id)
            for e, nm in known:
                if x is not e and same(x, e):
                    m[x] = nm
                    break
        t = T.subst(t, m)


def rest(i):
    """a contact at rest: two densities, no velocity, one pressure (so the sound speeds are tied: q_L a_L = q_R a_R)"""
    q, Q, a = T.app("qL", i), T.app("qR", i), T.app("aL", i)
    return State(q, T.const(0), a), State(Q, T.const(0), div(mul(q, a), Q))


def roe_contact(chk):
    I, M, i = euler(chk)

    def go():
        h = call_flux(I, "roe", M, lambda i: rest(i)[0], lambda i: rest(i)[1])
        want = [T.const(0), rest(i)[0].p, T.const(0)]
        for k in range(3):
            chk.prove_eq("roe, contact at rest: component %d" % k, h.at(T.add(T.scale(F(3), i), K(k))), want[k], hyps=list(I.pc), quants=list(I.lemmas), func=RO)
    chk.run(I, go, "roe, contact at rest", quants=list(I.lemmas))


def godunov_contact(chk):
    I = chk.interp()
    I.lemmas.append(POS)
    set_gamma(I)
    use_massflux(I)
    I.simplify_on()
    M, i = T.const(1), K(0)
    l, r = rest(i)
    for x in (l.q, r.q, l.a):
        I.assume(T.lt(0, x))

    def inv(I_, W, init):
        """from the second iteration on the star pressure is the common pressure"""
        out = []
        idx = [w for w in W if w[1] == "k" and not isinstance(w[0], V.Frame)]
        for w in W:
            if isinstance(init[w], T.Term) and init[w].sort == "R":
                for j in idx:
                    out.append(("star pressure", lambda v, w=w, j=j: T.or_(T.le(T.const(v[j]), 0), T.eq(T.const(v[w]), l.p))))
        return out
    I.hooks["loop_inv"] = inv

    def go():
        h = call_flux(I, "godunov", M, lambda i: rest(i)[0], lambda i: rest(i)[1])
        want = [T.const(0), l.p, T.const(0)]
        for k in range(3):
            chk.prove_eq("godunov, contact at rest: component %d" % k, h.at(K(k)), want[k], hyps=list(I.pc), func=GO)
    for o in chk.run(I, go, "godunov, contact at rest", normal=False):
        chk.require("godunov, contact at rest: the flux is produced", o.kind in ("normal", "ret"), GO, "%s" % getattr(o.value, "msg", o.kind))
