from common import *
import dg1d.euler_physics as eul
import dg1d.advection_physics as adv

FL = {"roe": eul.riemann_roe, "rusanov": eul.riemann_rusanov, "godunov": eul.riemann_godunov}


def call(name, l, r):
    """flux at one face"""
    try:
        return np.array(FL[name](np.array(l, float), np.array(r, float)))
    except SystemExit:
        raise Skip()


def pair(R, kind):
    """two primitive states (rho, v, p)"""
    a = rand_prim(R, 2.5)
    b = rand_prim(R, 2.5)
    if kind == "same":
        b = a
    elif kind == "near":
        b = (a[0] * (1 + 1e-3 * R.uniform(-1, 1)), a[1] * (1 + 1e-3 * R.uniform(-1, 1)), a[2] * (1 + 1e-3 * R.uniform(-1, 1)))
    elif kind == "contact":
        a = (a[0], 0.0, a[2])
        b = (b[0], 0.0, a[2])
    elif kind == "movingcontact":
        b = (b[0], a[1], a[2])
    elif kind == "superR":
        a = (a[0], snd(a) * R.uniform(1.0, 4), a[2])
    elif kind == "superL":
        b = (b[0], -snd(b) * R.uniform(1.0, 4), b[2])
        if a[1] >= snd(a):
            a = (a[0], -a[1], a[2])
    elif kind == "bothR":
        a = (a[0], snd(a) * R.uniform(1.2, 4), a[2])
        b = (b[0], snd(b) * R.uniform(1.2, 4), b[2])
    elif kind == "bothL":
        a = (a[0], -snd(a) * R.uniform(1.2, 4), a[2])
        b = (b[0], -snd(b) * R.uniform(1.2, 4), b[2])
    elif kind == "expand":
        v = R.uniform(0, 1.0)
        a = (a[0], -v * snd(a), a[2])
        b = (b[0], v * snd(b), b[2])
    elif kind == "sonicrar":
        # left rarefaction through the face
        a = (a[0], 0.8 * snd(a), a[2])
        b = (a[0] * R.uniform(0.05, 0.4), snd(a) * R.uniform(0.8, 1.5), a[2] * R.uniform(0.02, 0.3))
        if R.rand() < 0.5:
            a, b = (b[0], -b[1], b[2]), (a[0], -a[1], a[2])
    elif kind == "collide":
        a = (a[0], snd(a) * R.uniform(0, 0.95), a[2])
        b = (b[0], -snd(b) * R.uniform(0, 0.95), b[2])
    return a, b


def snd(w):
    return math.sqrt(constants.gamma * w[2] / w[0])


KINDS = ("random", "same", "near", "contact", "movingcontact", "superR", "superL", "bothR", "bothL", "expand",
         "sonicrar", "collide")
GAMMAS = (1.4, 1.4, 5.0 / 3, 3.0, 1.1)


def flux_cases(names, kinds=KINDS):
    def gen(R, hints):
        i = 0
        while True:
            yield dict(flux=names[i % len(names)], kind=kinds[(i // len(names)) % len(kinds)], gamma=R.choice(GAMMAS),
                       seed=seeds(R))
            i += 1
    return gen


def with_gamma(fn):
    def run(case):
        old = constants.gamma
        constants.gamma = case.get("gamma", 1.4)
        try:
            return fn(case)
        finally:
            constants.gamma = old
    return run


def roe_ref(l, r):
    """Roe average, waves and entropy corrected speeds, from the states"""
    g = constants.gamma
    (rl, vl, pl), (rr, vr, pr) = wstate(l), wstate(r)
    Hl, Hr = (l[2] + pl) / rl, (r[2] + pr) / rr
    sl, sr = math.sqrt(rl), math.sqrt(rr)
    v = (sl * vl + sr * vr) / (sl + sr)
    H = (sl * Hl + sr * Hr) / (sl + sr)
    a = math.sqrt((g - 1) * (H - 0.5 * v * v))
    rho = sl * sr
    al, ar = sound(l), sound(r)
    dp, dv, dr = pr - pl, vr - vl, rr - rl
    lam = [v - a, v, v + a]
    ws = [abs(x) for x in lam]
    fix = [max(0, 4 * ((vr - ar) - (vl - al))), 0, max(0, 4 * ((vr + ar) - (vl + al)))]
    applied = False
    margin = 1e9
    for k in (0, 2):
        if fix[k] > 0:
            margin = min(margin, abs(ws[k] - 0.5 * fix[k]) / (abs(a) + 1e-300))
            if ws[k] < 0.5 * fix[k]:
                ws[k] = ws[k] ** 2 / fix[k] + 0.25 * fix[k]
                applied = True
    st = [(dp - rho * a * dv) / (2 * a * a), dr - dp / (a * a), (dp + rho * a * dv) / (2 * a * a)]
    vec = [np.array([1, v - a, H - v * a]), np.array([1, v, 0.5 * v * v]), np.array([1, v + a, H + v * a])]
    return lam, ws, st, vec, applied, margin


# ---------------------------------------------------------------- C05
def g05(R, hints):
    i = 0
    names = ("roe", "rusanov", "godunov", "advection")
    while True:
        mode = ("same", "local", "volume", "exact")[(i // 4) % 4]
        yield dict(flux=names[i % 4], mode=mode, gamma=2.0 if mode == "exact" else R.choice(GAMMAS), n=R.randint(1, 9),
                   seed=seeds(R))
        i += 1


def r05(case):
    R = rng(case)
    n = case["n"]
    if case["flux"] == "advection":
        u, v = R.uniform(-5, 5, n), R.uniform(-5, 5, n)
        if not np.array_equal(adv.riemann_upwinding(u, u), u):
            return "upwind flux of equal states is not the physical flux"
        g = R.uniform(-5, 5, (3, n))
        if not np.array_equal(adv.interior_flux(g), g):
            return "volume flux is not u"
        a = np.array(adv.riemann_upwinding(u.copy(), v.copy()))
        for i in range(n):
            if a[i] != np.array(adv.riemann_upwinding(u[i:i + 1], v[i:i + 1]))[0]:
                return "face %d depends on other faces" % i
        return None
    if case["mode"] == "volume":
        pts = np.array([np.concatenate([prim(*rand_prim(R, 3)) for _ in range(n)]) for _ in range(3)])
        F = np.array(eul.interior_flux(pts.copy()))
        for g in range(3):
            for i in range(n):
                s = pts[g, 3 * i:3 * i + 3]
                if not close(F[g, 3 * i:3 * i + 3], phys(s), 1e-11, scale=np.max(np.abs(phys(s))) + sound(s) * s[2]):
                    return "volume flux of %s is %s" % (s.tolist(), F[g, 3 * i:3 * i + 3].tolist())
        return None
    tol = 1e-7 if case["flux"] == "godunov" else 1e-11
    if case["mode"] in ("same", "exact"):
        if case["mode"] == "exact":
            # states whose sound speed and Roe average are exact in floating point: at rest, sonic both ways, supersonic
            s = np.concatenate([prim(4.0 ** -k, m * 2.0 ** k, 0.5) for k in R.randint(-2, 3, n) for m in (0.0, 1.0, -1.0, 2.0, -0.5)])
            n = len(s) // 3
        else:
            s = np.concatenate([prim(*rand_prim(R, 3)) for _ in range(n)])
        F = call(case["flux"], s, s)
        for i in range(n):
            w = s[3 * i:3 * i + 3]
            if not close(F[3 * i:3 * i + 3], phys(w), tol, scale=np.max(np.abs(phys(w))) + sound(w) * np.max(np.abs(w))):
                return "%s flux of equal states %s is %s, physical flux %s" % (case["flux"], w.tolist(), F[3 * i:3 * i + 3].tolist(), phys(w).tolist())
        return None
    prs = [pair(R, KINDS[R.randint(len(KINDS))]) for _ in range(n)]
    ok = [(a, b) for a, b in prs if not vacuum(a, b)]
    if not ok:
        raise Skip()
    l = np.concatenate([prim(*a) for a, b in ok])
    r = np.concatenate([prim(*b) for a, b in ok])
    F = call(case["flux"], l, r)
    for i in range(len(ok)):
        Fi = call(case["flux"], l[3 * i:3 * i + 3], r[3 * i:3 * i + 3])
        if not close(F[3 * i:3 * i + 3], Fi, 1e-12):
            return "%s: face %d depends on the other faces: %s / %s" % (case["flux"], i, F[3 * i:3 * i + 3].tolist(), Fi.tolist())


def vacuum(a, b):
    """too close to generating vacuum for the Godunov iteration"""
    g = constants.gamma
    return 2 * (snd(a) + snd(b)) / (g - 1) <= 1.3 * (b[1] - a[1])


# ---------------------------------------------------------------- C06
def r06(case):
    R = rng(case)
    if case["flux"] == "advection":
        u, v = R.uniform(-5, 5, 7), R.uniform(-5, 5, 7)
        return None if np.array_equal(adv.riemann_upwinding(u, v), u) else "advection flux is not the left state"
    a, b = pair(R, case["kind"])
    l, r = prim(*a), prim(*b)
    if case["flux"] == "godunov":
        if a[1] >= snd(a) * (1 + 1e-9):
            want = phys(l)
        elif b[1] <= -snd(b) * (1 + 1e-9) and a[1] < snd(a) * (1 - 1e-9):
            want = phys(r)
        else:
            raise Skip()
        F = call("godunov", l, r)
    else:
        lam, ws, st, vec, applied, margin = roe_ref(l, r)
        if applied or margin < 1e-6:
            raise Skip()
        if min(lam) > 0:
            want = phys(l)
        elif max(lam) < 0:
            want = phys(r)
        else:
            raise Skip()
        F = call("roe", l, r)
    sc = max(np.max(np.abs(phys(l))), np.max(np.abs(phys(r))), (abs(a[1]) + snd(a)) * np.max(np.abs(l)), (abs(b[1]) + snd(b)) * np.max(np.abs(r)))
    if not close(F, want, 1e-9, scale=sc):
        return "%s flux of %s | %s is %s, upwind physical flux %s" % (case["flux"], a, b, F.tolist(), want.tolist())


# ---------------------------------------------------------------- C07
MIRROR = np.array([-1.0, 1.0, -1.0])


def r07(case):
    R = rng(case)
    a, b = pair(R, case["kind"])
    l, r = prim(*a), prim(*b)
    F = None
    if case["flux"] == "godunov":
        if vacuum(a, b):
            raise Skip()
        if a[1] >= snd(a) and b[1] <= -snd(b):
            raise Skip()      # known finding, see known_findings.txt
        for w in (a, b):
            if abs(abs(w[1]) / snd(w) - 1) < 1e-9:
                raise Skip()
    ml, mr = np.array([r[0], -r[1], r[2]]), np.array([l[0], -l[1], l[2]])
    res = []
    for x, y in ((l, r), (ml, mr)):
        try:
            res.append(np.array(FL[case["flux"]](x.copy(), y.copy())))
        except SystemExit:
            res.append(None)
    if res[0] is None or res[1] is None:
        if case["flux"] == "godunov":
            raise Skip()
        return "the run is stopped"
    F, G = res
    sc = max(np.max(np.abs(phys(l))), np.max(np.abs(phys(r))), (abs(a[1]) + snd(a)) * np.max(np.abs(l)), (abs(b[1]) + snd(b)) * np.max(np.abs(r)))
    if not close(G * MIRROR, F, 1e-5 if case["flux"] == "godunov" else 1e-9, scale=sc,
                 atol=1e-5 if case["flux"] == "godunov" else 0):
        return "%s flux of %s | %s is %s, of the mirrored pair %s" % (case["flux"], a, b, F.tolist(), G.tolist())


# ---------------------------------------------------------------- C08
def g08(R, hints):
    i = 0
    while True:
        fl = ("rusanov", "roe", "contact-roe", "contact-godunov")[i % 4]
        yield dict(flux=fl, kind=R.choice(KINDS), gamma=R.choice(GAMMAS), seed=seeds(R))
        i += 1


def r08(case):
    R = rng(case)
    fl = case["flux"]
    if fl.startswith("contact"):
        a, b = pair(R, "contact")
        l, r = prim(*a), prim(*b)
        F = call(fl.split("-")[1], l, r)
        want = np.array([0.0, a[2], 0.0])
        sc = a[2] + snd(a) * np.max(np.abs(l)) + snd(b) * np.max(np.abs(r))
        if not close(F, want, 1e-9, scale=sc):
            return "%s: resting contact %s | %s has flux %s" % (fl, a, b, F.tolist())
        return None
    a, b = pair(R, case["kind"])
    l, r = prim(*a), prim(*b)
    F = call(fl, l, r)
    sc = max(np.max(np.abs(phys(l))), np.max(np.abs(phys(r))), (abs(a[1]) + snd(a)) * np.max(np.abs(l)), (abs(b[1]) + snd(b)) * np.max(np.abs(r)))
    if fl == "rusanov":
        s = max(abs(a[1]) + snd(a), abs(b[1]) + snd(b))
        want = 0.5 * (phys(l) + phys(r)) - 0.5 * s * (r - l)
        if not close(F, want, 1e-10, scale=max(sc, s * np.max(np.abs(r)), s * np.max(np.abs(l)))):
            return "Rusanov flux of %s | %s is %s, expected %s" % (a, b, F.tolist(), want.tolist())
        return None
    lam, ws, st, vec, applied, margin = roe_ref(l, r)
    if margin < 1e-7:
        raise Skip()
    want = 0.5 * (phys(l) + phys(r)) - 0.5 * sum(w * s * e for w, s, e in zip(ws, st, vec))
    sc = max(sc, max(abs(w * s) * np.max(np.abs(e)) for w, s, e in zip(ws, st, vec)))
    if not close(F, want, 1e-9, scale=sc):
        return "Roe flux of %s | %s is %s, expected %s" % (a, b, F.tolist(), want.tolist())


# ---------------------------------------------------------------- C25
def g25(R, hints):
    i = 0
    while True:
        m = ("flux", "flux", "massflux", "sonic", "vacuum")[i % 5]
        yield dict(mode=m, kind=R.choice(KINDS), gamma=R.choice(GAMMAS), seed=seeds(R), scale=R.choice([1.0, 1.0, 10.0, 100.0]))
        i += 1


def mass_ref(r, p, pm):
    """Rankine-Hugoniot mass flux across a shock, isentropic one across a rarefaction"""
    g = constants.gamma
    c = math.sqrt(g * p / r)
    if pm >= p:
        # (pm - p) / (u jump)
        return math.sqrt(r * ((g + 1) / 2 * pm + (g - 1) / 2 * p))
    du = 2 * c / (g - 1) * (1 - (pm / p) ** ((g - 1) / (2 * g)))
    return (p - pm) / du


def star(a, b):
    """exact star pressure by bisection"""
    g = constants.gamma

    def f(w, p):
        r, v, pk = w
        c = math.sqrt(g * pk / r)
        if p > pk:
            return (p - pk) * math.sqrt(2 / ((g + 1) * r) / (p + (g - 1) / (g + 1) * pk))
        return 2 * c / (g - 1) * ((p / pk) ** ((g - 1) / (2 * g)) - 1)
    F = lambda p: f(a, p) + f(b, p) + b[1] - a[1]
    lo, hi = 1e-12 * min(a[2], b[2]), max(a[2], b[2])
    if F(lo) > 0:
        raise Skip()
    while F(hi) < 0:
        hi *= 2
    for _ in range(200):
        m = math.sqrt(lo * hi)
        if F(m) > 0:
            hi = m
        else:
            lo = m
    p = math.sqrt(lo * hi)
    return p, 0.5 * (a[1] + b[1]) + 0.5 * (f(b, p) - f(a, p))


def exact_flux(a, b):
    """flux of the exact Riemann solution at x/t = 0 (subsonic or transonic), and a condition margin"""
    g = constants.gamma
    p, v = star(a, b)
    w, s = (a, 1.0) if v >= 0 else (b, -1.0)
    r, vk, pk = w
    vk, vs = s * vk, s * v
    c = math.sqrt(g * pk / r)
    if p >= pk:
        gm = (g - 1) / (g + 1)
        rs = r * (p / pk + gm) / (gm * p / pk + 1)
        S = vk - c * math.sqrt((g + 1) / (2 * g) * p / pk + (g - 1) / (2 * g))
        st = (r, vk, pk) if S > 0 else (rs, vs, p)
        if abs(S) < 1e-4 * c:
            raise Skip()
    else:
        rs = r * (p / pk) ** (1 / g)
        cs = math.sqrt(g * p / rs)
        if vk - c >= 0:
            st = (r, vk, pk)
        elif vs - cs <= 0:
            st = (rs, vs, p)
        else:
            cc = 2 / (g + 1) * (c + (g - 1) / 2 * vk)
            st = (r * (cc / c) ** (2 / (g - 1)), cc, pk * (cc / c) ** (2 * g / (g - 1)))
    st = (st[0], s * st[1], st[2])
    return phys(prim(*st)), st, p


def r25(case):
    R = rng(case)
    a, b = pair(R, case["kind"])
    S = case["scale"]
    a, b = (a[0], a[1] * math.sqrt(S), a[2] * S), (b[0], b[1] * math.sqrt(S), b[2] * S)
    g = constants.gamma
    if case["mode"] == "massflux":
        pm = a[2] * 10 ** R.uniform(-2, 2)
        if abs(pm / a[2] - 1) < 1e-4:
            raise Skip()
        m = eul.massflux(a[0], snd(a), a[2], pm)
        want = mass_ref(a[0], a[2], pm)
        if not abs(m - want) <= 1e-8 * want:
            return "massflux(rho=%r, p=%r, pm=%r) = %r, exact %r" % (a[0], a[2], pm, m, want)
        return None
    if case["mode"] == "sonic":
        # a left (or right) rarefaction whose fan contains the face: from (u1, c1) to (u2, c2) along the invariant
        sg = 1.0 if R.rand() < 0.5 else -1.0
        c1 = snd(a)
        u1 = R.uniform(0.0, 0.95) * c1
        cstar = (c1 + (g - 1) / 2 * u1) * 2 / (g + 1)
        c2 = cstar * R.uniform(0.6, 0.98)
        u2 = u1 + 2 / (g - 1) * (c1 - c2)
        if u2 - c2 <= 0:
            raise Skip()
        U = eul.sonic(sg * u1, c1, a[2], sg * u2, c2, sg * (u1 - c1), sg * (u2 - c2))
        r = U[0]
        u = U[1] / r
        p = (g - 1) * (U[2] - 0.5 * r * u * u)
        if not abs(sg * u - math.sqrt(g * p / r)) <= 1e-8 * c1:
            return "sonic state has velocity %r and sound speed %r" % (u, math.sqrt(g * p / r))
        if not abs(p / a[2] - (cstar / c1) ** (2 * g / (g - 1))) < 1e-7:
            return "sonic pressure %r" % p
        return None
    if case["mode"] == "vacuum":
        # near the generation of vacuum: the flux of the face may not depend on the face before it
        for _ in range(60):
            a, b = rand_prim(R, 3), rand_prim(R, 3)
            dv = 2 * (snd(a) + snd(b)) / (g - 1) * (1 - 10 ** R.uniform(-6, -1.5))
            b = (b[0], a[1] + dv, b[2])
            m = 0.5 * dv * R.uniform(0.5, 1.5)
            a, b = (a[0], a[1] - m, a[2]), (b[0], b[1] - m, b[2])
            if a[1] >= snd(a) or b[1] <= -snd(b):
                continue
            l, r = prim(*a), prim(*b)
            out = []
            for first in (prim(1.0, 0.1, 1.0), prim(1.0, 0.3, 1.0)):
                try:
                    out.append(call("godunov", np.r_[first, l], np.r_[first, r])[3:])
                except (Skip, SystemExit):
                    break
            if len(out) == 2 and not np.array_equal(out[0], out[1], equal_nan=True):
                return "Godunov flux of %s | %s depends on the face before it: %s / %s" % (a, b, out[0].tolist(), out[1].tolist())
        return None
    if a[1] >= snd(a) or b[1] <= -snd(b) or vacuum(a, b):
        raise Skip()
    want, st, ps = exact_flux(a, b)
    l, r = prim(*a), prim(*b)
    F = call("godunov", l, r)
    sc = max(np.max(np.abs(phys(l))), np.max(np.abs(phys(r))), snd(a) * np.max(np.abs(l)), snd(b) * np.max(np.abs(r)))
    # the iteration stops at an absolute change of 1e-6 in the star pressure; slowly converging cases are wider
    if ps < 1e-2 * min(a[2], b[2]):
        raise Skip()
    if not close(F, want, 2e-3, scale=sc):
        return "Godunov flux of %s | %s is %s, exact %s (star pressure %r)" % (a, b, F.tolist(), want.tolist(), ps)


def adv_some(gen):
    def g(R, hints):
        it = gen(R, hints)
        i = 0
        while True:
            i += 1
            c = next(it)
            if i % 10 == 0:
                c = dict(c, flux="advection")
            yield c
    return g


PROPS = {
    "C05": (g05, with_gamma(r05), "distinct (flux, mode, states) parameter sets"),
    "C06": (adv_some(flux_cases(("roe", "godunov"), ("superR", "superL", "bothR", "bothL", "near"))), with_gamma(r06),
            "distinct (flux, pair of states) parameter sets with supersonic sides"),
    "C07": (flux_cases(("roe", "rusanov", "godunov")), with_gamma(r07), "distinct (flux, pair of states) parameter sets"),
    "C08": (g08, with_gamma(r08), "distinct (flux, pair of states) parameter sets"),
    "C25": (g25, with_gamma(r25), "distinct (function, states) parameter sets"),
}
