from common import *
import dg1d.limiting as limiting
from p_scheme import state, mesh_case, snap, differs


# ---------------------------------------------------------------- C13
def g13(R, hints):
    i = 0
    while True:
        c = mesh_case(R, i, 3, 10)
        c["thresholds"] = [R.choice([0.0, 0.01, 0.1, 0.3, 0.6]), R.choice([0.0, 0.01, 0.05, 0.2])]
        c["data"] = R.choice(["smooth", "steps", "shock", "const", "riemann"])
        i += 1
        yield c


def data13(case, R, nf, N):
    cells = []
    base = rand_prim(R, 1.0, 0.5)
    for e in range(N + 2):
        if nf == 1:
            v = {"smooth": math.sin(e / 3.0), "const": 0.4, "steps": float(R.choice([0, 0.5, 2.0]))}.get(case["data"], R.uniform(-2, 2))
            cells.append(np.array([v]))
        else:
            k = case["data"]
            if k == "const":
                w = base
            elif k == "steps":
                w = (base[0] * R.choice([1, 1, 3]), base[1], base[2])
            elif k == "shock":
                # compressive jump in some cells
                w = base if e < N // 2 + 1 else (base[0] * 0.4, base[1] - 2 * math.sqrt(constants.gamma * base[2] / base[0]), base[2] * 0.2)
            elif k == "smooth":
                w = (base[0] * (1 + 0.05 * math.sin(e)), base[1], base[2] * (1 + 0.05 * math.cos(e)))
            else:
                w = rand_prim(R, 1.5, 0.6)
            cells.append(prim(*w))
    return cells


def r13(case):
    R = rng(case)
    sol = new(case["system"], case["N"], case["p"], case["riemann"], "", case["thresholds"])
    nf, N = sol.N_F, case["N"]
    cells = data13(case, R, nf, N)
    sol.u = R.uniform(-1, 1, sol.u.shape)
    sol.u[0, :] = np.concatenate(cells)
    flags = np.zeros(N + 2, int)
    shock = np.zeros(N + 2, bool)
    for i in range(N + 1):
        l, r = cells[i], cells[i + 1]
        if nf == 1:
            ph = abs(r[0] - l[0])
            v = 2 * ph / (1 + ph) ** 2
            if abs(v - case["thresholds"][0]) < 1e-9 and not (v == 0 and case["thresholds"][0] == 0):
                raise Skip()
            if v > case["thresholds"][0]:
                flags[i] = flags[i + 1] = 1
            continue
        (rl, vl, pl), (rr, vr, pr) = wstate(l), wstate(r)
        if np.array_equal(l, r):
            # equal states: rounding of the indicators is compared with a threshold of zero only
            if min(case["thresholds"]) <= 0:
                raise Skip()
            continue
        sl, sr = math.sqrt(rl), math.sqrt(rr)
        g = constants.gamma
        v = (sl * vl + sr * vr) / (sl + sr)
        H = (sl * (l[2] + pl) / rl + sr * (r[2] + pr) / rr) / (sl + sr)
        a = math.sqrt((g - 1) * (H - 0.5 * v * v))
        al, ar = math.sqrt(g * pl / rl), math.sqrt(g * pr / rr)
        x = abs((rr - rl) - (pr - pl) / a ** 2) / (rl + rr)
        X = 2 * x / (1 + x) ** 2
        f = abs(pr - pl) / (pl + pr)
        Ph = 2 * f / (1 + f) ** 2
        for val, th in ((X, case["thresholds"][0]), (Ph, case["thresholds"][1])):
            if abs(val - th) < 1e-9:
                raise Skip()
        conv = [(vl - al) - (v - a), (v - a) - (vr - ar)]
        if Ph > case["thresholds"][1] and min(abs(c) for c in conv) < 1e-9 * (abs(v) + a):
            raise Skip()
        if X > case["thresholds"][0]:
            flags[i] = max(flags[i], 1)
            flags[i + 1] = max(flags[i + 1], 1)
        if Ph > case["thresholds"][1] and conv[0] > 0 and conv[1] > 0:
            flags[i] = flags[i + 1] = 2
    s0 = snap(sol)
    for start in (0, 2, "rand"):
        sol.sensors.sensors[:] = R.randint(0, 3, N + 2) if start == "rand" else start
        sol.sensors.sensing(sol)
        got = np.array(sol.sensors.sensors)
        if not np.array_equal(got, flags):
            return "flags %s, criterion %s (cell averages %s)" % (got.tolist(), flags.tolist(), [c.tolist() for c in cells][:6])
    d = differs(s0, snap(sol))
    if d:
        return "sensing changed %s" % d


# ---------------------------------------------------------------- C14
def g14(R, hints):
    i = 0
    while True:
        c = mesh_case(R, i, 4, 8)
        c["thresholds"] = [R.choice([0.01, 0.1, 0.3]), R.choice([0.01, 0.1])]
        c["type"] = R.choice(["adaptive_hr", "adaptive_hr", "adaptive_hr", "", "none"])
        c["flags"] = R.choice(["sensed", "given", "given"])
        i += 1
        yield c


def r14(case):
    R = rng(case)
    sol = state(case)
    nf, N = sol.N_F, case["N"]
    sol.u = ghosts(sol.u, nf, sol.bc_l, sol.bc_r) if R.rand() < 0.5 else sol.u
    lim = limiting.Limiter(case["type"], sol)
    if case["flags"] == "given":
        fl = R.randint(0, 3, N + 2)
        s = sol.sensors

        def sensing(so):
            s.sensors[:] = fl
        s.sensing = sensing
    u0 = sol.u.copy()
    lim.limit(sol)
    if case["type"] != "adaptive_hr":
        return None if np.array_equal(u0, sol.u) else "limiting is off but the solution changed"
    flags = np.array(sol.sensors.sensors)
    want = u0.copy()
    for e in range(1, N + 1):
        if flags[e]:
            for f in range(nf):
                c = e * nf + f
                want[:, c] = lim.hr(u0[:, c].copy(), u0[:, c - nf].copy(), u0[:, c + nf].copy())
    want = ghosts(want, nf, sol.bc_l, sol.bc_r)
    for e in range(N + 2):
        for f in range(nf):
            c = e * nf + f
            if not close(sol.u[:, c], want[:, c], 1e-12, scale=np.max(np.abs(u0)) + 1e-9):
                return "cell %d field %d (flag %d): %s, expected %s" % (e, f, flags[e], sol.u[:, c].tolist(), want[:, c].tolist())
            if 1 <= e <= N and not flags[e] and not np.array_equal(sol.u[:, c], u0[:, c]):
                return "unflagged cell %d changed" % e


# ---------------------------------------------------------------- C15
def g15(R, hints):
    i = 0
    while True:
        yield dict(p=i % 8, seed=seeds(R), kind=R.choice(["random", "random", "smooth", "flat"]))
        i += 1


_lims = {}


def limiter_for(p):
    if p not in _lims:
        sol = new("advection", 3, p, thresholds=[0.1])
        _lims[p] = limiting.Limiter("adaptive_hr", sol)
    return _lims[p]


def mono_eval(t, x):
    return sum(t[k] * x ** k / math.factorial(k) for k in range(len(t)))


def r15(case):
    R = rng(case)
    p = case["p"]
    lim = limiter_for(p)
    c, l, r = (R.uniform(-2, 2, p + 1) for _ in range(3))
    if case["kind"] == "smooth":
        l, r = c + 0.1 * l, c + 0.1 * r
    if case["kind"] == "flat":
        c[1:] *= 1e-3
    h = lim.hr(c.copy(), l.copy(), r.copy())
    tol = 1e-9 * 10 ** max(0, p - 5)
    if not np.all(np.isfinite(h)) or abs(h[0] - c[0]) > tol:
        return "average %r became %r" % (c[0], float(h[0]))
    m = lim.legendre_to_monomial(c)
    y = R.uniform(-1, 1, 4)
    want = sum(c[k] * P(k, y) for k in range(p + 1))
    if not close(mono_eval(m, y), want, 1e-8, scale=5.0 * 10 ** max(0, p - 5)):
        return "monomial coefficients represent another polynomial: %s instead of %s" % (mono_eval(m, y).tolist(), want.tolist())
    back = lim.monomial_to_legendre(m)
    if not close(back, c, 1e-8, scale=5.0 * 10 ** max(0, p - 5)):
        return "the two transforms are not inverse to each other"
    lg = lim.monomial_to_legendre(c)
    if not close(sum(lg[k] * P(k, y) for k in range(p + 1)), mono_eval(c, y), 1e-8, scale=5.0 * 10 ** max(0, p - 5)):
        return "Legendre coefficients represent another polynomial"
    # in the monomial representation: average before and after
    a = [R.uniform(-2, 2, p + 1) for _ in range(3)]
    out = lim.limit_monomial(a[0].copy(), a[1].copy(), a[2].copy())
    av = lambda t: sum(t[k] / math.factorial(k) / (k + 1) for k in range(0, p + 1, 2))
    if not abs(av(out) - av(a[0])) <= 1e-11:
        return "monomial limiting changed the average from %r to %r" % (av(a[0]), av(out))


# ---------------------------------------------------------------- C16
def g16(R, hints):
    i = 0
    while True:
        yield dict(p=1 + (i // 3) % 7 if i % 3 else i % 8, mode=("linear", "top", "one")[i % 3], seed=seeds(R))
        i += 1


def mm(a, b):
    if a * b <= 0:
        return 0.0
    return a if abs(a) < abs(b) else b


def r16(case):
    R = rng(case)
    p = case["p"]
    if case["mode"] == "one":
        lim = limiter_for(1)
        c, l, r = (R.uniform(-2, 2, 2) for _ in range(3))
        h = lim.hr(c.copy(), l.copy(), r.copy())
        want = mm(0.5 * (c[0] - l[0]), 0.5 * (r[0] - c[0]))
        if not abs(h[1] - want) < 1e-10:
            return "order one: limited slope %r, minmod %r" % (float(h[1]), want)
        for a, b in ((1.0, 2.0), (-1.0, -2.0), (1.0, -1.0), (0.0, 3.0), (-0.5, -0.5), tuple(R.uniform(-1, 1, 2))):
            if limiting.scalar_minmod(a, b) != mm(a, b):
                return "minmod(%r, %r) = %r" % (a, b, limiting.scalar_minmod(a, b))
        return None
    lim = limiter_for(p)
    if case["mode"] == "linear":
        a, b = R.uniform(-2, 2), R.uniform(-2, 2)
        c, l, r = np.zeros(p + 1), np.zeros(p + 1), np.zeros(p + 1)
        c[0], l[0], r[0] = a, a - 2 * b, a + 2 * b
        if p >= 1:
            c[1] = l[1] = r[1] = b
        else:
            l[0] = r[0] = c[0] = a
        h = lim.hr(c.copy(), l.copy(), r.copy())
        if not close(h, c, 1e-9 * 10 ** max(0, p - 4), scale=6.0):
            return "linear data %r + %r x became %s" % (a, b, h.tolist())
        return None
    if p == 0:
        raise Skip()
    # the highest coefficient: minmod of the one-sided differences of the averages of the next lower derivative
    c, l, r = (R.uniform(-2, 2, p + 1) for _ in range(3))
    out = lim.limit_monomial(c.copy(), l.copy(), r.copy())
    av = lambda t: t[p - 1]       # average of the (p-1)st derivative: t[p-1] + t[p]*0
    want = mm(0.5 * (av(c) - av(l)), 0.5 * (av(r) - av(c)))
    if not abs(out[p] - want) < 1e-10:
        return "highest coefficient %r, minmod of one-sided differences %r" % (float(out[p]), want)


PROPS = {
    "C13": (g13, r13, "distinct (cell averages, thresholds, system) parameter sets; three previous flag patterns each"),
    "C14": (g14, r14, "distinct (solution, flags, limiter type) parameter sets"),
    "C15": (g15, r15, "distinct (order 0..7, three cells) parameter sets"),
    "C16": (g16, r16, "distinct (order 0..7, three cells, mode) parameter sets"),
}
