from .flux import *
from .c13 import cell as euler_cell
from .c14 import hr_contract

SCRATCH = ("uf_tmp",)
P_ENH = 2
ICB = ("", "icb 0 1")


def spec(chk):
    tasks = []
    for s in SYSTEMS:
        for enh in ICB:
            tag = "%s%s" % (s[0], " enhanced" if enh else "")
            tasks += [("evaluation " + tag, lambda s=s, enh=enh: evaluation(chk, s, enh)),
                      ("time derivative " + tag, lambda s=s, enh=enh: residual(chk, s, enh)),
                      ("copy " + tag, lambda s=s, enh=enh: copies(chk, s, enh))]
        tasks += [("sensing " + s[0], lambda s=s: sensing(chk, s)), ("limited copy " + s[0], lambda s=s: limited(chk, s))]
    tasks += [("flux " + f, lambda f=f: flux_args(chk, f)) for f in ("upwinding",) + FLUXES] + [("volume flux", lambda: volume_args(chk))]
    chk.tasks(tasks)
    chk.bound("with face enhancement: order %d and neighbour modes 0, 1, any number of cells and any data; without: every order" % P_ENH)
    chk.assume_note("preallocated scratch storage of the face enhancement and the sensor flags written by sensing are not part of the solution's data")


class Frozen:
    """deep snapshot of everything reachable from a value"""
    def __init__(self, I, v):
        self.I, self.memo = I, {}
        self.v = self.go(v)

    def go(self, v):
        if id(v) in self.memo:
            return self.memo[id(v)][0]
        if isinstance(v, Arr):
            r = ("arr", v.shape, v.reader(), v)
        elif isinstance(v, (Obj, PyList, PyDict, tuple, Bound)):
            r = [type(v).__name__, v, {}]
            self.memo[id(v)] = (r, v)
            for k, x in parts(v):
                r[2][k] = self.go(x)
            return r
        else:
            r = ("val", v)
        self.memo[id(v)] = (r, v)
        return r


def parts(v):
    if isinstance(v, Obj):
        return [(k, x) for k, x in v.d.items() if k not in SCRATCH]
    if isinstance(v, PyList):
        return list(enumerate(v.items))
    if isinstance(v, PyDict):
        return list(v.items.items())
    if isinstance(v, tuple):
        return list(enumerate(v))
    if isinstance(v, Bound):
        return [("__self__", v.self_)]
    return []


def same(I, chk, old, now, path, skip, kw, seen, out, edge=None):
    """obligations: now holds what old held; edge(path) gives a column range to compare for an array"""
    if path in skip:
        return
    if old[0] == "arr":
        if not isinstance(now, Arr) or len(now.shape) != len(old[1]):
            out.append(path)
            return
        for a, b in zip(old[1], now.shape):
            if a is not b:
                chk.prove_eq("%s: same shape" % path, a, b, **kw)
        idx = tuple(T.fresh("i", "I") for _ in old[1])
        hyps = list(kw["hyps"])
        for q, (i, n) in enumerate(zip(idx, old[1])):
            lo, hi = edge(path, q, n) if edge and edge(path, q, n) else (K(0), n)
            hyps += [T.le(lo, i), T.lt(i, hi)]
        chk.prove_eq("%s: same entries" % path, old[2](idx), now.at(*idx), **dict(kw, hyps=hyps))
        return
    if old[0] == "val":
        v = old[1]
        if isinstance(v, T.Term) or isinstance(now, T.Term):
            if isinstance(v, (T.Term, int, bool, str)) and isinstance(now, (T.Term, int, bool, str)):
                a, b = T.const(v), T.const(now)
                if a is not b:
                    chk.prove_eq("%s: same value" % path, a, b, **kw)
            else:
                out.append(path)
        elif isinstance(v, (int, bool, str)) or v is None:
            if type(v) is not type(now) or v != now:
                out.append(path)
        elif v is not now and not (type(v) is type(now) and I.compare("Is", v, now) is True) and not equalish(v, now):
            out.append(path)
        return
    if type(now).__name__ != old[0]:
        out.append(path)
        return
    if id(old) in seen:
        return
    seen.add(id(old))
    cur = dict(parts(now))
    for k, x in old[2].items():
        p = "%s.%s" % (path, k)
        if k not in cur:
            if p not in skip:
                out.append(p)
            continue
        same(I, chk, x, cur[k], p, skip, kw, seen, out, edge)


def equalish(a, b):
    if isinstance(a, Func) and isinstance(b, Func):
        return a.node is b.node
    if type(a) is not type(b):
        return False
    d = getattr(a, "__dict__", None)
    return repr(a) == repr(b) if d is None or not d else all(d.get(k) is b.__dict__.get(k) for k in d)


def unchanged(I, chk, label, froz, now, func, skip=(), edge=None):
    out = []
    kw = dict(hyps=list(I.pc), func=func, quants=list(I.lemmas))

    class Q:
        def prove_eq(self, name, *a, **k):
            return chk.prove_eq("%s: %s" % (label, name), *a, **k)
    same(I, Q(), froz.v, now, "solution", set(skip), kw, set(), out, edge)
    chk.require(label + ": every part is there and of the same kind", not out, func, "changed: %s" % ", ".join(out[:5]))


def setup(chk, s, enh, th=None):
    system, nf, ic = s
    I = chk.interp()
    if enh:
        N, p = INT("N"), P_ENH
        I.assume(T.le(1, N))
    else:
        N, p = sym_mesh(I)
    chk.cover(I.pc, "a mesh and an order")

    def make():
        sol = new_solution(I, system, ic, N, p, enhance=enh, thresholds=th)
        I.simplify_on()
        a = arbitrary(I, sol)
        I.setattr(sol, "bc_l", "periodic")
        I.setattr(sol, "bc_r", "zerograd")
        I.setattr(sol, "t", R("t"))
        I.setattr(sol, "n", INT("step"))
        return sol
    return I, N, p, make


def glob(I):
    return T.const(I.getattr(I.module("dg1d.constants"), "gamma"))


def evaluation(chk, s, enh):
    I, N, p, make = setup(chk, s, enh)

    def go():
        sol = make()
        g0 = glob(I)
        fr = Frozen(I, sol)
        for op in ("collocate", "evaluate_faces", "max_wave_speed"):
            if op == "max_wave_speed" and s[1] == 3:
                continue
            r = I.call(I.getattr(sol, op), [], {})
            unchanged(I, chk, "%s%s: %s" % (s[0], " enhanced" if enh else "", op), fr, sol, "dg1d.solution.Solution." + op)
            if isinstance(r, Arr) and op == "collocate":
                chk.require("%s: the result of %s is a new array" % (s[0], op), r.buf is not I.np.asarr(I.getattr(sol, "u")).buf)
        chk.prove_eq("%s: ratio of specific heats unchanged" % s[0], glob(I), g0, hyps=list(I.pc))
    chk.run(I, go, "evaluation " + s[0], defined=False)
    if s[1] == 3 and not enh:
        I2, N2, p2, make2 = setup(chk, s, enh)

        def speed():
            sol = make2()
            set_gamma(I2)
            physical(I2, sol)
            fr = Frozen(I2, sol)
            g0 = glob(I2)
            I2.call(I2.getattr(sol, "max_wave_speed"), [], {})
            unchanged(I2, chk, "euler: max_wave_speed", fr, sol, "dg1d.euler_physics.max_wave_speed")
            chk.prove_eq("euler: wave speed leaves the ratio of specific heats", glob(I2), g0, hyps=list(I2.pc))
        I2.lemmas.append(POS)
        chk.run(I2, speed, "wave speed", defined=False)


def physical(I, sol):
    """admissible cell averages, everything else arbitrary"""
    u = I.getattr(sol, "u")

    def f(idx):
        m, j = idx
        k, q = T.imod(j, K(3)), T.idiv(j, K(3))
        st = euler_cell(q)
        return T.ite(T.eq(m, 0), T.ite(T.eq(k, 0), st.u[0], T.ite(T.eq(k, 1), st.u[1], st.u[2])), T.app("u", m, j))
    I.setattr(sol, "u", Arr(Buf(u.shape, f)))


def residual(chk, s, enh):
    system, nf, ic = s
    I, N, p, make = setup(chk, s, enh)
    use_flux_contracts(I, nf)

    def go():
        sol = make()
        dgs = I.call(cls(I, "dg", "DG"), [sol], {})
        fr = Frozen(I, sol)
        r = I.call(I.getattr(dgs, "residual"), [sol], {})
        inner = lambda path, q, n: (K(nf), T.sub(n, K(nf))) if path == "solution.u" and q == 1 else None
        L = "%s%s: time derivative" % (system, " enhanced" if enh else "")
        unchanged(I, chk, L, fr, sol, "dg1d.dg.DG.residual", edge=inner)
        bufs = reach(sol)
        chk.require(L + ": the result is not part of the solution", not isinstance(r, Arr) or id(r.buf) not in bufs)
    chk.run(I, go, "residual", defined=False)


def sensing(chk, s):
    system, nf, ic = s
    I, N, p, make = setup(chk, s, "", [R("th0"), R("th1")])
    if nf == 3:
        I.lemmas.append(POS)

    def go():
        sol = make()
        if nf == 3:
            set_gamma(I)
            physical(I, sol)
        fr = Frozen(I, sol)
        I.call(I.getattr(I.getattr(sol, "sensors"), "sensing"), [sol], {})
        unchanged(I, chk, system + ": sensing", fr, sol, "dg1d.sensor.Sensor.sensing", skip=("solution.sensors.sensors",))
    chk.run(I, go, "sensing", defined=False, quants=list(I.lemmas))


def reach(v, seen=None, ids=None):
    """identities of all mutable storage reachable from a value (classes, modules and plain functions are shared code)"""
    if ids is None:
        ids, seen = {}, set()
    if id(v) in seen:
        return ids
    seen.add(id(v))
    if isinstance(v, Arr):
        ids[id(v.buf)] = v
        return ids
    if isinstance(v, (Obj, PyList, PyDict)):
        ids[id(v)] = v
    if isinstance(v, Obj):
        for x in v.d.values():
            reach(x, seen, ids)
    else:
        for k, x in parts(v):
            reach(x, seen, ids)
    return ids


def copies(chk, s, enh):
    system, nf, ic = s
    I, N, p, make = setup(chk, s, enh, [R("th0"), R("th1")])
    use_flux_contracts(I, nf)
    L = "%s%s copy: " % (system, " enhanced" if enh else "")

    def go():
        sol = make()
        other = I.call(I.getattr(sol, "copy"), [], {})
        fr = Frozen(I, sol)
        unchanged(I, chk, L + "holds the same data", fr, other, "dg1d.solution.Solution.copy")
        shared = set(reach(sol)) & set(reach(other))
        chk.require(L + "shares no data with the original", not shared, "dg1d.solution.Solution.copy",
                    "shared: %s" % [type(reach(sol)[x]).__name__ for x in shared][:5])
        # the copy reads its own coefficients
        size = I.np.asarr(I.getattr(other, "u")).shape
        I.setattr(other, "u", Arr(Buf(size, lambda ix: T.app("w", *ix))))
        a = snapshot(I, I.call(I.getattr(sol, "evaluate_faces"), [], {}))
        b = snapshot(I, I.call(I.getattr(other, "evaluate_faces"), [], {}))
        r, j = ranged(I, "r", 0, 2), ranged(I, "j", 0, size[1])
        kw = dict(hyps=list(I.pc), func="dg1d.solution.Solution.copy")
        va, vb = a.at(r, j), b.at(r, j)
        chk.require(L + "evaluating the original reads the original", not any(x.val == "w" for x in T.all_apps(va)))
        chk.require(L + "evaluating the copy does not read the original", not any(x.val == "u" for x in T.all_apps(vb)), "dg1d.solution.Solution.copy")
        keep = I.getattr(sol, "u")
        I.setattr(sol, "u", Arr(Buf(size, lambda ix: T.app("w", *ix))))
        ref = snapshot(I, I.call(I.getattr(sol, "evaluate_faces"), [], {})).at(r, j)
        I.setattr(sol, "u", keep)
        chk.prove_eq(L + "face values are the same function of its own coefficients", vb, ref, **kw)
        # working on the copy leaves the original alone
        I.call(I.getattr(other, "apply_bc"), [], {})
        dgs = I.call(cls(I, "dg", "DG"), [other], {})
        I.call(I.getattr(dgs, "residual"), [other], {})
        unchanged(I, chk, L + "advancing the copy leaves the original", fr, sol, "dg1d.solution.Solution.copy")
        # data-only copies
        third = make()
        I.call(I.getattr(third, "copy_data_only"), [sol], {})
        x, y = I.np.asarr(I.getattr(third, "u")), I.np.asarr(I.getattr(sol, "u"))
        m, c = ranged(I, "m", 0, T.add(p, K(1))), ranged(I, "c", 0, size[1])
        chk.prove_eq(L + "data-only copy holds the same coefficients", x.at(m, c), y.at(m, c), hyps=list(I.pc), func="dg1d.solution.Solution.copy_data_only")
        chk.require(L + "data-only copy shares no coefficients", x.buf is not y.buf, "dg1d.solution.Solution.copy_data_only")
        chk.require(L + "data-only copy shares nothing", not (set(reach(third)) & set(reach(sol))), "dg1d.solution.Solution.copy_data_only")
    chk.run(I, go, L, defined=False)


def snapshot(I, a):
    a = I.np.asarr(a)
    return Arr(Buf(a.shape, a.reader()))


def limited(chk, s):
    system, nf, ic = s
    I, N, p, make = setup(chk, s, "", [R("th0"), R("th1")])
    I.contracts["dg1d.limiting.Limiter.hr"] = hr_contract

    def flags(I_, args, kw):
        a = I.np.asarr(args[0])
        for k in range(1):
            I.np.setitem(a, SliceVal(None, None, None), Arr(Buf(a.shape, lambda ix: T.app("flag", *ix, sort="I"), "i")))
    I.contracts["dg1d.%s_physics.sensing" % system] = flags

    def go():
        sol = make()
        lim = I.call(cls(I, "limiting", "Limiter"), ["adaptive_hr", sol], {})
        other = I.call(I.getattr(sol, "copy"), [], {})
        fr = Frozen(I, sol)
        I.call(I.getattr(lim, "limit"), [other], {})
        unchanged(I, chk, system + ": limiting a copy leaves the original", fr, sol, "dg1d.limiting.Limiter.limit")
        shared = set(reach(sol)) & set(reach(other))
        chk.require(system + ": a limited copy shares no data with the original", not shared)
    chk.run(I, go, "limited copy", defined=False)


def flux_args(chk, f):
    if f == "upwinding":
        I = chk.interp()
        M = INT("M")
        I.assume(T.le(1, M))
        set_gamma(I)
        mk = lambda n: Arr(Buf((M,), lambda ix: T.app(n, *ix)))
        size = M
        a, b = "ul", "ur"
        make = lambda: (mk("ul"), mk("ur"))
        mod = "advection_physics"
    else:
        I, M, i = euler(chk)
        use_massflux(I)
        make = lambda: (state_array(M, L_), state_array(M, R_))
        mod = "euler_physics"

    def go():
        a, b = make()
        ra, rb = a.reader(), b.reader()
        g0 = glob(I)
        h = I.np.asarr(I.call(fn(I, mod, "riemann_" + f), [a, b], {}))
        j = ranged(I, "j", 0, a.shape[0])
        kw = dict(hyps=list(I.pc), func="dg1d.%s.riemann_%s" % (mod, f), quants=list(I.lemmas))
        chk.prove_eq(f + ": left states unchanged", a.at(j), ra((j,)), **kw)
        chk.prove_eq(f + ": right states unchanged", b.at(j), rb((j,)), **kw)
        chk.prove_eq(f + ": ratio of specific heats unchanged", glob(I), g0, **kw)
        return None
    chk.run(I, go, "arguments of " + f, defined=False, normal=f != "godunov", quants=list(I.lemmas))


def volume_args(chk):
    for system, nf, ic in SYSTEMS:
        I = chk.interp()
        M, G = INT("M"), INT("G")
        I.assume(T.le(1, M))
        I.assume(T.le(1, G))
        set_gamma(I)

        def go():
            a = Arr(Buf((G, T.scale(F(nf), M)), lambda ix: T.app("ug", *ix)))
            ra = a.reader()
            I.call(fn(I, system + "_physics", "interior_flux"), [a], {})
            g, j = ranged(I, "g", 0, G), ranged(I, "j", 0, T.scale(F(nf), M))
            chk.prove_eq(system + ": the volume flux leaves its argument unchanged", a.at(g, j), ra((g, j)), hyps=list(I.pc),
                         func="dg1d.%s_physics.interior_flux" % system)
        chk.run(I, go, "volume flux", defined=False)
