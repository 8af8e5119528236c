"""Discharging obligations: ring normal form, case splitting, z3, cvc5."""
import time
import z3
from fractions import Fraction
from . import terms as T
from .poly import Norm, TooBig


class Z:
    """translation of terms to z3 (one instance per process; caches translations)"""
    def __init__(self):
        self.memo = {}
        self.funcs = {}
        self.side = {}      # id -> list of side axioms produced when translating the term
        self.n = 0

    def sort(self, s):
        if s == "I":
            return z3.IntSort()
        if s == "R":
            return z3.RealSort()
        return z3.BoolSort() if s == "B" else self.strsort()

    def strsort(self):
        if not hasattr(self, "_ss"):
            self._ss = z3.DeclareSort("Str")
            self.strs = {}
        return self._ss

    def tr(self, t):
        r = self.memo.get(t.id)
        if r is None:
            r = self._tr(t)
            self.memo[t.id] = r
        return r

    def num(self, t, want):
        e = self.tr(t)
        if t.sort == "B":
            e = z3.If(e, z3.IntVal(1), z3.IntVal(0))
        if want == "R" and e.sort() == z3.IntSort():
            return z3.ToReal(e)
        return e

    def _tr(self, t):
        op = t.op
        if op == "c":
            if t.sort == "B":
                return z3.BoolVal(t.val)
            if t.sort == "I":
                return z3.IntVal(int(t.val))
            if t.sort == "R":
                return z3.RealVal(str(t.val))
            self.strsort()
            if t.val not in self.strs:
                self.strs[t.val] = z3.Const("str%d" % len(self.strs), self._ss)
            return self.strs[t.val]
        if op == "v":
            return z3.Const(t.val, self.sort(t.sort))
        if op == "app":
            args = [self.tr(a) for a in t.args]
            key = (t.val, tuple(a.sort().name() for a in args), t.sort)
            f = self.funcs.get(key)
            if f is None:
                nm = "%s/%s" % (t.val, "".join(k[0] for k in key[1]))
                f = z3.Function(nm, *([a.sort() for a in args] + [self.sort(t.sort)])) if args else None
                if f is None:
                    c = z3.Const(nm, self.sort(t.sort))
                    f = lambda *a, c=c: c
                self.funcs[key] = f
            return f(*args)
        s = t.sort
        if op == "add":
            r = z3.RealVal(str(t.val[0])) if s == "R" else z3.IntVal(int(t.val[0]))
            parts = []
            for k, a in zip(t.val[1], t.args):
                e = self.num(a, s)
                if k != 1:
                    e = (z3.RealVal(str(k)) if s == "R" else z3.IntVal(int(k))) * e
                parts.append(e)
            if t.val[0] != 0:
                parts.append(r)
            return z3.Sum(parts) if len(parts) > 1 else parts[0]
        if op == "mul":
            r = None
            for a, e in zip(t.args, t.val):
                x = self.num(a, s)
                for _ in range(e):
                    r = x if r is None else r * x
            return r
        if op == "div":
            return self.num(t.args[0], "R") / self.num(t.args[1], "R")
        if op == "sqrt":
            a = self.num(t.args[0], "R")
            self.n += 1
            v = z3.Real("sqrt!%d" % t.id)
            self.side[t.id] = [v >= 0, z3.Implies(a >= 0, v * v == a)]
            return v
        if op == "rpow":
            key = ("rpow",)
            f = self.funcs.get(key)
            if f is None:
                f = self.funcs[key] = z3.Function("rpow", z3.RealSort(), z3.RealSort(), z3.RealSort())
            b, e = self.num(t.args[0], "R"), self.num(t.args[1], "R")
            v = f(b, e)
            self.side[t.id] = [z3.Implies(b > 0, v > 0),
                               z3.Implies(z3.And(b > 0, b < 1, e > 0), v < 1),
                               z3.Implies(z3.And(b > 1, e > 0), v > 1),
                               z3.Implies(z3.And(b > 0, b < 1, e < 0), v > 1),
                               z3.Implies(z3.And(b > 1, e < 0), v < 1),
                               z3.Implies(b == 1, v == 1), z3.Implies(z3.And(b > 0, e == 0), v == 1)]
            return v
        if op == "abs":
            a = self.num(t.args[0], s)
            return z3.If(a >= 0, a, -a)
        if op in ("min", "max"):
            a, b = self.num(t.args[0], s), self.num(t.args[1], s)
            return z3.If(a >= b, a, b) if op == "max" else z3.If(a <= b, a, b)
        if op == "floor":
            return z3.ToInt(self.num(t.args[0], "R"))
        if op == "idiv":
            return self.num(t.args[0], "I") / self.num(t.args[1], "I")
        if op == "imod":
            return self.num(t.args[0], "I") % self.num(t.args[1], "I")
        if op == "ite":
            c = self.tr(t.args[0])
            if s in "IR":
                return z3.If(c, self.num(t.args[1], s), self.num(t.args[2], s))
            return z3.If(c, self.tr(t.args[1]), self.tr(t.args[2]))
        if op == "eq0":
            return self.num(t.args[0], t.args[0].sort) == 0
        if op == "gt0":
            return self.num(t.args[0], t.args[0].sort) > 0
        if op == "ge0":
            return self.num(t.args[0], t.args[0].sort) >= 0
        if op == "not":
            return z3.Not(self.tr(t.args[0]))
        if op == "and":
            return z3.And([self.tr(a) for a in t.args])
        if op == "or":
            return z3.Or([self.tr(a) for a in t.args])
        if op in ("iff", "eqs"):
            return self.tr(t.args[0]) == self.tr(t.args[1])
        if op == "sum":
            return z3.Real("sum!%d" % t.id)
        raise ValueError(op)

    def sides(self, ts):
        out = []
        for t in T_subterms_many(ts):
            if t.op in ("sqrt", "rpow"):
                self.tr(t)
                out.extend(self.side.get(t.id, ()))
            elif t.op == "c" and t.sort == "S":
                self.tr(t)
        if hasattr(self, "strs") and len(self.strs) > 1:
            out.append(z3.Distinct(list(self.strs.values())))
        return out


def T_subterms_many(ts):
    seen, out = set(), []
    for t in ts:
        T.subterms(t, seen, out)
    return out


ZT = Z()
STATS = {"z3": 0, "z3_time": 0.0, "cvc5": 0, "cvc5_time": 0.0, "ring": 0, "ring_time": 0.0}


RPM = 5000      # z3 resource units per nominal millisecond


def z3_check(hyps, neg_goal, timeout_ms):
    """is hyps /\\ neg_goal unsat?  returns 'unsat' | 'sat' | 'unknown', model"""
    t0 = time.time()
    ts = list(hyps) + [neg_goal]
    s = z3.Solver()
    # a resource limit rather than a clock: the verdict does not depend on how busy the machine is
    s.set("rlimit", int(timeout_ms * RPM))
    s.set("timeout", int(timeout_ms * 10 + 2000))
    for h in ts:
        s.add(ZT.tr(h))
    for a in ZT.sides(ts):
        s.add(a)
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    STATS["z3"] += 1
    STATS["z3_time"] += time.time() - t0
    if r == z3.unsat:
        return "unsat", None
    if r == z3.sat:
        return "sat", s.model()
    return "unknown", None


def cvc5_check(hyps, neg_goal, timeout_ms):
    import subprocess, tempfile, os
    t0 = time.time()
    ts = list(hyps) + [neg_goal]
    s = z3.Solver()
    for h in ts:
        s.add(ZT.tr(h))
    for a in ZT.sides(ts):
        s.add(a)
    txt = "(set-logic ALL)\n" + s.to_smt2()
    fd, fn = tempfile.mkstemp(suffix=".smt2")
    try:
        with os.fdopen(fd, "w") as f:
            f.write(txt)
        p = subprocess.run(["cvc5", "--tlimit=%d" % int(timeout_ms), fn], capture_output=True, text=True,
                           timeout=timeout_ms / 1000 + 5)
        out = p.stdout.strip().splitlines()
        r = out[0] if out else "unknown"
    except Exception:
        r = "unknown"
    finally:
        os.unlink(fn)
    STATS["cvc5"] += 1
    STATS["cvc5_time"] += time.time() - t0
    return r if r in ("sat", "unsat") else "unknown"


_ent_cache = {}


def relevant(hyps, goal, rounds=2):
    """keep hypotheses connected to the goal through shared variables/apps (sound: dropping hypotheses)"""
    if len(hyps) <= 25:
        return hyps
    cur = T.syms(goal)
    hs = [(h, T.syms(h)) for h in hyps]
    keep = set()
    for _ in range(rounds):
        new = set(cur)
        for i, (h, s) in enumerate(hs):
            if i not in keep and s & cur:
                keep.add(i)
                new |= s
        cur = new
    return [h for i, (h, s) in enumerate(hs) if i in keep]


_io = {}


def intonly(t):
    """a statement about integers (arguments of applications aside)"""
    r = _io.get(t.id)
    if r is None:
        if t.op in ("v", "app", "c"):
            r = t.sort == "I" or t.sort == "B"
        elif t.sort == "R":
            r = False
        else:
            r = t.op != "sum" and all(intonly(a) for a in t.args)
        _io[t.id] = r
    return r


def quick(hyps, goal, timeout_ms=150):
    """cheap entailment: True only if hyps |- goal"""
    if goal is T.TRUE:
        return True
    hs = tuple(h for h in hyps if h is not T.TRUE)
    if goal is not T.FALSE and intonly(goal):
        hs = tuple(h for h in hs if intonly(h))
    if any(h is goal for h in hs):
        return True
    if T.FALSE in hs:
        return True
    key = (frozenset(h.id for h in hs), goal.id)
    r = _ent_cache.get(key)
    if r is None:
        r, _ = z3_check(hs, T.not_(goal), timeout_ms)
        _ent_cache[key] = r
    return r == "unsat"


_mod_cache = {}
_pw_cache = {}
_keepalive = []
_sample_cache = {}


def _hashval(name, args):
    import zlib
    k = "%s(%s)" % (name, ",".join("%.7g" % float(a) if isinstance(a, (int, float)) else str(a) for a in args))
    v = (zlib.crc32(k.encode()) % 1000003) / 1000003.0
    if name == "gx":
        return 1.9 * v - 0.95
    return 0.5 + 1.5 * v


class _Funcs(dict):
    def get(self, name, default=None):
        f = self.__dict__.setdefault("c", {}).get(name)
        if f is None:
            f = self.c[name] = lambda *a: _hashval(name, a)
        return f


_FUNCS = _Funcs()


def samples(hyps, extra_vars):
    """a few assignments (small integers, hashed reals) that satisfy the hypotheses"""
    import random
    vs = sorted(set().union(extra_vars, *[T.vars_of(h) for h in hyps]), key=lambda v: v.val)
    if any(v.sort in "SB" for v in vs) or any(a.sort != "R" for h in hyps for a in T.subterms(h) if a.op == "app"):
        return []
    key = (frozenset(h.id for h in hyps), tuple(v.id for v in vs))
    r = _sample_cache.get(key)
    if r is not None:
        return r
    rnd = random.Random(7)
    ints = [v for v in vs if v.sort == "I"]
    out = []
    iv = [h for h in hyps if all(v.sort == "I" for v in T.vars_of(h)) and not any(x.op in ("app", "sum") for x in T.subterms(h))]
    s = z3.Solver()
    s.set("timeout", 300)
    for h in iv:
        s.add(ZT.tr(h))
    t0 = time.time()
    for attempt in range(3):
        s.push()
        for v in rnd.sample(ints, len(ints)):
            s.push()
            s.add(ZT.tr(v) == rnd.randint(0, 4))
            if s.check() != z3.sat:
                s.pop()
                s.push()
                s.add(ZT.tr(v) <= 9)
                if s.check() != z3.sat:
                    s.pop()
                    s.push()
        if s.check() != z3.sat:
            break
        m = s.model()
        env = {}
        for v in ints:
            x = m.eval(ZT.tr(v), model_completion=True)
            env[v.val] = x.as_long()
        for v in vs:
            if v.sort == "R":
                env[v.val] = 0.3 + 2 * rnd.random()
        while s.num_scopes():
            s.pop()
        try:
            if all(T.evaluate(h, env, _FUNCS) for h in hyps):
                out.append(env)
        except Exception:
            pass
    STATS["z3_time"] += time.time() - t0
    _sample_cache[key] = out
    return out


def probe(hyps, d):
    """True when d is certainly not identically zero under the hypotheses (a sample point refutes it)"""
    for env in samples(hyps, T.vars_of(d)):
        try:
            v = T.evaluate(d, env, _FUNCS)
        except Exception:
            continue
        if abs(v) > 1e-5 and abs(v) < 1e12:
            return True
    return False


class Result:
    def __init__(self, ok, how, detail="", model=None):
        self.ok, self.how, self.detail, self.model = ok, how, detail, model


def simp(t, m):
    """replace condition subterms by constants"""
    return T.subst(t, m)


class Prover:
    def __init__(self, hyps=(), quants=(), sum_rules=(), rewrites=(), timeout=8000, max_splits=4000, budget=120):
        self.hyps = [h for h in hyps if h is not T.TRUE]
        self.quants = list(quants)          # callables: app term -> list of facts
        self.sum_rules = list(sum_rules)
        self.rewrites = list(rewrites)
        self.timeout = timeout
        self.splits = 0
        self.max_splits = max_splits
        self.deadline = time.time() + budget
        self.poscache = {}
        self.plain = not (quants or sum_rules or rewrites)
        self.axkey = (tuple(id(x) for x in self.quants), tuple(id(x) for x in self.sum_rules),
                      tuple(id(x) for x in self.rewrites))
        _keepalive.append((self.quants, self.sum_rules, self.rewrites))

    # facts about applications occurring in a set of terms
    def facts(self, ts):
        if not self.quants:
            return []
        out, done = [], set()
        todo = list(ts)
        rounds = 0
        while todo and rounds < 4:
            apps = set()
            for t in todo:
                apps |= {x for x in T.subterms(t) if x.op in ("app",) and self.closed(x)}
            todo = []
            for a in apps:
                if a.id in done:
                    continue
                done.add(a.id)
                for q in self.quants:
                    for f in (q(a) or ()):
                        if f is not T.TRUE:
                            out.append(f)
                            todo.append(f)
            rounds += 1
        return out

    def closed(self, x):
        return not any(v.val.startswith("#b") or v.val.startswith("s!") for v in T.vars_of(x))

    def norm(self, hyps):
        cache = {}

        def pos(t):
            r = cache.get(t.id)
            if r is None:
                g = T.lt(0, t)
                if g is T.TRUE:
                    r = True
                elif any(h is g for h in hyps):
                    r = True
                elif t.op == "sum":
                    r = False
                else:
                    fs = self.facts([t])
                    small = [h for h in hyps if T.size(h) <= 30 and not any(x.op == "sqrt" for x in T.subterms(h))]
                    r = quick(relevant(small + fs, g), g, 250)
                cache[t.id] = r
            return r
        ids = {h.id for h in hyps}

        def nn(t):
            g = T.le(0, t)
            return g is T.TRUE or g.id in ids or T.lt(0, t).id in ids
        N = Norm(pos=pos, sum_rules=self.sum_rules, rewrites=self.rewrites)

        def pointwise(bs, fa, fb):
            if self.pdepth > 2 or time.time() > self.deadline:
                return False
            # the bound variables become ordinary ones (canonical names: results are shared)
            mm = {b[0]: T.var("w!%d_%d" % (self.pdepth, i), "I") for i, b in enumerate(bs)}
            d = T.subst(T.sub(fa, fb), mm)
            if d.op == "c":
                return d.val == 0
            rng = []
            for (v, lo, hi) in bs:
                rng += [T.le(T.subst(lo, mm), mm[v]), T.lt(mm[v], T.subst(hi, mm))]
            h2 = self.flatten(list(hyps) + rng)
            if h2 is None:
                return True
            k = (frozenset(h.id for h in h2), d.id, self.axkey)
            if k in _pw_cache:
                return _pw_cache[k]
            if self.plain and probe(h2, d):
                _pw_cache[k] = False
                return False
            _pw_cache[k] = False
            self.pdepth += 1
            try:
                r = self._eq_top(h2, d, smt=False)
            finally:
                self.pdepth -= 1
            if r.ok or time.time() < self.deadline:
                _pw_cache[k] = r.ok
            else:
                del _pw_cache[k]
            return r.ok
        N.pointwise = pointwise
        N.nn = nn
        return N

    pdepth = 0

    def _eq_top(self, hyps, d, smt=True):
        d = self.ctx(d, hyps)
        if d.op == "c":
            return Result(d.val == 0, "ring")
        return self._eq(hyps, d, 0, smt)

    # ---- contextual simplification of conditions (in particular under the range of a bound variable)
    def ctx(self, t, hyps):
        memo = {}

        def known(c, extra):
            if c.op == "c":
                return c
            if c.op in ("and", "or"):
                f = T.and_ if c.op == "and" else T.or_
                done = []
                for a in c.args:
                    ka = known(a, extra)
                    done.append(ka)
                    # later members are only looked at when this one holds (and) / fails (or)
                    extra = extra + ((ka,) if c.op == "and" else (T.not_(ka),))
                return f(*done)
            hy = list(hyps) + list(extra)
            if quick(relevant(hy, c), c, 120):
                return T.TRUE
            n = T.not_(c)
            if quick(relevant(hy, n), n, 120):
                return T.FALSE
            return c

        def go(x, extra):
            if not x.args:
                return x
            k = (x.id, extra)
            r = memo.get(k)
            if r is not None:
                return r
            if x.op == "sum":
                bv = x.val
                lo, hi = go(x.args[1], extra), go(x.args[2], extra)
                body = x.args[0]
                e2 = extra + (T.le(lo, bv), T.lt(bv, hi))
                r = T.sum_(bv, lo, hi, go(body, e2))
            elif x.op == "ite":
                c = known(go(x.args[0], extra), extra)
                if c is T.TRUE:
                    r = go(x.args[1], extra)
                elif c is T.FALSE:
                    r = go(x.args[2], extra)
                else:
                    r = T.ite(c, go(x.args[1], extra), go(x.args[2], extra))
            else:
                na = [go(a, extra) for a in x.args]
                r = x if all(p is q for p, q in zip(na, x.args)) else T._rebuild(x, na)
            memo[k] = r
            return r
        return go(t, ())

    def prove(self, goal, hyps=None):
        hyps = list(self.hyps if hyps is None else hyps)
        hyps = self.flatten(hyps)
        if hyps is None:
            return Result(True, "contradictory-path")
        return self._prove(hyps, goal)

    def flatten(self, hyps):
        out, seen = [], set()
        st = list(hyps)
        while st:
            h = st.pop()
            if h is T.TRUE or h.id in seen:
                continue
            if h is T.FALSE:
                return None
            seen.add(h.id)
            if h.op == "and":
                st.extend(h.args)
            else:
                out.append(h)
        out.sort(key=lambda t: t.id)
        return out

    def _prove(self, hyps, goal):
        if goal is T.TRUE:
            return Result(True, "trivial")
        if any(h is goal for h in hyps):
            return Result(True, "trivial")
        if time.time() > self.deadline:
            return Result(False, "unknown", "time budget exhausted")
        if goal.op == "and":
            for g in goal.args:
                r = self._prove(hyps, g)
                if not r.ok:
                    return r
            return Result(True, "split")
        if goal.op == "or":
            args = sorted(goal.args, key=lambda a: (a.op == "eq0", T.size(a)))
            main = args[-1]
            extra = [T.not_(a) for a in args[:-1]]
            h2 = self.flatten(hyps + extra)
            if h2 is None:
                return Result(True, "contradictory-path")
            if main.op in ("eq0",):
                r = self._prove(h2, main)
                if r.ok:
                    return r
                if len(args) == 1:
                    return r
            return self.smt(hyps, goal)
        if goal.op == "eq0":
            return self.prove_eq(hyps, goal)
        return self.prove_split(hyps, goal)

    def tight(self, hyps):
        """x >= 0 and -x >= 0 give x = 0"""
        ids = {h.args[0].id for h in hyps if h.op == "ge0"}
        out = list(hyps)
        for h in hyps:
            if h.op == "ge0" and h.args[0].op != "c":
                n = -h.args[0]
                if n.id in ids:
                    g = T.eq(h.args[0], 0)
                    if not any(x is g for x in out):
                        out.append(g)
        return out

    # rewrite by equational hypotheses
    def eq_subst(self, hyps, goal):
        changed = True
        n = 0
        hyps = self.tight(hyps)
        while changed and n < 20:
            changed = False
            n += 1
            for h in hyps:
                if h.op != "eq0":
                    continue
                d = h.args[0]
                c, m = T.lin(d)
                cand = None
                for t, k in m.items():
                    if t.op in ("v", "app") and t.sort == d.sort:
                        if t.sort == "I" and abs(k) != 1:
                            continue
                        if any(u is not t and t in set(T.subterms(u)) for u in m):
                            continue
                        if t.op == "app" and any(t in set(T.subterms(a)) for a in t.args):
                            continue
                        if cand is None or t.id > cand[0].id:
                            cand = (t, k)
                if cand is None:
                    continue
                t, k = cand
                rest = T.from_lin(-c / k, {u: -q / k for u, q in m.items() if u is not t}, d.sort)
                mp = {t: rest}
                ng = T.subst(goal, mp)
                nh = [T.subst(x, mp) if x is not h else x for x in hyps]
                if ng is goal and all(a is b for a, b in zip(nh, hyps)):
                    continue
                hyps2 = self.flatten([x for x in nh if x is not h])
                if hyps2 is not None:
                    hyps2 = self.tight(hyps2)
                if hyps2 is None:
                    return None, None
                # the defining equation itself is consumed
                hyps, goal = hyps2, ng
                changed = True
                break
        return hyps, goal

    def prove_eq(self, hyps, goal):
        h2, g2 = self.eq_subst(hyps, goal)
        if h2 is None:
            return Result(True, "contradictory-path")
        if g2 is T.TRUE:
            return Result(True, "ring")
        if g2.op != "eq0":
            return self._prove(h2, g2)
        d = g2.args[0]
        if any(x.op == "sum" for x in T.subterms(d)):
            return self._eq_top(h2, d)
        h2 = self.canon(h2)
        d2 = self.canon_conds(h2, d)
        if d2 is not d:
            # the shared conditions as arbitrary truth values first
            m, st = {}, [t.args[0] for t in T.subterms(d2) if t.op == "ite"]
            while st:
                c = st.pop()
                if c.op in ("and", "or", "not"):
                    st += list(c.args)
                elif c.op in ("gt0", "ge0") and c.args[0].sort == "R" and c not in m:
                    n = T.not_(c)
                    if n in m:
                        m[c] = T.not_(m[n])
                    else:
                        m[c] = T.fresh("cond", "B")
            d3 = T.subst(d2, m)


            if T.size(d3) < 60:
                ints = [h for h in h2 if intonly(h)]
                g3 = T.eq(d3, 0)
                if intonly(g3):
                    if z3_check(ints, T.not_(g3), 2000)[0] == "unsat":
                        return Result(True, "ring+z3")
                elif self._eq(ints, d3, 0, smt=False).ok:
                    return Result(True, "ring+split")
        return self._eq(h2, d2, 0)

    def canon_conds(self, hyps, d):
        """real comparisons inside d in ring normal form, so that a condition written in two ways is one condition"""
        todo = []
        for t in T.subterms(d):
            if t.op == "ite":
                st = [t.args[0]]
                while st:
                    c = st.pop()
                    if c.op in ("and", "or", "not"):
                        st += list(c.args)
                    elif c.op in ("gt0", "ge0") and c.args[0].sort == "R" and T.size(c) > 6 and c not in todo:
                        todo.append(c)
        if len(todo) < 2:
            return d
        N = self.norm(hyps)
        m, reps = {}, []
        todo.sort(key=T.size)

        def same(N, a, b):
            try:
                return N.same_cond(a, b)
            except TooBig:
                return False
        for c in todo:
            try:
                if self.side_conditions(hyps, c.args[0]) is not None:
                    continue
                v = N.cond(c)
                if v.op == "c":
                    m[c] = v
                    continue
                for r in reps:
                    if same(N, r, c):
                        m[c] = r
                        break
                    if same(N, T.not_(r), c):
                        m[c] = T.not_(r)
                        break
                else:
                    reps.append(c)
            except TooBig:
                continue
        return T.subst(d, m) if m else d

    def canon(self, hyps):
        """hypotheses on reals also in ring normal form, so that conditions are recognised however they are written"""
        todo = [h for h in hyps if h.op in ("gt0", "ge0") and h.args[0].sort == "R" and T.size(h) > 6]
        if not todo:
            return hyps
        for _ in range(2):
            N = self.norm(hyps)
            new = []
            for h in todo:
                try:
                    l = N.literal(h.op, h.args[0])
                except TooBig:
                    l = None
                if l is not None and l.op != "c":
                    new.append(l)
            h2 = self.flatten(hyps + new)
            if h2 is None or len(h2) == len(hyps):
                break
            hyps = h2
        return hyps

    def _eq(self, hyps, d, depth, smt=True):
        if time.time() > self.deadline:
            return Result(False, "unknown", "time budget exhausted")
        if d.op == "c":
            if d.val == 0:
                return Result(True, "ring")
            return self.contradiction(hyps, d)
        t0 = time.time()
        try:
            N = self.norm(hyps)
            z = N.zero(d)
        except TooBig:
            z = False
        STATS["ring"] += 1
        STATS["ring_time"] += time.time() - t0
        if z:
            bad = self.side_conditions(hyps, d)
            if bad is None:
                return Result(True, "ring")
            return Result(False, "failed", "definedness: " + T.show(bad)[:600])
        # case split
        c = self.pick(d)
        if c is None:
            return self.smt(hyps, T.eq(d, 0)) if smt else Result(False, "unknown", "")
        self.splits += 1
        if self.splits > self.max_splits:
            return Result(False, "unknown", "too many case splits")
        for val in (True, False):
            lit = c if val else T.not_(c)
            h2 = self.flatten(hyps + [lit])
            if h2 is None or quick(self.withfacts(h2, lit), T.FALSE, 400):
                continue
            d2 = self.under(d, c, val)
            # a fresh equality may rewrite the goal
            if lit.op in ("ge0", "gt0"):
                h4 = self.tight(h2)
            else:
                h4 = h2
            if lit.op == "eq0" or len(h4) > len(h2):
                h3, g3 = self.eq_subst(h2, T.eq(d2, 0))
                if h3 is None or g3 is T.TRUE:
                    continue
                if g3.op == "eq0":
                    r = self._eq(h3, g3.args[0], depth + 1, smt)
                else:
                    r = self._prove(h3, g3)
            else:
                r = self._eq(h2, d2, depth + 1, smt)
            if not r.ok:
                return r
        return Result(True, "ring+split")

    def withfacts(self, hyps, lit):
        return relevant(list(hyps) + self.facts(list(hyps)), lit) if self.quants else relevant(hyps, lit)

    def under(self, d, c, val):
        m = {c: T.const(val)}
        n = T.not_(c)
        if n.op != "not":
            m[n] = T.const(not val)
        # abs / min / max decided by the condition
        if c.op in ("ge0", "gt0"):
            pass
        d2 = T.subst(d, m)
        key = getattr(c, "id")
        extra = self.absmap.get(key) if hasattr(self, "absmap") else None
        if extra:
            for t, (pos, neg) in extra:
                d2 = T.subst(d2, {t: pos if val else neg})
        return d2

    def pick(self, d):
        """an innermost undecided condition"""
        best = None
        if not hasattr(self, "absmap"):
            self.absmap = {}
        for t in T.subterms(d):
            c = None
            if t.op == "ite":
                c = t.args[0]
                if c.op in ("and", "or", "not"):
                    c = self.atomic(c)
            elif t.op == "abs":
                a = t.args[0]
                c = T.ge0(a)
                self.absmap.setdefault(c.id, []).append((t, (a, -a)))
            elif t.op in ("min", "max"):
                a, b = t.args
                c = T.le(b, a)
                big, small = (a, b)
                pr = (big, small) if t.op == "max" else (small, big)
                self.absmap.setdefault(c.id, []).append((t, pr))
            if c is None or c.op == "c":
                continue
            if any(v.val.startswith("s!") or v.val.startswith("#b") for v in T.vars_of(c)):
                continue
            if self.hasbound(d, c):
                continue
            sz = sum(1 for x in T.subterms(c) if x.op in ("ite", "abs", "min", "max"))
            k = (sz, T.size(c))
            if best is None or k < best[0]:
                best = (k, c)
        return best[1] if best else None

    def hasbound(self, d, c):
        bv = {t.val for t in T.subterms(d) if t.op == "sum"}
        return bool(bv & T.vars_of(c))

    def atomic(self, c):
        while c.op in ("and", "or", "not"):
            c = c.args[0]
        return c

    def contradiction(self, hyps, d):
        fs = self.facts(hyps)
        r, m = z3_check(hyps + fs, T.TRUE, self.timeout)
        if r == "unsat":
            return Result(True, "z3-contradiction")
        return Result(False, "failed" if r == "sat" else "unknown", "not equal: difference " + T.show(d)[:300], m)

    def side_conditions(self, hyps, d):
        """every denominator / root argument in d (under its guards) is fine; None or the offending condition"""
        out = []
        seen = set()

        N = self.norm(hyps)

        def decided(c):
            try:
                return N.cond(c)
            except TooBig:
                return c

        def walk(t, guards):
            k = (t.id, tuple(g.id for g in guards))
            if k in seen:
                return
            seen.add(k)
            if t.op == "ite":
                walk(t.args[0], guards)
                c = decided(t.args[0])
                if c is not T.FALSE:
                    walk(t.args[1], guards + (t.args[0],))
                if c is not T.TRUE:
                    walk(t.args[2], guards + (T.not_(t.args[0]),))
                return
            if t.op == "div" :
                out.append((guards, T.ne(t.args[1], 0)))
            elif t.op == "sqrt":
                out.append((guards, T.le(0, t.args[0])))
            elif t.op == "rpow":
                out.append((guards, T.lt(0, t.args[0])))
            elif t.op == "sum":
                bv = t.val
                g2 = guards + (T.le(t.args[1], bv), T.lt(bv, t.args[2]))
                walk(t.args[1], guards)
                walk(t.args[2], guards)
                walk(t.args[0], g2)
                return
            for a in t.args:
                walk(a, guards)
        walk(d, ())
        done = set()
        for guards, g in out:
            if g is T.TRUE:
                continue
            k = (tuple(x.id for x in guards), g.id)
            if k in done:
                continue
            done.add(k)
            if not self.entail(hyps + list(guards), g):
                return T.implies(T.and_(*guards), g)
        return None

    def entail(self, hyps, g):
        """nonzero / nonnegative side conditions: syntactic positivity, then z3"""
        hs = self.flatten(hyps)
        if hs is None or g is T.TRUE or any(h is g for h in hs):
            return True
        key = (frozenset(h.id for h in hs), g.id, "e")
        if key in _ent_cache:
            return _ent_cache[key]
        r = False
        try:
            N = self.norm(hs)
            core = None
            if g.op == "not" and g.args[0].op == "eq0":
                core = g.args[0].args[0]
                rf = N.rf(core)
                r = N.rf_pos(rf) or N.rf_pos(N.rscale(rf, -Fraction(1)))
                if not r and core.op == "mul":
                    r = all(self.entail(hs, T.ne(f, 0)) for f in core.args)
            elif g.op in ("gt0", "ge0"):
                core = g.args[0]
                rf = N.rf(core)
                r = N.rf_pos(rf) or (g.op == "ge0" and not rf.n)
        except TooBig:
            pass
        if not r:
            r = self._smt_ok(hs, g)
        _ent_cache[key] = r
        return r

    def _smt_ok(self, hyps, g):
        fs = self.facts(list(hyps) + [g])
        h = relevant(list(hyps) + fs, g, 3)
        r, m = z3_check(h, T.not_(g), min(self.timeout, 4000))
        return r == "unsat"

    def prove_split(self, hyps, goal):
        r = self.smt(hyps, goal)
        return r

    def smt(self, hyps, goal):
        if time.time() > self.deadline:
            return Result(False, "unknown", "time budget exhausted")
        fs = self.facts(list(hyps) + [goal])
        allh = list(hyps) + fs
        r, m = z3_check(allh, T.not_(goal), self.timeout)
        if r == "unsat":
            return Result(True, "z3")
        if r == "sat":
            return Result(False, "failed", "z3 counterexample for " + T.show(goal)[:400], m)
        # try after clearing denominators through the normaliser
        if goal.op in ("gt0", "ge0"):
            try:
                N = self.norm(hyps)
                rf = N.rf(goal.args[0])
                if N.rf_pos(rf) or (goal.op == "ge0" and not rf.n):
                    if self.side_conditions(hyps, goal.args[0]) is None:
                        return Result(True, "ring-positivity")
            except TooBig:
                pass
        c = cvc5_check(relevant(allh, goal, 3), T.not_(goal), self.timeout)
        if c == "unsat":
            return Result(True, "cvc5")
        return Result(False, "unknown", "solvers undecided on " + T.show(goal)[:400])
