"""Hash-consed terms: the logic in which obligations are stated.

Sorts: 'I' mathematical integers, 'R' mathematical reals, 'B' booleans, 'S' opaque values (strings).
Arithmetic is kept as linear combinations of products of factors, so that trivially equal terms are
identical objects; deeper equality is decided by poly.py and the solvers.
"""
from fractions import Fraction
import itertools

_table = {}
_counter = itertools.count()


class Term:
    __slots__ = ("op", "args", "sort", "val", "id", "_vars", "_apps", "_syms", "_size", "_all", "undef")

    def __repr__(self):
        return show(self)

    # arithmetic
    def __add__(self, o): return add(self, o)
    def __radd__(self, o): return add(o, self)
    def __sub__(self, o): return sub(self, o)
    def __rsub__(self, o): return sub(o, self)
    def __mul__(self, o): return mul(self, o)
    def __rmul__(self, o): return mul(o, self)
    def __truediv__(self, o): return div(self, o)
    def __rtruediv__(self, o): return div(o, self)
    def __floordiv__(self, o): return idiv(self, o)
    def __mod__(self, o): return imod(self, o)
    def __neg__(self): return scale(Fraction(-1), self)
    def __pow__(self, o): return power(self, o)
    def __lt__(self, o): return lt(self, o)
    def __le__(self, o): return le(self, o)
    def __gt__(self, o): return lt(o, self)
    def __ge__(self, o): return le(o, self)
    def __and__(self, o): return and_(self, o)
    def __or__(self, o): return or_(self, o)
    def __invert__(self): return not_(self)
    def __bool__(self):
        if self.op == "c" and self.sort == "B":
            return self.val
        raise TypeError("truth value of a symbolic term: " + show(self)[:200])


def _mk(op, sort, args=(), val=None):
    key = (op, sort, val, tuple(a.id for a in args))
    t = _table.get(key)
    if t is None:
        t = Term()
        t.op, t.sort, t.args, t.val = op, sort, tuple(args), val
        t.id = next(_counter)
        t._vars = None
        t._apps = None
        t._syms = None
        t._size = None
        t._all = None
        # contains a division by the constant zero: must not vanish when multiplied by zero or cancelled
        t.undef = any(a.undef for a in t.args) or op == "div" and args[1].op == "c" and args[1].val == 0
        _table[key] = t
    return t


TRUE = _mk("c", "B", (), True)
FALSE = _mk("c", "B", (), False)


def const(x, sort=None):
    if isinstance(x, Term):
        return x
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, int):
        return _mk("c", sort or "I", (), Fraction(x))
    if isinstance(x, Fraction):
        return _mk("c", sort or "R", (), x)
    if isinstance(x, float):
        return _mk("c", "R", (), Fraction(repr(x)))
    if isinstance(x, str):
        return _mk("c", "S", (), x)
    raise TypeError("not a term: %r" % (x,))


lift = const


def var(name, sort="R"):
    return _mk("v", sort, (), name)


def app(f, *args, sort="R"):
    return _mk("app", sort, tuple(const(a) for a in args), f)


def is_const(t):
    return t.op == "c"


def cval(t):
    return t.val if t.op == "c" else None


# ---------------------------------------------------------------- linear combinations
# op 'add': val = (const, coefs), args = terms (none of them 'add' or 'c'); at least one arg.
def lin(t):
    """-> (const, {term: coef})"""
    if t.op == "c":
        return t.val, {}
    if t.op == "add":
        return t.val[0], dict(zip(t.args, t.val[1]))
    return Fraction(0), {t: Fraction(1)}


def zap(t):
    """zero times t: zero where t is defined"""
    if not t.undef:
        return const(Fraction(0))
    if t.op == "ite" and not t.args[0].undef:
        return ite(t.args[0], zap(t.args[1]), zap(t.args[2]))
    return _mk("div", "R", (const(Fraction(1)), const(Fraction(0))))


def from_lin(c, d, sort):
    bad = [t for t, k in d.items() if k == 0 and t.undef]
    if bad:
        r = from_lin(c, {t: k for t, k in d.items() if k != 0}, "R")
        for t in bad:
            r = add(r, zap(t))
        return r
    items = [(t, k) for t, k in d.items() if k != 0]
    if not items:
        return _mk("c", sort, (), Fraction(c))
    if c == 0 and len(items) == 1 and items[0][1] == 1 and items[0][0].sort == sort:
        return items[0][0]
    items.sort(key=lambda p: p[0].id)
    return _mk("add", sort, tuple(t for t, _ in items), (Fraction(c), tuple(k for _, k in items)))


def _numsort(*ts):
    for t in ts:
        if t.sort == "R":
            return "R"
        if t.sort != "I":
            raise TypeError("arithmetic on sort %s: %s" % (t.sort, show(t)[:200]))
    return "I"


def b2i(t):
    """booleans used as numbers"""
    t = const(t)
    if t.sort == "B":
        return ite(t, const(1), const(0))
    return t


def add(a, b):
    a, b = b2i(a), b2i(b)
    s = _numsort(a, b)
    ca, da = lin(a)
    cb, db = lin(b)
    if not da and ca == 0 and b.sort == s:
        return b
    if not db and cb == 0 and a.sort == s:
        return a
    d = dict(da)
    for t, k in db.items():
        d[t] = d.get(t, 0) + k
    return from_lin(ca + cb, d, s)


def scale(k, a):
    a = b2i(a)
    c, d = lin(a)
    s = a.sort if k.denominator == 1 else "R"
    return from_lin(c * k, {t: v * k for t, v in d.items()}, s)


def sub(a, b):
    return add(a, scale(Fraction(-1), b2i(b)))


# op 'mul': val = exps, args = factors (not 'c','mul'), all exponents >= 1, total degree >= 2
def factors(t):
    if t.op == "mul":
        return dict(zip(t.args, t.val))
    return {t: 1}


def from_factors(d, sort):
    items = [(t, e) for t, e in d.items() if e]
    if len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda p: p[0].id)
    return _mk("mul", sort, tuple(t for t, _ in items), tuple(e for _, e in items))


def _mul1(a, b, sort):
    d = factors(a)
    d = dict(d)
    for t, e in factors(b).items():
        d[t] = d.get(t, 0) + e
    return from_factors(d, sort)


def mul(a, b):
    a, b = b2i(a), b2i(b)
    s = _numsort(a, b)
    if a.op == "c":
        r = scale(a.val, b)
        return toR(r) if s == "R" else r
    if b.op == "c":
        r = scale(b.val, a)
        return toR(r) if s == "R" else r
    if a.sort == "I" and b.sort == "I":
        ca, da = lin(a)
        cb, db = lin(b)
        out = {}
        for t, k in da.items():
            if cb:
                out[t] = out.get(t, 0) + k * cb
        for t, k in db.items():
            if ca:
                out[t] = out.get(t, 0) + k * ca
        for t, k in da.items():
            for u, l in db.items():
                m = _mul1(t, u, "I")
                out[m] = out.get(m, 0) + k * l
        return from_lin(ca * cb, out, "I")
    # reals: pull the constant out of single-term combinations
    k = Fraction(1)
    fs = {}
    for x in (a, b):
        c, d = lin(x)
        if c == 0 and len(d) == 1:
            (t, kk), = d.items()
            k *= kk
            for f, e in factors(t).items():
                fs[f] = fs.get(f, 0) + e
        else:
            fs[x] = fs.get(x, 0) + 1
    return scale(k, from_factors(fs, "R")) if k != 1 else from_factors(fs, "R")


def toR(t):
    t = const(t)
    if t.sort == "R":
        return t
    if t.sort == "B":
        t = b2i(t)
    c, d = lin(t)
    return _mk("c", "R", (), c) if not d else _mk("add", "R", t.args if t.op == "add" else (t,),
                                                  t.val if t.op == "add" else (Fraction(0), (Fraction(1),)))


def div(a, b):
    a, b = b2i(a), b2i(b)
    if b.op == "c":
        if b.val == 0:
            return _mk("div", "R", (toR(a), toR(b)))
        return toR(scale(1 / b.val, a))
    if a.op == "c" and a.val == 0:
        return const(Fraction(0))
    if a is b:
        return const(Fraction(1))
    # constants out of the numerator / denominator
    ca, da = lin(a)
    cb, db = lin(b)
    k = Fraction(1)
    if ca == 0 and len(da) == 1:
        (a, kk), = da.items()
        k *= kk
    elif not da:
        k *= ca
        a = const(Fraction(1))
    if cb == 0 and len(db) == 1:
        (b, kk), = db.items()
        k /= kk
    if a is b:
        return const(k)
    r = _mk("div", "R", (a, b))
    return scale(k, r) if k != 1 else r


def power(a, e):
    a, e = b2i(a), const(e)
    if e.op == "c" and e.val.denominator == 1:
        n = int(e.val)
        if n == 0:
            return const(1) if a.sort == "I" else const(Fraction(1))
        if n > 0:
            if a.op == "c":
                return _mk("c", _numsort(a, e), (), a.val ** n)
            r = a
            for _ in range(n - 1):
                r = mul(r, a)
            return toR(r) if e.sort == "R" else r
        return div(const(Fraction(1)), power(a, const(-n)))
    if e.op == "c" and e.val == Fraction(1, 2):
        return sqrt(a)
    if a.op == "c" and a.val == 1:
        return const(Fraction(1))
    return _mk("rpow", "R", (toR(a), toR(e)))


def sqrt(a):
    a = toR(b2i(a))
    if a.op == "c" and a.val >= 0:
        n, d = a.val.numerator, a.val.denominator
        from math import isqrt
        if isqrt(n) ** 2 == n and isqrt(d) ** 2 == d:
            return const(Fraction(isqrt(n), isqrt(d)))
    return _mk("sqrt", "R", (a,))


def abs_(a):
    a = b2i(a)
    if a.op == "c":
        return _mk("c", a.sort, (), abs(a.val))
    if a.op == "abs":
        return a
    c, d = lin(a)
    if c == 0 and len(d) == 1:
        (t, k), = d.items()
        if k != 1:
            return scale(abs(k), abs_(t if a.sort == t.sort else toR(t)))
    n = scale(Fraction(-1), a)
    if n.id < a.id:
        a = n
    return _mk("abs", a.sort, (a,))


def _minmax(op, a, b):
    a, b = b2i(a), b2i(b)
    s = _numsort(a, b)
    if a is b:
        return a
    d = sub(a, b)
    if d.op == "c":
        bigger = a if d.val >= 0 else b
        smaller = b if d.val >= 0 else a
        r = bigger if op == "max" else smaller
        return toR(r) if s == "R" else r
    if a.id > b.id:
        a, b = b, a
    return _mk(op, s, (a, b))


def max_(a, b): return _minmax("max", a, b)
def min_(a, b): return _minmax("min", a, b)


def floor_(a):
    a = const(a)
    if a.sort == "I":
        return a
    if a.op == "c":
        import math
        return const(math.floor(a.val))
    return _mk("floor", "I", (a,))


def idiv(a, b):
    a, b = b2i(a), b2i(b)
    if _numsort(a, b) == "R":
        return toR(floor_(div(a, b)))
    if b.op == "c" and b.val > 0:
        m = b.val
        if m == 1:
            return a
        c, d = lin(a)
        q, r = {}, {}
        for t, k in d.items():
            kq = k // m
            if kq:
                q[t] = kq
            if k - kq * m:
                r[t] = k - kq * m
        cq = c // m
        rest = from_lin(c - cq * m, r, "I")
        if not r:
            return from_lin(cq, q, "I")
        return add(from_lin(cq, q, "I"), _mk("idiv", "I", (rest, b)))
    if a.op == "c" and b.op == "c" and b.val != 0:
        return const(int(a.val // b.val))
    return _mk("idiv", "I", (a, b))


def imod(a, b):
    a, b = b2i(a), b2i(b)
    if _numsort(a, b) == "R":
        return _mk("app", "R", (a, b), "fmod")
    if b.op == "c" and b.val > 0:
        m = b.val
        c, d = lin(a)
        r = {t: k - (k // m) * m for t, k in d.items() if k - (k // m) * m}
        rest = from_lin(c - (c // m) * m, r, "I")
        if not r:
            return rest
        return _mk("imod", "I", (rest, b))
    if a.op == "c" and b.op == "c" and b.val != 0:
        return const(int(a.val % b.val))
    return _mk("imod", "I", (a, b))


# ---------------------------------------------------------------- booleans
def _normsign(d):
    """scale so that leading coefficient is +1 (equalities) -- keeps integer coefs primitive"""
    c, m = lin(d)
    ks = list(m.values())
    lead = m[min(m, key=lambda t: t.id)]
    if d.sort == "I":
        from math import gcd
        g = 0
        for k in ks:
            g = gcd(g, abs(int(k)))
        if c % g != 0:
            return None
        f = Fraction(1, g) * (1 if lead > 0 else -1)
        return from_lin(c * f, {t: k * f for t, k in m.items()}, "I")
    f = 1 / lead
    return from_lin(c * f, {t: k * f for t, k in m.items()}, "R")


def eq(a, b):
    a, b = const(a), const(b)
    if a is b:
        return TRUE
    if a.sort == "B" and b.sort == "B":
        if a.op == "c":
            return b if a.val else not_(b)
        if b.op == "c":
            return a if b.val else not_(a)
        if a.id > b.id:
            a, b = b, a
        return _mk("iff", "B", (a, b))
    if a.sort == "S" or b.sort == "S":
        if a.op == "c" and b.op == "c":
            return const(a.sort == b.sort and a.val == b.val)
        if a.id > b.id:
            a, b = b, a
        return _mk("eqs", "B", (a, b))
    d = sub(a, b)
    if d.op == "c":
        return const(d.val == 0)
    d = _normsign(d)
    if d is None:
        return FALSE
    # parity: (x + 1) % 2 == 0 and x % 2 == 1 are the negation of x % 2 == 0
    if d.sort == "I":
        c, m = lin(d)
        if len(m) == 1:
            (t, k), = m.items()
            if t.op == "imod" and t.args[1].op == "c" and t.args[1].val == 2 and abs(k) == 1:
                v = -c / k
                if v not in (0, 1):
                    return FALSE
                c2, m2 = lin(t.args[0])
                if c2 % 2:
                    v = 1 - v
                if c2 % 2:
                    t = _mk("imod", "I", (from_lin(Fraction(0), m2, "I"), t.args[1]))
                base = _mk("eq0", "B", (t,))
                return base if v == 0 else not_(base)
    return _mk("eq0", "B", (d,))


def ne(a, b):
    return not_(eq(a, b))


def _pos_scale(d, strict):
    c, m = lin(d)
    if d.sort == "I":
        from math import gcd, floor
        g = 0
        for k in m.values():
            g = gcd(g, abs(int(k)))
        if g > 1:
            return from_lin(Fraction(floor(c / g)), {t: k / g for t, k in m.items()}, "I")
        return d
    f = 1 / abs(m[min(m, key=lambda t: t.id)])
    return from_lin(c * f, {t: k * f for t, k in m.items()}, "R")


def ge0(d):
    if d.op == "c":
        return const(d.val >= 0)
    return _mk("ge0", "B", (_pos_scale(d, False),))


def gt0(d):
    if d.op == "c":
        return const(d.val > 0)
    if d.sort == "I":
        return ge0(sub(d, const(1)))
    return _mk("gt0", "B", (_pos_scale(d, True),))


def le(a, b):
    return ge0(sub(b, a))


def lt(a, b):
    return gt0(sub(b, a))


def not_(a):
    a = const(a)
    if a.sort != "B":
        return eq(a, 0)
    if a.op == "c":
        return const(not a.val)
    if a.op == "not":
        return a.args[0]
    if a.op == "gt0":
        return ge0(-a.args[0])
    if a.op == "ge0":
        d = a.args[0]
        return gt0(-d)
    return _mk("not", "B", (a,))


def _nary(op, xs, unit, zero):
    out = []
    seen = set()
    for x in xs:
        x = const(x)
        if x.sort != "B":
            x = ne(x, 0)
        ys = x.args if x.op == op else (x,)
        for y in ys:
            if y is unit or y.id in seen:
                continue
            if y is zero:
                return zero
            if not_(y).id in seen:
                return zero
            seen.add(y.id)
            out.append(y)
    if not out:
        return unit
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.id)
    return _mk(op, "B", tuple(out))


def and_(*xs): return _nary("and", xs, TRUE, FALSE)
def or_(*xs): return _nary("or", xs, FALSE, TRUE)
def implies(a, b): return or_(not_(a), b)


def ite(c, a, b):
    c = const(c)
    a, b = const(a), const(b)
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if a.sort != b.sort:
        if {a.sort, b.sort} <= {"I", "R", "B"}:
            a, b = toR(b2i(a)), toR(b2i(b))
            if a is b:
                return a
        else:
            raise TypeError("ite sorts")
    if a.sort == "B":
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return not_(c)
        if a is TRUE:
            return or_(c, b)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
        if b is FALSE:
            return and_(c, a)
    if c.op == "not":
        c, a, b = c.args[0], b, a
    # nested same condition
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return _mk("ite", a.sort, (c, a, b))


def sum_(k, lo, hi, body):
    """sum over k in [lo, hi) of body; k is an 'I' var"""
    lo, hi, body = const(lo), const(hi), toR(const(body))
    if body.op == "c" and body.val == 0:
        return const(Fraction(0))
    d = sub(hi, lo)
    if d.op == "c":
        n = int(d.val)
        if n <= 0:
            return const(Fraction(0))
        if lo.op == "c" or n <= 3:
            if n <= 64:
                r = const(Fraction(0))
                for i in range(n):
                    r = add(r, subst(body, {k: add(lo, const(i))}))
                return r
    # canonical bound variable (by nesting height): alpha-equivalent sums are the same term
    h = max(_height(body), _height(lo), _height(hi)) + 1
    nm = var("s!c%d" % h, "I")
    if k is not nm:
        n = 0
        while nm in vars_of(body):
            n += 1
            nm = var("s!c%d_%d" % (h, n), "I")
        if k is not nm:
            body = subst(body, {k: nm})
        k = nm
    return _mk("sum", "R", (body, lo, hi), k)


_heights = {}


def _height(t):
    r = _heights.get(t.id)
    if r is None:
        r = max([_height(a) for a in t.args], default=0)
        if t.op == "sum":
            r += 1
        _heights[t.id] = r
    return r


_subst_cache = {}


def subst(t, m):
    """simultaneous substitution of terms (vars or any subterm) by terms"""
    m = {k: const(v) for k, v in m.items()}
    if not m:
        return t
    key = tuple(sorted((k.id, v.id) for k, v in m.items()))
    cache = _subst_cache.setdefault(key, {})
    if len(_subst_cache) > 2000:
        _subst_cache.clear()
        cache = _subst_cache.setdefault(key, {})
    return _subst(t, m, cache)


def _subst(t, m, cache):
    r = m.get(t)
    if r is not None:
        return r
    if not t.args:
        return t
    r = cache.get(t.id)
    if r is not None:
        return r
    if t.op == "sum" and t.val in m:
        r = _rebuild(t, [t.args[0], _subst(t.args[1], m, cache), _subst(t.args[2], m, cache)])
    else:
        if t.op == "sum":
            # avoid capture
            for v in m.values():
                if t.val in vars_of(v):
                    nv = fresh("s", "I")
                    body = subst(t.args[0], {t.val: nv})
                    t2 = _mk("sum", "R", (body,) + t.args[1:], nv)
                    r = _subst(t2, m, cache)
                    cache[t.id] = r
                    return r
        na = [_subst(a, m, cache) for a in t.args]
        if all(x is y for x, y in zip(na, t.args)):
            r = t
        else:
            r = _rebuild(t, na)
    cache[t.id] = r
    return r


def _rebuild(t, na):
    op = t.op
    if op == "app":
        return _mk("app", t.sort, tuple(na), t.val)
    if op == "add":
        r = const(t.val[0], t.sort) if t.sort == "R" else const(t.val[0], "I")
        for k, a in zip(t.val[1], na):
            r = add(r, scale(k, a))
        return toR(r) if t.sort == "R" else r
    if op == "mul":
        r = None
        for a, e in zip(na, t.val):
            for _ in range(e):
                r = a if r is None else mul(r, a)
        return toR(r) if t.sort == "R" else r
    if op == "div":
        return div(*na)
    if op == "rpow":
        return power(*na)
    if op == "sqrt":
        return sqrt(*na)
    if op == "abs":
        return abs_(*na)
    if op == "min":
        return min_(*na)
    if op == "max":
        return max_(*na)
    if op == "floor":
        return floor_(*na)
    if op == "idiv":
        return idiv(*na)
    if op == "imod":
        return imod(*na)
    if op == "ite":
        return ite(*na)
    if op == "eq0":
        return eq(na[0], 0)
    if op == "gt0":
        return gt0(na[0])
    if op == "ge0":
        return ge0(na[0])
    if op == "not":
        return not_(na[0])
    if op == "and":
        return and_(*na)
    if op == "or":
        return or_(*na)
    if op in ("eqs", "iff"):
        return eq(*na)
    if op == "sum":
        return sum_(t.val, na[1], na[2], na[0])
    raise ValueError(op)


scope = [-1, 0]         # where names are being made up; a name is a function of the place and the count there
_places = {}


def next_id():
    scope[1] += 1
    return place((scope[0], scope[1]))


def place(k):
    r = _places.get(k)
    if r is None:
        r = _places[k] = len(_places)
    return r


def fresh(prefix="t", sort="R"):
    return var("%s!%d" % (prefix, next_id()), sort)


def vars_of(t):
    if t._vars is None:
        s = set()
        if t.op == "v":
            s.add(t)
        for a in t.args:
            s |= vars_of(a)
        if t.op == "sum":
            s -= {t.val}
        t._vars = frozenset(s)
    return t._vars


def apps_of(t):
    """all 'app' subterms not under a binder's scope dependence (binders: apps mentioning the bound var are kept out)"""
    if t._apps is None:
        s = set()
        if t.op == "app":
            s.add(t)
        for a in t.args:
            s |= apps_of(a)
        if t.op == "sum":
            s = {a for a in s if t.val not in vars_of(a)}
        t._apps = frozenset(s)
    return t._apps


def subterms(t, seen=None, out=None):
    if out is None:
        seen, out = set(), []
    if t.id in seen:
        return out
    seen.add(t.id)
    out.append(t)
    for a in t.args:
        subterms(a, seen, out)
    return out


def all_apps(t):
    """all applications in t, in term order"""
    if t._all is None:
        t._all = tuple(sorted({x for x in subterms(t) if x.op == "app"}, key=lambda x: x.id))
    return t._all


def size(t):
    if t._size is None:
        t._size = len(subterms(t))
    return t._size


def syms(t):
    """ids of the variables and applications in t (bound variables included)"""
    if t._syms is None:
        s = set()
        if t.op in ("v", "app"):
            s.add(t.id)
        for a in t.args:
            s |= syms(a)
        t._syms = frozenset(s)
    return t._syms


def show(t, depth=14):
    if depth <= 0:
        return "..."
    s = lambda x: show(x, depth - 1)
    op = t.op
    if op == "c":
        if t.sort in ("I", "R"):
            return str(t.val)
        return repr(t.val)
    if op == "v":
        return t.val
    if op == "app":
        return "%s(%s)" % (t.val, ", ".join(map(s, t.args)))
    if op == "add":
        c, ks = t.val
        parts = []
        for k, a in zip(ks, t.args):
            parts.append(("" if k == 1 else "-" if k == -1 else str(k) + "*") + s(a))
        if c != 0:
            parts.append(str(c))
        return "(" + " + ".join(parts) + ")"
    if op == "mul":
        return "*".join(s(a) + ("^%d" % e if e > 1 else "") for a, e in zip(t.args, t.val))
    if op == "div":
        return "(%s)/(%s)" % (s(t.args[0]), s(t.args[1]))
    if op == "rpow":
        return "(%s)^(%s)" % (s(t.args[0]), s(t.args[1]))
    if op == "eq0":
        return "%s == 0" % s(t.args[0])
    if op == "gt0":
        return "%s > 0" % s(t.args[0])
    if op == "ge0":
        return "%s >= 0" % s(t.args[0])
    if op == "sum":
        return "Sum[%s in %s..%s)(%s)" % (t.val.val, s(t.args[1]), s(t.args[2]), s(t.args[0]))
    if op == "ite":
        return "ite(%s, %s, %s)" % tuple(map(s, t.args))
    return "%s(%s)" % (op, ", ".join(map(s, t.args)))


# ---------------------------------------------------------------- numeric evaluation
class EvalError(Exception):
    pass


def evaluate(t, env, funcs, memo=None):
    """float evaluation. env: {name: value}; funcs: {fname: callable}"""
    import math
    if memo is None:
        memo = {}
    def ev(t, env, memo):
        r = memo.get(t.id)
        if r is not None:
            return r
        op = t.op
        if op == "c":
            r = (float(t.val) if t.sort == "R" else int(t.val)) if t.sort in "IR" else t.val
        elif op == "v":
            if t.val not in env:
                raise EvalError("no value for " + t.val)
            r = env[t.val]
        elif op == "app":
            f = funcs.get(t.val)
            if f is None:
                raise EvalError("no function " + t.val)
            r = f(*[ev(a, env, memo) for a in t.args])
        elif op == "add":
            r = float(t.val[0]) if t.sort == "R" else int(t.val[0])
            for k, a in zip(t.val[1], t.args):
                r = r + (float(k) if t.sort == "R" else int(k)) * ev(a, env, memo)
        elif op == "mul":
            r = 1
            for a, e in zip(t.args, t.val):
                r = r * ev(a, env, memo) ** e
        elif op == "div":
            n, d = ev(t.args[0], env, memo), ev(t.args[1], env, memo)
            r = n / d if d != 0 else (math.nan if n == 0 or n != n else math.copysign(math.inf, n))
        elif op == "rpow":
            b, e = ev(t.args[0], env, memo), ev(t.args[1], env, memo)
            r = b ** e if b >= 0 else math.nan
        elif op == "sqrt":
            x = ev(t.args[0], env, memo)
            r = math.sqrt(x) if x >= 0 else math.nan
        elif op == "abs":
            r = abs(ev(t.args[0], env, memo))
        elif op == "min":
            r = min(ev(t.args[0], env, memo), ev(t.args[1], env, memo))
        elif op == "max":
            r = max(ev(t.args[0], env, memo), ev(t.args[1], env, memo))
        elif op == "floor":
            r = math.floor(ev(t.args[0], env, memo))
        elif op == "idiv":
            r = ev(t.args[0], env, memo) // ev(t.args[1], env, memo)
        elif op == "imod":
            r = ev(t.args[0], env, memo) % ev(t.args[1], env, memo)
        elif op == "ite":
            r = ev(t.args[1] if ev(t.args[0], env, memo) else t.args[2], env, memo)
        elif op == "eq0":
            r = ev(t.args[0], env, memo) == 0
        elif op == "gt0":
            r = ev(t.args[0], env, memo) > 0
        elif op == "ge0":
            r = ev(t.args[0], env, memo) >= 0
        elif op == "not":
            r = not ev(t.args[0], env, memo)
        elif op == "and":
            r = all(ev(a, env, memo) for a in t.args)
        elif op == "or":
            r = any(ev(a, env, memo) for a in t.args)
        elif op in ("eqs", "iff"):
            r = ev(t.args[0], env, memo) == ev(t.args[1], env, memo)
        elif op == "sum":
            lo, hi = ev(t.args[1], env, memo), ev(t.args[2], env, memo)
            r = 0.0
            for i in range(lo, hi):
                e2 = dict(env)
                e2[t.val.val] = i
                r += ev(t.args[0], e2, {})
        else:
            raise EvalError(op)
        memo[t.id] = r
        return r
    return ev(t, env, memo)
