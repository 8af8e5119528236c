"""Rational-function normal forms over interned atoms: the equality decision procedure.

A term becomes  N / (D1^e1 * D2^e2 ...)  with N, Di polynomials over atoms.  Atoms are variables, function
applications, square roots, real powers, absolute values, conditionals and bounded sums; two atoms are identified
when their arguments are equal as rational functions (congruence).  `Norm.zero(t)` is a sound test for t == 0:
it answers True only if the numerator vanishes identically (all denominators assumed non-zero; definedness is a
separate obligation).
"""
from fractions import Fraction
from . import terms as T

F0, F1 = Fraction(0), Fraction(1)


class TooBig(Exception):
    pass


# ---- polynomials: dict monomial -> Fraction ; monomial = tuple of (atom index, exponent), sorted
def p_add(a, b, k=F1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, F0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def m_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    i = j = 0
    out = []
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            out.append((x[0], x[1] + y[1]))
            i += 1
            j += 1
        elif x[0] < y[0]:
            out.append(x)
            i += 1
        else:
            out.append(y)
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


LIMIT = 60000


def p_mul(a, b):
    if len(a) > len(b):
        a, b = b, a
    if len(a) * len(b) > 40 * LIMIT:
        raise TooBig()
    r = {}
    for ma, ca in a.items():
        for mb, cb in b.items():
            m = m_mul(ma, mb)
            v = r.get(m, F0) + ca * cb
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    if len(r) > LIMIT:
        raise TooBig()
    return r


def p_pow(a, n):
    r = {(): F1}
    for _ in range(n):
        r = p_mul(r, a)
    return r


def p_const(c):
    return {(): Fraction(c)} if c else {}


class RF:
    __slots__ = ("n", "d")

    def __init__(self, n, d=None):
        self.n = n
        self.d = d or {}


class Norm:
    """atoms: list of (kind, payload). kinds: 'leaf'(Term) 'sqrt'(RF) 'pow'(RF,RF) 'abs'(RF) 'ite' 'cond' 'app' 'sum' 'min' 'max' 'floor'"""

    pointwise = None

    def __init__(self, pos=None, sum_rules=(), rewrites=(), facts=None):
        self.atoms = []
        self.leaf = {}
        self.bykind = {}
        self.memo = {}
        self.polys = []          # interned denominators factors
        self.polyidx = {}
        self.pos = pos or (lambda t: False)   # Term -> is it known positive?
        self.sum_rules = list(sum_rules)      # callables(norm, SumInfo) -> Term or None
        self.rewrites = list(rewrites)        # callables(term) -> Term or None, applied to app terms
        self.sqmap = {}          # sqrt atom index -> radicand RF
        self.bound = 0
        self.condmemo = {}
        self.tmemo = {}
        self.depth = 0

    # -- interning
    def atom(self, kind, payload, eqtest):
        lst = self.bykind.setdefault(kind, [])
        for i in lst:
            if eqtest(self.atoms[i][1]):
                return i
        self.atoms.append((kind, payload))
        i = len(self.atoms) - 1
        lst.append(i)
        return i

    def leafatom(self, t):
        i = self.leaf.get(t.id)
        if i is None:
            self.atoms.append(("leaf", t))
            i = len(self.atoms) - 1
            self.leaf[t.id] = i
        return i

    def A(self, i):
        return RF({((i, 1),): F1})

    def internpoly(self, p):
        """p non-constant -> (constant factor, {factor index: exp})"""
        lead = min(p)
        k = p[lead]
        q = {m: c / k for m, c in p.items()}
        # monomial content
        d = {}
        common = None
        for m in q:
            mm = dict(m)
            if common is None:
                common = mm
            else:
                common = {a: min(e, mm.get(a, 0)) for a, e in common.items() if a in mm}
            if not common:
                break
        if common:
            for a, e in common.items():
                if e:
                    d[self._pi({((a, 1),): F1})] = e
            q2 = {}
            for m, c in q.items():
                q2[tuple((a, e - common.get(a, 0)) for a, e in m if e - common.get(a, 0))] = c
            q = q2
        if len(q) > 1 or (() not in q):
            i = self._pi(q)
            d[i] = d.get(i, 0) + 1
        else:
            k = k * q[()]
        return k, d

    def _pi(self, q):
        key = frozenset(q.items())
        i = self.polyidx.get(key)
        if i is None:
            self.polys.append(q)
            i = len(self.polys) - 1
            self.polyidx[key] = i
        return i

    # -- RF algebra
    def const(self, c):
        return RF(p_const(c))

    def radd(self, a, b, k=F1):
        if a.d == b.d:
            return self.red(RF(p_add(a.n, b.n, k), a.d)) if a.d else RF(p_add(a.n, b.n, k))
        d = dict(a.d)
        for f, e in b.d.items():
            if d.get(f, 0) < e:
                d[f] = e
        na, nb = a.n, b.n
        for f, e in d.items():
            ea, eb = e - a.d.get(f, 0), e - b.d.get(f, 0)
            if ea:
                na = p_mul(na, p_pow(self.polys[f], ea))
            if eb:
                nb = p_mul(nb, p_pow(self.polys[f], eb))
        return self.red(RF(self.reduce(p_add(na, nb, k)), d))

    def rscale(self, a, k):
        if k == 0:
            return RF({})
        return RF({m: c * k for m, c in a.n.items()}, a.d)

    def rmul(self, a, b):
        if not a.n or not b.n:
            return RF({})
        an, bn = a.n, b.n
        d = dict(a.d)
        for f, e in b.d.items():
            d[f] = d.get(f, 0) + e
        # cancel whole-numerator factors before expanding
        if d:
            an, k1 = self.cancel(an, d)
            bn, k2 = self.cancel(bn, d)
        return self.red(RF(self.reduce(p_mul(an, bn)), d))

    def cancel(self, n, d):
        if len(n) > 1:
            k, fs = self.internpoly(n)
            hit = False
            for f, e in list(fs.items()):
                c = min(e, d.get(f, 0))
                if c:
                    hit = True
                    d[f] -= c
                    fs[f] -= c
                    if not d[f]:
                        del d[f]
            if hit:
                n = p_const(k)
                for f, e in fs.items():
                    if e:
                        n = p_mul(n, p_pow(self.polys[f], e))
        return n, None

    def red(self, a):
        """cancel monomial denominators and zero"""
        if not a.n:
            return RF({})
        if not a.d:
            return a
        d = None
        n = a.n
        for f, e in a.d.items():
            q = self.polys[f]
            if len(q) == 1:
                (m, _), = q.items()
                at = m[0][0]
                mn = e
                for mm in n:
                    x = 0
                    for aa, ee in mm:
                        if aa == at:
                            x = ee
                            break
                    if x < mn:
                        mn = x
                        if not mn:
                            break
                if mn:
                    if d is None:
                        d = dict(a.d)
                    d[f] -= mn
                    if not d[f]:
                        del d[f]
                    n = {tuple((aa, ee - mn if aa == at else ee) for aa, ee in mm if not (aa == at and ee == mn)): c
                         for mm, c in n.items()}
        if d is None:
            d = a.d
        if d and len(n) > 1:
            # whole-polynomial cancellation
            lead = min(n)
            k = n[lead]
            key = frozenset((m, c / k) for m, c in n.items())
            i = self.polyidx.get(key)
            if i is not None and d.get(i):
                d = dict(d)
                d[i] -= 1
                if not d[i]:
                    del d[i]
                n = p_const(k)
        return RF(n, d)

    def rinv(self, a):
        if not a.n:
            return None
        if len(a.n) == 1 and () in a.n:
            n = p_const(1 / a.n[()])
            d = {}
        else:
            k, d = self.internpoly(a.n)
            n = p_const(1 / k)
        for f, e in a.d.items():
            # factors move to the numerator
            c = min(e, d.get(f, 0))
            if c:
                d[f] -= c
                if not d[f]:
                    del d[f]
            if e - c:
                n = p_mul(n, p_pow(self.polys[f], e - c))
        return self.red(RF(self.reduce(n), d))

    def rpow_int(self, a, n):
        if n < 0:
            a = self.rinv(a)
            n = -n
        r = self.const(1)
        for _ in range(n):
            r = self.rmul(r, a)
        return r

    def reduce(self, n):
        """apply s^2 = radicand for polynomial radicands"""
        if not self.sqmap:
            return n
        while True:
            hit = None
            for m in n:
                for a, e in m:
                    if e >= 2 and a in self.sqmap:
                        hit = a
                        break
                if hit is not None:
                    break
            if hit is None:
                return n
            rad = self.sqmap[hit]
            out = {}
            for m, c in n.items():
                e = 0
                for a, ee in m:
                    if a == hit:
                        e = ee
                if e >= 2:
                    m2 = tuple((a, ee if a != hit else ee % 2) for a, ee in m if a != hit or ee % 2)
                    q = p_mul({m2: c}, p_pow(rad, e // 2))
                    out = p_add(out, q)
                else:
                    out = p_add(out, {m: c})
            n = out

    def is_zero(self, rf):
        return not self.reduce(rf.n)

    def rsub_zero(self, a, b):
        if a is b:
            return True
        if a.d == b.d:
            return not p_add(a.n, b.n, -F1)
        return self.is_zero(self.radd(a, b, -F1))

    def cst(self, rf):
        """constant value or None"""
        if not rf.n:
            return F0
        if not rf.d and len(rf.n) == 1 and () in rf.n:
            return rf.n[()]
        return None

    # -- positivity of polynomials (syntactic): all coefficients positive and all atoms positive
    def atom_pos(self, i):
        kind, pl = self.atoms[i]
        if kind == "leaf":
            return self.pos(pl)
        if kind == "sqrt":
            return self.rf_pos(pl)
        if kind == "pow":
            return True
        if kind == "app":
            return self.pos(pl[2])
        if kind in ("ite",):
            return self.rf_pos(pl[1]) and self.rf_pos(pl[2])
        if kind == "max":
            return self.rf_pos(pl[0]) or self.rf_pos(pl[1])
        return False

    def poly_pos(self, p):
        if not p:
            return False
        for m, c in p.items():
            if c < 0:
                return False
            for a, e in m:
                if e % 2 and not self.atom_pos(a):
                    return False
        # need one strictly positive monomial
        for m, c in p.items():
            if all(self.atom_pos(a) for a, e in m):
                return True
        return False

    def rf_pos(self, rf):
        if not rf.n:
            return False
        if not self.poly_pos(rf.n):
            if not self.poly_pos_ext(rf.n):
                return False
        return all(e % 2 == 0 or self.poly_pos(self.polys[f]) or self.poly_pos_ext(self.polys[f])
                   for f, e in rf.d.items())

    def poly_pos_ext(self, p):
        """ask the positivity oracle about the whole polynomial"""
        t = self.poly_term(self.strip(p))
        return t is not None and self.pos(t)

    def strip(self, p):
        """without the positive atoms common to all monomials"""
        com = None
        if not p:
            return p
        for m in p:
            d = dict(m)
            com = d if com is None else {a: min(e, d[a]) for a, e in com.items() if a in d}
            if not com:
                return p
        com = {a: e for a, e in com.items() if self.atom_pos(a)}
        if not com:
            return p
        out = {}
        for m, c in p.items():
            out[tuple((a, e - com.get(a, 0)) for a, e in m if e != com.get(a, 0))] = c
        return out

    nn = None        # oracle: is this term known to be >= 0

    def rf_nonneg(self, rf):
        if not rf.n:
            return True
        if self.rf_pos(rf):
            return True
        if self.nn is None:
            return False
        if not all(e % 2 == 0 or self.poly_pos(self.polys[f]) or self.poly_pos_ext(self.polys[f]) for f, e in rf.d.items()):
            return False
        return self.nn(self.poly_term(self.strip(rf.n)))

    def literal(self, op, arg):
        """canonical form of arg > 0, arg >= 0, arg = 0 (denominators positive), or None"""
        rf = self.rf(arg)
        t = self.poly_term(self.strip(rf.n))
        if op == "eq0":
            return None if t is None else T.eq(t, T.const(0))
        # n/d > 0 iff n*d > 0
        for f, e in sorted(rf.d.items()):
            if e % 2 and not (self.poly_pos(self.polys[f]) or self.poly_pos_ext(self.polys[f])):
                q = self.poly_term(self.polys[f])
                if q is None or t is None:
                    return None
                t = T.mul(t, q)
        if t is None:
            return None
        return T.gt0(t) if op == "gt0" else T.ge0(t)

    # -- back to terms
    def atom_term(self, i):
        r = self.tmemo.get(i)
        if r is None:
            r = self.tmemo[i] = self._atom_term(i)
        return r

    def _atom_term(self, i):
        kind, pl = self.atoms[i]
        if kind == "leaf":
            return pl
        if kind == "sqrt":
            return T.sqrt(self.term(pl))
        if kind == "pow":
            return T.power(self.term(pl[0]), self.term(pl[1]))
        if kind == "abs":
            return T.abs_(self.term(pl))
        if kind in ("app", "sum", "idiv", "imod"):
            return pl[2]
        if kind == "ite":
            return T.ite(pl[0], self.term(pl[1]), self.term(pl[2]))
        if kind == "min":
            return T.min_(self.term(pl[0]), self.term(pl[1]))
        if kind == "max":
            return T.max_(self.term(pl[0]), self.term(pl[1]))
        if kind == "floor":
            return T.floor_(self.term(pl))
        raise ValueError(kind)

    def poly_term(self, p):
        r = T.const(F0)
        for m, c in sorted(p.items()):
            t = T.const(F1)
            for a, e in m:
                t = T.mul(t, T.power(self.atom_term(a), T.const(e)))
            r = T.add(r, T.scale(c, t))
        return T.toR(r)

    def term(self, rf):
        n = self.poly_term(rf.n)
        if not rf.d:
            return n
        d = T.const(F1)
        for f, e in sorted(rf.d.items()):
            d = T.mul(d, T.power(self.poly_term(self.polys[f]), T.const(e)))
        return T.div(n, d)

    # -- square roots and powers
    def sqrt_poly(self, p):
        """sqrt of a polynomial (value assumed >= 0) -> RF"""
        k, fs = self.internpoly(p) if not (len(p) == 1 and () in p) else (p[()], {})
        out = self.const(1)
        rest = {}
        for f, e in fs.items():
            q = self.polys[f]
            if self.poly_pos(q) or self.poly_pos_ext(q):
                if e // 2:
                    out = self.rmul(out, RF(p_pow(q, e // 2)))
                if e % 2:
                    r = self.perfect(q)
                    if r is not None:
                        out = self.rmul(out, r)
                    else:
                        rest[f] = 1
            else:
                if e % 2 == 0:
                    out = self.rmul(out, self.rabs(RF(p_pow(q, e // 2))))
                else:
                    if e // 2:
                        out = self.rmul(out, self.rabs(RF(p_pow(q, e // 2))))
                    r = self.perfect(q)
                    if r is not None:
                        out = self.rmul(out, r)
                    else:
                        rest[f] = 1
        # constant
        from math import isqrt
        if k > 0:
            n, d = k.numerator, k.denominator
            v = n * d
            # extract square part
            s, sq = v, 1
            i = 2
            while i * i <= s and i < 2000:
                while s % (i * i) == 0:
                    s //= i * i
                    sq *= i
                i += 1
            if isqrt(s) ** 2 == s:
                sq *= isqrt(s)
                s = 1
            out = self.rscale(out, Fraction(sq, d))
            kk = Fraction(s)
        else:
            kk = k
        if not rest and kk == 1:
            return out
        # separable positive factors get their own root; the rest is kept together
        together = p_const(kk)
        for f in rest:
            q = self.polys[f]
            if self.poly_pos(q) or self.poly_pos_ext(q):
                out = self.rmul(out, self.sqrt_atom(q))
            else:
                together = p_mul(together, q)
        if together != {(): F1}:
            if len(together) == 1 and () in together and together[()] > 0:
                out = self.rmul(out, self.sqrt_atom(together))
            else:
                out = self.rmul(out, self.sqrt_atom(together))
        return out

    def perfect(self, q):
        """polynomial perfect squares (a+b)^2 -- small cases only"""
        if len(q) != 3:
            return None
        sq = [(m, c) for m, c in q.items() if all(e % 2 == 0 for _, e in m)]
        if len(sq) < 2:
            return None
        from math import isqrt
        for i in range(len(sq)):
            for j in range(i):
                (m1, c1), (m2, c2) = sq[i], sq[j]
                r = []
                ok = True
                for m, c in ((m1, c1), (m2, c2)):
                    if c < 0 or isqrt(c.numerator) ** 2 != c.numerator or isqrt(c.denominator) ** 2 != c.denominator:
                        ok = False
                        break
                    r.append({tuple((a, e // 2) for a, e in m): Fraction(isqrt(c.numerator), isqrt(c.denominator))})
                if not ok:
                    continue
                for sg in (F1, -F1):
                    s = p_add(r[0], r[1], sg)
                    if p_mul(s, s) == q:
                        return self.rabs(RF(s))
        return None

    def sqrt_atom(self, p):
        key = frozenset(p.items())
        for i in self.bykind.get("sqrt", []):
            if frozenset(self.atoms[i][1].n.items()) == key:
                return self.A(i)
        self.atoms.append(("sqrt", RF(dict(p))))
        i = len(self.atoms) - 1
        self.bykind.setdefault("sqrt", []).append(i)
        self.sqmap[i] = dict(p)
        return self.A(i)

    def rsqrt(self, rf):
        c = self.cst(rf)
        if c == 0:
            return RF({})
        num = rf.n
        den = p_const(1)
        dd = self.const(1)
        for f, e in rf.d.items():
            q = self.polys[f]
            # sqrt(N/q^e) = sqrt(N*q^(e%2)) / |q|^ceil(e/2)
            if e % 2:
                num = p_mul(num, q)
            h = (e + 1) // 2
            base = RF(q) if (self.poly_pos(q) or self.poly_pos_ext(q)) else self.rabs(RF(q))
            dd = self.rmul(dd, self.rpow_int(base, h))
        num = self.reduce(num)
        if not num:
            return RF({})
        return self.rmul(self.sqrt_poly(num), self.rinv(dd))

    def rabs(self, rf):
        c = self.cst(rf)
        if c is not None:
            return self.const(abs(c))
        if self.rf_pos(rf):
            return rf
        neg = self.rscale(rf, -F1)
        if self.rf_pos(neg):
            return neg
        if self.rf_nonneg(rf):
            return rf
        if self.rf_nonneg(neg):
            return neg
        # |N|/|D|, constant and positive factors out
        out = self.const(1)
        for f, e in rf.d.items():
            q = self.polys[f]
            b = RF(q) if e % 2 == 0 or self.poly_pos(q) or self.poly_pos_ext(q) else self.rabs(RF(q))
            out = self.rmul(out, self.rpow_int(self.rinv(b), e))
        k, fs = self.internpoly(rf.n)
        out = self.rscale(out, abs(k))
        for f, e in fs.items():
            q = self.polys[f]
            if e % 2 == 0 or self.poly_pos(q) or self.poly_pos_ext(q):
                b = RF(q)
            else:
                i = self.atom("abs", RF(q), lambda pl: pl.n == q or pl.n == {m: -c for m, c in q.items()})
                b = self.A(i)
            out = self.rmul(out, self.rpow_int(b, e))
        return out

    def rpow(self, base, ex):
        """real power; algebra x^a x^b only applied through atoms of equal base (bases assumed positive)"""
        c = self.cst(ex)
        if c is not None and c.denominator == 1 and abs(c) <= 12:
            if c >= 0 or base.n:
                return self.rpow_int(base, int(c))
        b = self.cst(base)
        if b == 1:
            return self.const(1)
        # (x^a)^b = x^(ab) when the base is a single positive power atom
        at = self.single(base)
        if at is not None and self.atoms[at][0] == "pow":
            b0, e0 = self.atoms[at][1]
            return self.rpow(b0, self.rmul(e0, ex))
        # split products / quotients of positive factors
        if self.rf_pos(base):
            parts = self.pos_factors(base)
            if parts is not None and len(parts) > 1:
                r = self.const(1)
                for q, e in parts:
                    r = self.rmul(r, self.rpow(q, self.rscale(ex, Fraction(e))))
                return r
            if parts is not None and len(parts) == 1 and parts[0][1] != 1:
                return self.rpow(parts[0][0], self.rscale(ex, Fraction(parts[0][1])))
        parts = self.split_exponent(ex)
        if parts is not None:
            r = self.const(1)
            for e, k in parts:
                if k == "int":
                    r = self.rmul(r, self.rpow_int(base, e))
                else:
                    j = self.atom("pow", (base, e), lambda pl: self.rsub_zero(pl[0], base) and self.rsub_zero(pl[1], e))
                    r = self.rmul(r, self.rpow_int(self.A(j), k))
            return r
        i = self.atom("pow", (base, ex), lambda pl: self.rsub_zero(pl[0], base) and self.rsub_zero(pl[1], ex))
        return self.A(i)

    def split_exponent(self, ex):
        """exponent as a sum of an integer and integer multiples of monomial/denominator; None when it is one such term"""
        n, quo = ex.n, {}
        if len(ex.d) == 1:
            (f, e), = ex.d.items()
            D = self.polys[f]
            if e == 1:
                xs = [m[0][0] for m in D if len(m) == 1 and m[0][1] == 1]
                xs = [x for x in xs if not any(x == a for m in D if m != ((x, 1),) for a, _ in m)]
                if xs:
                    x = max(xs)
                    c = D[((x, 1),)]
                    while True:
                        hit = [m for m in n if any(a == x for a, _ in m)]
                        if not hit:
                            break
                        m = hit[0]
                        m1 = tuple((a, ee - (a == x)) for a, ee in m if a != x or ee > 1)
                        k = n[m] / c
                        quo = p_add(quo, {m1: k})
                        n = p_add(n, p_mul({m1: -k}, D))
        terms = [(m, c, {}) for m, c in quo.items()] + [(m, c, ex.d) for m, c in n.items()]
        out = []
        for m, c, d in terms:
            if abs(c.numerator) > 12:
                return None
            if m == () and not d and c.denominator == 1:
                out.append((int(c), "int"))
                continue
            out.append((RF({m: Fraction(1, c.denominator)}, dict(d)), c.numerator))
        if len(out) == 1 and out[0][1] == 1:
            return None
        return out

    def pos_factors(self, rf):
        out = []
        if len(rf.n) == 1 and () in rf.n:
            k, fs = rf.n[()], {}
        else:
            k, fs = self.internpoly(rf.n)
        if k != 1:
            if k < 0:
                return None
            out.append((self.const(k), 1))
        for f, e in fs.items():
            out.append((RF(self.polys[f]), e))
        for f, e in rf.d.items():
            out.append((RF(self.polys[f]), -e))
        for q, e in out:
            if not self.rf_pos(q):
                return None
        # flatten factors that are pow atoms
        return out

    def single(self, rf):
        if rf.d or len(rf.n) != 1:
            return None
        (m, c), = rf.n.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
        return None

    def merge_pows(self, rf):
        """combine x^a * x^b in monomials"""
        pows = self.bykind.get("pow", [])
        if not pows:
            return rf
        def mono(m):
            groups = []
            rest = []
            changed = False
            for a, e in m:
                if self.atoms[a][0] == "pow":
                    b0, e0 = self.atoms[a][1]
                    ee = self.rscale(e0, Fraction(e))
                    for g in groups:
                        if self.rsub_zero(g[0], b0):
                            g[1] = self.radd(g[1], ee)
                            changed = True
                            break
                    else:
                        groups.append([b0, ee])
                        if e != 1:
                            changed = True
                else:
                    rest.append((a, e))
            # bare powers of the base itself
            for g in groups:
                at = self.single(g[0])
                if at is not None:
                    for q, (a, e) in enumerate(rest):
                        if a == at:
                            g[1] = self.radd(g[1], self.const(e))
                            rest.pop(q)
                            changed = True
                            break
            if not changed:
                return None
            r = RF({tuple(rest): F1})
            for b0, ee in groups:
                r = self.rmul(r, self.rpow(b0, ee))
            return r
        if rf.d:
            return rf
        out = RF({})
        ch = False
        for m, c in rf.n.items():
            r = mono(m)
            if r is None:
                out = self.radd(out, RF({m: c}))
            else:
                ch = True
                out = self.radd(out, self.rscale(r, c))
        return out if ch else rf

    # -- main conversion
    def rf(self, t):
        r = self.memo.get(t.id)
        if r is None:
            r = self._rf(t)
            self.memo[t.id] = r
        return r

    def _rf(self, t):
        op = t.op
        if op == "c":
            if t.sort == "B":
                return self.const(1 if t.val else 0)
            return self.const(t.val)
        if op == "v":
            return self.A(self.leafatom(t))
        if op == "app":
            for rw in self.rewrites:
                r = rw(t)
                if r is not None and r is not t:
                    return self.rf(r)
            return self.rapp(t)
        if op == "add":
            r = self.const(t.val[0])
            for k, a in zip(t.val[1], t.args):
                r = self.radd(r, self.rf(a), k)
            return r
        if op == "mul":
            r = self.const(1)
            for a, e in zip(t.args, t.val):
                r = self.rmul(r, self.rpow_int(self.rf(a), e))
            return self.merge_pows(r)
        if op == "div":
            d = self.rf(t.args[1])
            if not d.n:
                return self.A(self.leafatom(t))
            return self.rmul(self.rf(t.args[0]), self.rinv(d))
        if op == "sqrt":
            return self.rsqrt(self.rf(t.args[0]))
        if op == "rpow":
            return self.rpow(self.rf(t.args[0]), self.rf(t.args[1]))
        if op == "abs":
            return self.rabs(self.rf(t.args[0]))
        if op in ("min", "max"):
            a, b = self.rf(t.args[0]), self.rf(t.args[1])
            d = self.radd(a, b, -F1)
            if not d.n:
                return a
            if self.rf_pos(d):
                return a if op == "max" else b
            if self.rf_pos(self.rscale(d, -F1)):
                return b if op == "max" else a
            # max(a,b) = (a+b+|a-b|)/2 : canonical and linear
            s = self.radd(a, b)
            ab = self.rabs(d)
            return self.rscale(self.radd(s, ab, F1 if op == "max" else -F1), Fraction(1, 2))
        if op == "floor":
            a = self.rf(t.args[0])
            i = self.atom("floor", a, lambda pl: self.rsub_zero(pl, a))
            return self.A(i)
        if op in ("idiv", "imod"):
            a, b = self.rf(t.args[0]), self.rf(t.args[1])
            i = self.atom(op, (a, b, t), lambda pl: self.rsub_zero(pl[0], a) and self.rsub_zero(pl[1], b))
            return self.A(i)
        if op == "ite":
            c = self.cond(t.args[0])
            a, b = self.rf(t.args[1]), self.rf(t.args[2])
            if c is T.TRUE:
                return a
            if c is T.FALSE:
                return b
            if self.rsub_zero(a, b):
                return a
            i = self.atom("ite", (c, a, b, self.condkey(c)),
                          lambda pl: self.same_cond(pl[0], c) and self.rsub_zero(pl[1], a) and self.rsub_zero(pl[2], b))
            return self.A(i)
        if op == "sum":
            return self.rsum(t)
        return self.A(self.leafatom(t))

    def rapp(self, t):
        f = t.val
        # the arguments of every registered application are in normal form already (no mutual recursion while comparing)
        for x in t.args:
            if x.sort == "B":
                self.cond(x)
            elif x.sort != "S":
                self.rf(x)

        def same(pl):
            if pl[0] != f or len(pl[1]) != len(t.args):
                return False
            return all(self.same_arg(x, y) for x, y in zip(pl[1], t.args))
        i = self.atom("app", (f, t.args, t), same)
        return self.A(i)

    def same_arg(self, x, y):
        if x is y:
            return True
        if x.sort == "S" or y.sort == "S":
            return False
        if x.sort == "B":
            return y.sort == "B" and self.same_cond(self.cond(x), self.cond(y))
        return self.rsub_zero(self.rf(x), self.rf(y))

    # conditions
    def cond(self, c):
        """simplify a condition: decide comparisons of constants"""
        if c.op == "c":
            return c
        if c.op in ("gt0", "ge0", "eq0"):
            v = self.cst(self.rf(c.args[0]))
            if v is not None:
                return T.const({"gt0": v > 0, "ge0": v >= 0, "eq0": v == 0}[c.op])
            if c.op in ("gt0", "ge0"):
                r = self.rf(c.args[0])
                if self.rf_pos(r):
                    return T.TRUE
                neg = self.rscale(r, -F1)
                if self.rf_pos(neg):
                    return T.FALSE
                if c.op == "ge0" and self.rf_nonneg(r):
                    return T.TRUE
                if c.op == "gt0" and self.rf_nonneg(neg):
                    return T.FALSE
            return c
        if c.op in ("and", "or", "not"):
            f = {"and": T.and_, "or": T.or_, "not": T.not_}[c.op]
            return f(*[self.cond(a) for a in c.args])
        return c

    def condkey(self, c):
        return None

    def same_cond(self, a, b):
        if a is b:
            return True
        if a.op != b.op:
            return False
        k = (a.id, b.id)
        r = self.condmemo.get(k)
        if r is not None:
            return r
        r = False
        if a.op in ("gt0", "ge0"):
            ra, rb = self.rf(a.args[0]), self.rf(b.args[0])
            r = self.rsub_zero(ra, rb)
            if not r and rb.n and ra.n and len(ra.n) * len(rb.n) < 3000:
                # equal up to a positive factor
                q = self.rmul(ra, self.rinv(rb))
                r = self.rf_pos(q)
        elif a.op == "eq0":
            ra, rb = self.rf(a.args[0]), self.rf(b.args[0])
            r = self.rsub_zero(ra, rb) or self.is_zero(self.radd(ra, rb))
        elif a.op in ("and", "or"):
            r = len(a.args) == len(b.args) and all(any(self.same_cond(x, y) for y in b.args) for x in a.args) \
                and all(any(self.same_cond(x, y) for x in a.args) for y in b.args)
        elif a.op == "not":
            r = self.same_cond(a.args[0], b.args[0])
        elif a.op in ("eqs", "iff"):
            r = False
        elif a.op == "app":
            r = a.val == b.val and len(a.args) == len(b.args) and all(self.same_arg(x, y) for x, y in zip(a.args, b.args))
        self.condmemo[k] = r
        return r

    # bounded sums: linear, constant factors out; nested sums flattened into multi-sums
    def rsum(self, t):
        # collect binders
        return self.msum([(t.val, t.args[1], t.args[2])], t.args[0])

    def msum(self, binders, body):
        # rename binders to canonical variables
        m = {}
        nb = []
        for (v, lo, hi) in binders:
            self.bound += 1
            nv = T.var("#b%d" % self.bound, "I")
            m[v] = nv
            nb.append((nv, T.subst(lo, m) if m else lo, T.subst(hi, m) if m else hi))
        body = T.subst(body, m)
        bvars = [b[0] for b in nb]
        rf = self.rf(body)
        # denominators must not depend on bound variables, else keep in atom
        dep = lambda atom: any(b in self.atom_vars(atom) for b in bvars)
        poly_dep = lambda p: any(dep(a) for mono in p for a, _ in mono)
        dout = {f: e for f, e in rf.d.items() if not poly_dep(self.polys[f])}
        din = {f: e for f, e in rf.d.items() if f not in dout}
        res = RF({})
        for mono, c in rf.n.items():
            outer = tuple((a, e) for a, e in mono if not dep(a))
            inner = tuple((a, e) for a, e in mono if dep(a))
            s = self.sum_mono(nb, inner, din)
            res = self.radd(res, self.rmul(RF({outer: c}), s))
        if dout:
            res = self.rmul(res, self.red(RF(p_const(1), dout)))
        return res

    def atom_vars(self, i):
        kind, pl = self.atoms[i]
        if kind in ("leaf",):
            return T.vars_of(pl)
        if kind in ("app", "sum"):
            return T.vars_of(pl[2])
        return T.vars_of(self.atom_term(i)) if kind not in ("idiv", "imod") else T.vars_of(pl[2])

    def sum_mono(self, binders, inner, din):
        # splice in inner multi-sums (they appear as 'sum' atoms to power 1)
        facs = []
        bs = list(binders)
        for a, e in inner:
            kind, pl = self.atoms[a]
            if kind == "sum":
                for _ in range(e):
                    mm = {}
                    for (v, lo, hi) in pl[0]:
                        self.bound += 1
                        nv = T.var("#b%d" % self.bound, "I")
                        mm[v] = nv
                        bs.append((nv, T.subst(lo, mm), T.subst(hi, mm)))
                    for x in pl[1]:
                        facs.append(T.subst(x, mm))
            else:
                facs.append(T.power(self.atom_term(a), T.const(e)) if e != 1 else self.atom_term(a))
        for f, e in din.items():
            facs.append(T.div(T.const(F1), T.power(self.poly_term(self.polys[f]), T.const(e))))
        return self.multisum(bs, facs)

    def multisum(self, bs, facs):
        # drop binders that no factor depends on: multiply by (hi-lo) [assumes hi >= lo]
        used = set()
        for x in facs:
            used |= T.vars_of(x)
        for b in bs:
            used |= T.vars_of(b[1]) | T.vars_of(b[2])
        for idx, (v, lo, hi) in enumerate(bs):
            if v not in used:
                rest = bs[:idx] + bs[idx + 1:]
                cnt = T.toR(T.max_(T.sub(hi, lo), T.const(0)))
                inner = self.multisum(rest, facs) if rest else self.prod(facs)
                return self.rmul(self.rf(cnt), inner)
        for rule in self.sum_rules:
            r = rule(self, bs, facs)
            if r is not None:
                return r if isinstance(r, RF) else self.rf(r)
        # separate independent groups
        groups = self.split_groups(bs, facs)
        if len(groups) > 1:
            r = self.const(1)
            for gb, gf in groups:
                r = self.rmul(r, self.multisum(gb, gf) if gb else self.prod(gf))
            return r
        return self.sum_atom(bs, facs)

    def prod(self, facs):
        r = self.const(1)
        for x in facs:
            r = self.rmul(r, self.rf(x))
        return r

    def split_groups(self, bs, facs):
        bset = {b[0] for b in bs}
        comp = {b[0]: {b[0]} for b in bs}
        def union(vs):
            vs = [v for v in vs if v in bset]
            if not vs:
                return
            s = set()
            for v in vs:
                s |= comp[v]
            for v in s:
                comp[v] = s
        for x in facs:
            union(T.vars_of(x))
        for (v, lo, hi) in bs:
            union({v} | T.vars_of(lo) | T.vars_of(hi))
        seen = []
        out = []
        for b in bs:
            s = comp[b[0]]
            if any(s is q for q in seen):
                continue
            seen.append(s)
            out.append(([x for x in bs if x[0] in s], [f for f in facs if T.vars_of(f) & s]))
        free = [f for f in facs if not (T.vars_of(f) & bset)]
        if free:
            out.append(([], free))
        return out

    def sum_atom(self, bs, facs):
        import itertools
        def same(pl):
            pb, pf = pl[0], pl[1]
            if len(pb) != len(bs) or len(pf) != len(facs):
                return False
            for perm in itertools.permutations(range(len(bs))):
                mm = {pb[i][0]: bs[perm[i]][0] for i in range(len(bs))}
                if not all(self.same_arg(T.subst(pb[i][1], mm), bs[perm[i]][1]) and
                           self.same_arg(T.subst(pb[i][2], mm), bs[perm[i]][2]) for i in range(len(bs))):
                    continue
                # factor multisets must match
                todo = list(facs)
                ok = True
                for x in pf:
                    y = T.subst(x, mm)
                    for q, z in enumerate(todo):
                        if y is z or self.same_arg(y, z):
                            todo.pop(q)
                            break
                    else:
                        ok = False
                        break
                if ok:
                    return True
                if self.pointwise is not None:
                    fa, fb = T.const(F1), T.const(F1)
                    for x in pf:
                        fa = T.mul(fa, T.subst(x, mm))
                    for x in facs:
                        fb = T.mul(fb, x)
                    if self.pointwise(bs, fa, fb):
                        return True
            return False
        body = T.const(F1)
        for x in facs:
            body = T.mul(body, x)
        tm = body
        for (v, lo, hi) in reversed(bs):
            tm = T.sum_(v, lo, hi, tm)
        i = self.atom("sum", (bs, facs, tm), same)
        return self.A(i)

    # -- public
    def zero(self, t):
        r = self.rf(t)
        if not r.n:
            return True
        r2 = self.merge_pows(RF(r.n))
        return not self.reduce(r2.n)

    def equal(self, a, b):
        return self.zero(T.sub(a, b))
