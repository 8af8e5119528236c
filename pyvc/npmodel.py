"""numpy, the Python builtins and the standard-library corners used by the code, as contracts over terms.

Each entry states what the dependency is assumed to return (an assumed contract: the dependency's own source is not
verified).  Arrays are functions from indices to terms, so a statement about one generic index is about every index.
"""
import ast
import re as _re
import math as _math
import random as _random
import string as _string
from fractions import Fraction
from . import terms as T
from . import values as V
from .values import *

ONE, ZERO = T.const(1), T.const(0)
RZ = T.const(Fraction(0))


def simp(t):
    from .interp import simp_num
    return simp_num(t)


def cdim(s):
    """constant dimension or None"""
    s = T.const(s)
    return int(s.val) if s.op == "c" else None


class DType:
    def __init__(self, k, name):
        self.k, self.name = k, name

    def py_getattr(self, n):
        if n == "kind":
            return self.k
        if n == "type":
            return self
        raise Unsupported("dtype." + n)


def dt_of(d):
    if d is None:
        return "f"
    if isinstance(d, str):
        return "i" if d.startswith("int") or d in ("i", "i4", "i8") else "b" if d.startswith("bool") or d == "b" else "f"
    if isinstance(d, DType):
        return d.k
    if isinstance(d, Builtin):
        return {"int": "i", "bool": "b"}.get(d.name, "f")
    raise Unsupported("dtype %r" % (d,))


def dt_join(*ds):
    return "f" if "f" in ds else "i" if "i" in ds else "b"


def tdt(t):
    return {"I": "i", "R": "f", "B": "b"}[t.sort]


class LegSeries:
    """Legendre series: coefficient terms, domain and window (pairs of terms)"""
    def __init__(self, np_, coef, domain=None, window=None):
        self.np = np_
        self.coef = [T.toR(T.const(c)) for c in coef]
        self.domain = domain or (T.const(Fraction(-1)), T.const(Fraction(1)))
        self.window = window or (T.const(Fraction(-1)), T.const(Fraction(1)))

    def std(self):
        m1, p1 = T.const(Fraction(-1)), T.const(Fraction(1))
        return self.domain == (m1, p1) and self.window == (m1, p1)

    def trim(self):
        c = list(self.coef)
        while len(c) > 1 and c[-1].op == "c" and c[-1].val == 0:
            c.pop()
        return c

    def maparg(self, x):
        d0, d1 = self.domain
        w0, w1 = self.window
        if (d0, d1) == (w0, w1):
            return x
        scl = T.div(T.sub(w1, w0), T.sub(d1, d0))
        off = T.div(T.sub(T.mul(d1, w0), T.mul(d0, w1)), T.sub(d1, d0))
        return T.add(off, T.mul(scl, x))

    def slope(self):
        d0, d1 = self.domain
        w0, w1 = self.window
        return T.div(T.sub(w1, w0), T.sub(d1, d0))

    def val(self, x):
        return legval_term(self.coef, self.maparg(x))

    def py_call(self, x):
        return self.np.elementwise(lambda t: self.val(T.toR(T.b2i(t))), x)

    def same_space(self, o):
        if (self.domain, self.window) != (o.domain, o.window):
            raise Unsupported("Legendre series with different domains")

    def mk(self, coef):
        return LegSeries(self.np, coef, self.domain, self.window)

    def py_binop(self, op, other, swapped):
        I = self.np.I
        if isinstance(other, SymLeg) and op == "Mult":
            return SymProd(self.np, [self, other])
        if isinstance(other, LegSeries):
            self.same_space(other)
            a, b = (other, self) if swapped else (self, other)
            if op == "Add":
                return self.mk(padd(a.coef, b.coef))
            if op == "Sub":
                return self.mk(padd(a.coef, [-c for c in b.coef]))
            if op == "Mult":
                return self.mk(poly2leg(pmul(leg2poly(a.coef), leg2poly(b.coef))))
            raise Unsupported("Legendre " + op)
        if isinstance(other, (int, bool)) or isinstance(other, T.Term):
            t = T.toR(I.num(other))
            if op == "Mult":
                return self.mk([T.mul(c, t) for c in self.coef])
            if op == "Div" and not swapped:
                return self.mk([T.div(c, t) for c in self.coef])
            if op in ("Add", "Sub"):
                me = self.coef if not (op == "Sub" and swapped) else [-c for c in self.coef]
                x = t if not (op == "Sub" and not swapped) else -t
                return self.mk([T.add(me[0], x)] + list(me[1:]))
            if op == "Pow" and not swapped and isinstance(other, int) and other >= 0:
                p = [T.const(Fraction(1))]
                base = leg2poly(self.coef)
                for _ in range(other):
                    p = pmul(p, base)
                return self.mk(poly2leg(p))
        raise Unsupported("Legendre " + op)

    def py_neg(self):
        return self.mk([-c for c in self.coef])

    def py_getattr(self, n):
        np_ = self.np
        if n == "coef":
            return np_.vec(self.coef)
        if n == "domain":
            return np_.vec(self.domain)
        if n == "window":
            return np_.vec(self.window)
        if n == "deriv":
            def deriv(m=1):
                p = leg2poly(self.coef)
                s = self.slope()
                for _ in range(np_.I.cint(m)):
                    p = [T.mul(T.scale(Fraction(i), p[i]), s) for i in range(1, len(p))] or [RZ]
                return self.mk(poly2leg(p))
            return Builtin("deriv", deriv)
        if n == "integ":
            def integ(m=1, k=None, lbnd=None):
                if m != 1 or k not in (None,) and not (isinstance(k, PyList) and not k.items):
                    raise Unsupported("integ arguments")
                p = leg2poly(self.coef)
                s = self.slope()
                q = [RZ] + [T.div(T.scale(Fraction(1, i + 1), c), s) for i, c in enumerate(p)]
                # numpy: integration constant such that the integral vanishes at lbnd (window variable 0 -> mapped)
                if lbnd is None:
                    lb = RZ
                else:
                    lb = self.maparg(T.toR(np_.I.num(lbnd)))
                if lbnd is not None:
                    q[0] = T.sub(q[0], poly_at(q, lb))
                return self.mk(poly2leg(q))
            return Builtin("integ", integ)
        if n == "degree":
            return Builtin("degree", lambda: len(self.coef) - 1)
        if n == "copy":
            return Builtin("copy", lambda: self.mk(self.coef))
        if n == "trim":
            return Builtin("trim", lambda tol=0: self.mk(self.trim()))
        if n == "convert":
            def convert(domain=None, kind=None, window=None):
                return np_.leg_convert(self, domain, window)
            return Builtin("convert", convert)
        raise Unsupported("Legendre attribute " + n)


class SymLeg:
    """L.basis(n) and its derivative for a symbolic degree n"""
    def __init__(self, np_, n, der=0):
        self.np, self.n, self.der = np_, n, der

    def fn(self, x):
        return T.app("P" if self.der == 0 else "dP" if self.der == 1 else "d%dP" % self.der, self.n, x)

    def py_call(self, x):
        return self.np.elementwise(lambda t: self.fn(T.toR(T.b2i(t))), x)

    def py_getattr(self, n):
        if n == "coef":
            return SymCoef(self)
        if n == "deriv":
            return Builtin("deriv", lambda m=1: SymLeg(self.np, self.n, self.der + self.np.I.cint(m)))
        if n == "degree":
            return Builtin("degree", lambda: self.n)
        raise Unsupported("Legendre attribute %s at symbolic degree" % n)

    def py_binop(self, op, o, swapped):
        if op == "Mult" and isinstance(o, (SymLeg, LegSeries)):
            return SymProd(self.np, [self, o])
        raise Unsupported("operation %s on a Legendre polynomial of symbolic degree" % op)


class SymProd:
    """product of two Legendre polynomials (or derivatives), or an antiderivative of it"""
    def __init__(self, np_, fs, integ=False):
        self.np, self.integ = np_, integ
        self.fs = [self.factor(f) for f in fs]

    def factor(self, f):
        if isinstance(f, SymLeg):
            return f
        c = f.trim() if isinstance(f, LegSeries) else None
        if c is not None and f.std() and all(x.op == "c" and x.val == 0 for x in c[:-1]) and c[-1].op == "c" and c[-1].val == 1:
            return SymLeg(self.np, T.const(len(c) - 1))
        raise Unsupported("product of a general series with a polynomial of symbolic degree")

    def fn(self, x):
        if not self.integ:
            return T.mul(self.fs[0].fn(x), self.fs[1].fn(x))
        a, b = sorted(self.fs, key=lambda f: (-f.der, f.n.id))
        return T.app("intP%dP%d" % (a.der, b.der), a.n, b.n, x)

    def py_call(self, x):
        return self.np.elementwise(lambda t: self.fn(T.toR(T.b2i(t))), x)

    def py_getattr(self, n):
        if n == "integ" and not self.integ:
            def integ(m=1, k=None, lbnd=None):
                if m != 1 or k is not None or lbnd is not None:
                    raise Unsupported("options of integ")
                return SymProd(self.np, self.fs, True)
            return Builtin("integ", integ)
        raise Unsupported("attribute %s of a product of Legendre polynomials" % n)


class SymCoef:
    def __init__(self, s):
        self.s = s


# polynomials over terms -----------------------------------------------------------------------
def padd(a, b):
    n = max(len(a), len(b))
    return [T.add(a[i] if i < len(a) else RZ, b[i] if i < len(b) else RZ) for i in range(n)]


def pmul(a, b):
    r = [RZ] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            r[i + j] = T.add(r[i + j], T.mul(x, y))
    return r


_legp = {0: [Fraction(1)], 1: [Fraction(0), Fraction(1)]}


def leg_mono(n):
    """monomial coefficients of P_n"""
    if n not in _legp:
        a, b = leg_mono(n - 1), leg_mono(n - 2)
        r = [Fraction(0)] * (n + 1)
        for i, c in enumerate(a):
            r[i + 1] += Fraction(2 * n - 1, n) * c
        for i, c in enumerate(b):
            r[i] -= Fraction(n - 1, n) * c
        _legp[n] = r
    return _legp[n]


def leg2poly(c):
    r = [RZ] * max(1, len(c))
    for n, x in enumerate(c):
        for i, k in enumerate(leg_mono(n)):
            if k:
                r[i] = T.add(r[i], T.scale(k, x))
    return r


def poly2leg(p):
    p = list(p)
    c = [RZ] * len(p)
    for n in range(len(p) - 1, -1, -1):
        m = leg_mono(n)
        x = T.scale(Fraction(1) / m[n], p[n])
        c[n] = x
        for i, k in enumerate(m):
            if k:
                p[i] = T.sub(p[i], T.scale(k, x))
    return c


def poly_at(p, x):
    r = RZ
    for c in reversed(p):
        r = T.add(T.mul(r, x), c)
    return r


def legval_term(coef, x):
    return poly_at(leg2poly([T.toR(T.const(c)) for c in coef]), x)


# canonical bound variables for extensional tokens
def canon(n, tag="c"):
    return T.var("%s°%d" % (tag, n), "I")


def token(fn, ndim, depth=0):
    """body of an array function at canonical indices"""
    while True:
        vs = tuple(canon(depth * 8 + i) for i in range(ndim))
        b = fn(vs)
        break
    return b


class NP:
    def __init__(self, I):
        self.I = I
        self.mods = {}
        self.main = None

    # ------------------------------------------------------------------ construction
    def vec(self, items, dtype="f"):
        items = [T.const(x) for x in items]
        if dtype == "f":
            items = [T.toR(x) for x in items]
        return self.table(items, (len(items),), dtype)

    def table(self, flat, shape, dtype="f"):
        """array with concrete shape from a flat list of terms"""
        flat = list(flat)
        dims = [int(x) for x in shape]

        def fn(idx):
            pos = ZERO
            for i, d in zip(idx, dims):
                pos = T.add(T.scale(Fraction(d), pos), T.const(i))
            if pos.op == "c":
                p = int(pos.val)
                if 0 <= p < len(flat):
                    return flat[p]
                return RZ if dtype == "f" else ZERO
            # nested ite over the free positions
            if not flat:
                return RZ if dtype == "f" else ZERO
            r = flat[-1]
            for p in range(len(flat) - 2, -1, -1):
                rem, q = p, []
                for d in reversed(dims):
                    q.append(rem % d)
                    rem //= d
                q.reverse()
                c = T.and_(*[T.eq(i, T.const(v)) for i, v in zip(idx, q)])
                if c is T.FALSE:
                    continue
                r = T.ite(c, flat[p], r)
            return r
        return Arr(Buf(tuple(T.const(d) for d in dims), fn, dtype))

    def fresh(self, shape, fn, dtype="f"):
        return Arr(Buf(tuple(T.const(s) for s in shape), fn, dtype))

    def scalar_or(self, a):
        if isinstance(a, Arr) and len(a.shape) == 0:
            return simp(a.at())
        return a

    def shape_of(self, s):
        I = self.I
        if isinstance(s, (int, T.Term)) and not isinstance(s, bool):
            s = (s,)
        elif isinstance(s, PyList):
            s = s.items
        elif isinstance(s, Arr):
            s = tuple(I.tolist(s))
        if not isinstance(s, tuple):
            raise Unsupported("shape %r" % (s,))
        out = []
        for x in s:
            t = T.const(x)
            if t.sort != "I":
                raise PyRaise("TypeError", "non-integer dimension")
            if t.op != "c":
                I.require(T.le(0, t), "array dimension is not negative")
            elif t.val < 0:
                raise PyRaise("ValueError", "negative dimensions are not allowed")
            out.append(t)
        return tuple(out)

    def asarr(self, v):
        I = self.I
        if isinstance(v, Arr):
            return v
        if isinstance(v, (bool, int)):
            t = T.const(v)
            return Arr(Buf((), lambda idx: t, "b" if isinstance(v, bool) else "i"))
        if isinstance(v, T.Term) and v.sort in "IRB":
            return Arr(Buf((), lambda idx: v, tdt(v)))
        if isinstance(v, (PyList, tuple)):
            items = v.items if isinstance(v, PyList) else v
            subs = [self.asarr(x) for x in items]
            if not subs:
                return self.fresh((0,), lambda idx: RZ)
            sh = subs[0].shape
            for s in subs:
                if len(s.shape) != len(sh):
                    raise PyRaise("ValueError", "inhomogeneous array")
                for p, q in zip(s.shape, sh):
                    self.same_dim(p, q)
            dt = dt_join(*[s.dtype for s in subs])
            rs = [self.cast(s.reader(), s.dtype, dt) for s in subs]

            def fn(idx):
                k = T.const(idx[0])
                if k.op == "c":
                    kk = int(k.val)
                    if 0 <= kk < len(rs):
                        return rs[kk](idx[1:])
                    return RZ if dt == "f" else ZERO
                r = rs[-1](idx[1:])
                for p in range(len(rs) - 2, -1, -1):
                    r = T.ite(T.eq(k, p), rs[p](idx[1:]), r)
                return r
            return self.fresh((len(items),) + tuple(sh), fn, dt)
        if isinstance(v, SymSeq):
            if v.guard is not None:
                raise Unsupported("array of a guarded sequence")
            x0 = v.item(ZERO)
            a0 = self.asarr(x0)

            def fn2(idx):
                x = self.asarr(v.item(T.const(idx[0])))
                return x.at(*idx[1:])
            return self.fresh((v.n,) + tuple(a0.shape), fn2, a0.dtype)
        if isinstance(v, RangeVal):
            from . import loops
            return self.asarr(loops.as_seq(I, v))
        if isinstance(v, SymCoef):
            raise Unsupported("coefficients of a symbolic-degree polynomial")
        raise Unsupported("array from %r" % type(v).__name__)

    def cast(self, fn, a, b):
        if a == b:
            return fn
        if b == "f":
            return lambda idx: T.toR(T.b2i(fn(idx)))
        if b == "i" and a == "b":
            return lambda idx: T.b2i(fn(idx))
        if b == "i":
            return lambda idx: self.trunc(fn(idx))
        if b == "b":
            return lambda idx: self.I.truth_term(fn(idx))
        raise Unsupported("cast")

    def trunc(self, t):
        t = T.const(t)
        if t.sort == "I":
            return t
        if t.sort == "B":
            return T.b2i(t)
        if t.op == "c":
            return T.const(int(t.val))
        c, m = T.lin(t)
        if t.op == "ite":
            return T.ite(t.args[0], self.trunc(t.args[1]), self.trunc(t.args[2]))
        return T.ite(T.le(0, t), T.floor_(t), -T.floor_(-t))

    def same_dim(self, p, q):
        p, q = T.const(p), T.const(q)
        if p is q:
            return
        if p.op == "c" and q.op == "c":
            raise PyRaise("ValueError", "shapes do not match: %s %s" % (p.val, q.val))
        if self.I.implied(T.ne(p, q), 100):
            raise PyRaise("ValueError", "shapes do not match")
        self.I.require(T.eq(p, q), "array shapes agree")

    def bshape(self, shapes):
        n = max(len(s) for s in shapes)
        out = []
        for d in range(n):
            cur = None
            for s in shapes:
                k = d - (n - len(s))
                if k < 0:
                    continue
                x = T.const(s[k])
                if x.op == "c" and x.val == 1:
                    continue
                if cur is None:
                    cur = x
                else:
                    self.same_dim(cur, x)
            out.append(cur if cur is not None else ONE)
        return tuple(out)

    @staticmethod
    def bindex(shape, idx):
        k = len(idx) - len(shape)
        return tuple(ZERO if (s.op == "c" and s.val == 1) else idx[k + i] for i, s in enumerate(shape))

    def elementwise(self, fn, *args, dtype=None):
        """apply fn to broadcast elements"""
        comp = [a for a in args if isinstance(a, Compressed)]
        if comp:
            return self.el_comp(fn, args, dtype)
        if all(isinstance(a, (int, bool)) or isinstance(a, T.Term) for a in args):
            return simp(fn(*[T.const(a) for a in args]))
        if len(args) == 1 and args[0] is NAN and dtype is None:
            return NAN          # every unary arithmetic function of NaN is NaN
        if any(isinstance(a, Special) for a in args):
            raise Unsupported("special values in arrays")
        arrs = [self.asarr(a) for a in args]
        sh = self.bshape([a.shape for a in arrs])
        rs = [(a.reader(), a.shape) for a in arrs]

        def content(idx):
            return fn(*[r(self.bindex(s, idx)) for r, s in rs])
        if dtype is None:
            dtype = self.probe(fn, arrs)
        a = self.fresh(sh, content, dtype)
        return self.scalar_or(a)

    def probe(self, fn, arrs):
        vs = [T.var("probe!%d" % i, {"f": "R", "i": "I", "b": "B"}[a.dtype]) for i, a in enumerate(arrs)]
        return tdt(fn(*vs))

    def el_comp(self, fn, args, dtype):
        comp = [a for a in args if isinstance(a, Compressed)]
        c0 = comp[0]
        for c in comp[1:]:
            self.same_mask(c0, c)
        fs = []
        for a in args:
            if isinstance(a, Compressed):
                fs.append(a.fn)
            elif isinstance(a, (int, bool)) or isinstance(a, T.Term):
                t = T.const(a)
                fs.append(lambda idx, t=t: t)
            elif isinstance(a, Arr) and len(a.shape) == 0:
                t = a.at()
                fs.append(lambda idx, t=t: t)
            else:
                raise Unsupported("array combined with a masked selection")
        if dtype is None:
            vs = [T.var("probe!%d" % i, "R" if not isinstance(a, Compressed) or a.dtype == "f" else {"i": "I", "b": "B"}[a.dtype])
                  if isinstance(a, Compressed) else T.const(a) if not isinstance(a, Arr) else a.at() for i, a in enumerate(args)]
            dtype = tdt(fn(*vs))
        return Compressed(c0.shape, c0.mask, lambda idx: fn(*[f(idx) for f in fs]), dtype)

    def same_mask(self, a, b):
        if a.mask is b.mask:
            return
        if len(a.shape) != len(b.shape):
            raise Unsupported("different selections")
        vs = tuple(canon(i, "m") for i in range(len(a.shape)))
        x, y = a.mask(vs), b.mask(vs)
        for p, q in zip(a.shape, b.shape):
            self.same_dim(p, q)
        if x is y:
            return
        raise Unsupported("different selections")

    # ------------------------------------------------------------------ operators
    BIN = {"Add": T.add, "Sub": T.sub, "Mult": T.mul}

    def opfn(self, op):
        I = self.I

        def f(x, y):
            if op in ("BitAnd", "BitOr", "BitXor"):
                return T.const(I.tbin(op, x, y))
            x, y = T.b2i(x), T.b2i(y)
            if op == "Div":
                return T.div(T.toR(x), T.toR(y))
            if op in self.BIN:
                return self.BIN[op](x, y)
            return T.const(I.tbin(op, x, y))
        return f

    def binary(self, op, a, b):
        if isinstance(a, IndexSet) or isinstance(b, IndexSet):
            if isinstance(a, IndexSet) and op in ("Add", "Sub") and not isinstance(b, (Arr, IndexSet, Compressed)):
                d = self.I.num(b)
                return IndexSet(a.n, a.pred, T.add(a.shift, d if op == "Add" else -d))
            if isinstance(b, IndexSet) and op == "Add" and not isinstance(a, (Arr, Compressed)):
                return self.binary(op, b, a)
            raise Unsupported("index set arithmetic")
        for x in (a, b):
            if isinstance(x, (str, StrVal, PyDict, Obj)) or x is None:
                raise PyRaise("TypeError", "array operation")
        if isinstance(a, LegSeries) or isinstance(b, LegSeries):
            raise Unsupported("array and Legendre series")
        return self.elementwise(self.opfn(op), a, b)

    def unary(self, op, a):
        if isinstance(a, IndexSet):
            raise Unsupported("unary on index set")
        if op == "USub":
            return self.elementwise(lambda t: -T.b2i(t), a)
        if op == "UAdd":
            return a
        if op == "Invert":
            return self.elementwise(lambda t: T.not_(t) if t.sort == "B" else self._no("~ on integers"), a)
        raise Unsupported("unary " + op)

    def _no(self, s):
        raise Unsupported(s)

    def compare(self, op, a, b):
        f = self.I.CMP[op]
        return self.elementwise(lambda x, y: f(x, y) if x.sort == y.sort == "B" else f(T.b2i(x), T.b2i(y)), a, b, dtype="b")

    def inplace(self, op, cur, v):
        val = self.binary(op, cur, v)
        if cur.dtype == "i" and self.dtype_of(val) == "f":
            raise PyRaise("TypeError", "cannot cast float64 to int64 in place")
        self.write(cur, val)

    def dtype_of(self, v):
        if isinstance(v, (Arr, Compressed)):
            return v.dtype
        if isinstance(v, bool):
            return "b"
        if isinstance(v, int):
            return "i"
        if isinstance(v, T.Term):
            return tdt(v)
        return "f"

    def write(self, view, val):
        """view[...] = val (broadcast)"""
        if getattr(view.buf, "readonly", False):
            raise Unsupported("write through a derived view")
        if isinstance(val, Compressed):
            raise Unsupported("masked value assigned to an unmasked view")
        if isinstance(val, Special):
            raise Unsupported("special value stored in an array")
        a = self.asarr(val)
        sh = view.shape
        ash = a.shape
        while len(ash) > len(sh) and ash[0] is ONE:
            ash = ash[1:]
        if len(ash) > len(sh):
            raise PyRaise("ValueError", "could not broadcast")
        for k in range(len(ash)):
            p, q = ash[len(ash) - 1 - k], sh[len(sh) - 1 - k]
            if p.op == "c" and p.val == 1:
                continue
            self.same_dim(p, q)
        r = a.reader()
        drop = len(a.shape) - len(ash)
        src = a.dtype
        dst = view.buf.dtype

        def value(vi):
            idx = self.bindex(ash, vi)
            return r((ZERO,) * drop + idx)
        value = self.cast(value, src, dst)
        old = view.buf.content
        buf = view.buf

        def content(bidx):
            cond, vi = view.inverse(bidx)
            if cond is T.FALSE:
                return old(bidx)
            # whole-buffer writes: indices are always in range
            cond = self.in_range(buf, bidx, cond)
            if cond is T.TRUE:
                return value(vi)
            return T.ite(cond, value(vi), old(bidx))
        if self.covers(view):
            def content(bidx):      # noqa: F811
                _, vi = view.inverse(bidx)
                return value(vi)
        hset(buf, "c", memo_content(content))

    def in_range(self, buf, bidx, cond):
        return cond

    def covers(self, view):
        """the view is the whole buffer"""
        for ax, n in zip(view.axes, view.buf.shape):
            if ax[0] == "fix":
                return False
            _, st, step, dim = ax
            if step != 1 or st is not ZERO and not (st.op == "c" and st.val == 0) or view.shape[dim] is not n:
                return False
        return True

    # ------------------------------------------------------------------ indexing
    def norm_index(self, k, n, what="index in range"):
        I = self.I
        k = T.const(k)
        if k.sort == "B":
            raise Unsupported("boolean index")
        if k.sort != "I":
            raise PyRaise("IndexError", "non-integer index")
        if k.op == "c":
            if k.val < 0:
                kk = T.add(n, k)
                if kk.op == "c" and kk.val < 0:
                    raise PyRaise("IndexError", "out of bounds")
                I.require(T.le(0, kk), what)
                return kk
            if n.op == "c" and k.val >= n.val:
                raise PyRaise("IndexError", "out of bounds")
            I.require(T.lt(k, n), what)
            return k
        if I.implied(T.le(0, k)):
            I.require(T.lt(k, n), what)
            return k
        if I.implied(T.lt(k, 0)):
            kk = T.add(n, k)
            I.require(T.le(0, kk), what)
            return kk
        I.require(T.and_(T.le(-n, k), T.lt(k, n)), what)
        return T.ite(T.le(0, k), k, T.add(n, k))

    def clamp(self, x, n, lo_default):
        """slice bound for a positive step"""
        I = self.I
        if x is None:
            return lo_default
        x = T.const(x)
        if x.sort != "I":
            raise PyRaise("TypeError", "slice indices must be integers")
        neg = None
        if x.op == "c":
            neg = x.val < 0
        elif I.implied(T.le(0, x)):
            neg = False
        elif I.implied(T.lt(x, 0)):
            neg = True
        if neg is None:
            x = T.ite(T.le(0, x), x, T.add(n, x))
        elif neg:
            x = T.add(n, x)
        if x.op == "c" and n.op == "c":
            return T.const(min(max(int(x.val), 0), int(n.val)))
        if not I.implied(T.le(0, x)):
            x = T.max_(x, ZERO)
        if not I.implied(T.le(x, n)):
            x = T.min_(x, n)
        return x

    def slice_(self, s, n):
        """-> (start, step, length)"""
        I = self.I
        step = 1 if s.step is None else I.cint(s.step)
        n = T.const(n)
        if step == 0:
            raise PyRaise("ValueError", "slice step cannot be zero")
        if step > 0:
            a = self.clamp(s.lo, n, ZERO)
            b = self.clamp(s.hi, n, n)
            d = T.sub(b, a)
            if step != 1:
                d = T.idiv(T.add(d, T.const(step - 1)), T.const(step))
        else:
            def neg(x, default):
                if x is None:
                    return default
                x = T.const(x)
                if x.op == "c" and x.val < 0:
                    x = T.add(n, x)
                elif x.op != "c" and not I.implied(T.le(0, x)):
                    if I.implied(T.lt(x, 0)):
                        x = T.add(n, x)
                    else:
                        raise Unsupported("slice bound of unknown sign")
                if x.op == "c" and n.op == "c":
                    return T.const(min(max(int(x.val), -1), int(n.val) - 1))
                if not I.implied(T.le(x, T.sub(n, ONE))):
                    x = T.min_(x, T.sub(n, ONE))
                return x
            a = neg(s.lo, T.sub(n, ONE))
            b = neg(s.hi, T.const(-1))
            d = T.idiv(T.add(T.sub(a, b), T.const(-step - 1)), T.const(-step))
        if d.op == "c":
            d = T.const(max(0, int(d.val)))
        elif not I.implied(T.le(0, d)):
            d = T.max_(d, ZERO)
        return a, step, d

    def expand_key(self, a, k):
        ks = list(k) if isinstance(k, tuple) else [k]
        nreal = sum(1 for x in ks if x is not None and x is not Ellipsis and not (isinstance(x, Arr) and x.dtype == "b" and x.ndim > 1))
        nd = len(a.shape)
        if any(x is Ellipsis for x in ks):
            i = [j for j, x in enumerate(ks) if x is Ellipsis][0]
            ks = ks[:i] + [SliceVal(None, None, None)] * (nd - nreal) + ks[i + 1:]
        else:
            ks = ks + [SliceVal(None, None, None)] * (nd - nreal)
        if sum(1 for x in ks if x is not None) > nd:
            raise PyRaise("IndexError", "too many indices for array")
        return ks

    def view(self, a, ks):
        """basic indexing"""
        axes = {}
        shape = []
        d = 0
        newdim = {}
        for x in ks:
            if x is None:
                shape.append(ONE)
                continue
            n = a.shape[d]
            if isinstance(x, SliceVal):
                if x.lo is None and x.hi is None and x.step is None:
                    newdim[d] = ("sl", ZERO, 1, len(shape))
                    shape.append(n)
                else:
                    st, step, ln = self.slice_(x, n)
                    newdim[d] = ("sl", st, step, len(shape))
                    shape.append(ln)
            else:
                if isinstance(x, Arr) and len(x.shape) == 0:
                    x = x.at()
                newdim[d] = ("fix", self.norm_index(x, n))
            d += 1
        out = []
        for ax in a.axes:
            if ax[0] == "fix":
                out.append(ax)
                continue
            _, st, step, dim = ax
            nd = newdim[dim]
            if nd[0] == "fix":
                out.append(("fix", T.add(st, T.scale(Fraction(step), nd[1]) if step != 1 else nd[1])))
            else:
                _, s2, step2, vd = nd
                out.append(("sl", T.add(st, T.scale(Fraction(step), s2) if step != 1 else s2), step * step2, vd))
        return Arr(a.buf, tuple(out), tuple(shape))

    def isfancy(self, x):
        return isinstance(x, (PyList, IndexSet, Compressed)) or isinstance(x, Arr) and len(x.shape) > 0 or \
            isinstance(x, tuple) or isinstance(x, SymSeq)

    def getitem(self, a, k):
        I = self.I
        if isinstance(a, IndexSet):
            if isinstance(k, int) and k == 0 and getattr(a, "lead", False):
                b = IndexSet(a.n, a.pred, a.shift)
                return b
            if isinstance(k, SliceVal) and k.lo is None and k.hi is None and k.step is None:
                return a
            raise Unsupported("element of an index set")
        if isinstance(a, Compressed):
            raise Unsupported("element of a masked selection")
        if isinstance(k, tuple) and len(k) == 1 and isinstance(k[0], IndexSet):
            k = k[0]
        ks = self.expand_key(a, k)
        fancy = [i for i, x in enumerate(ks) if self.isfancy(x)]
        if not fancy:
            v = self.view(a, ks)
            if len(v.shape) == 0:
                return simp(v.at())
            return v
        if len(ks) == 1 or len(fancy) == 1:
            i = fancy[0]
            x = ks[i]
            if isinstance(x, (PyList, tuple)):
                x = self.asarr(x)
            if isinstance(x, Arr) and x.dtype == "b":
                if x.ndim == len(a.shape) or (x.ndim == 1 and len(ks) == 1):
                    if x.ndim == len(a.shape):
                        for p, q in zip(x.shape, a.shape):
                            self.same_dim(p, q)
                        return Compressed(a.shape, x.reader(), a.reader(), a.dtype)
                raise Unsupported("partial mask")
            if isinstance(x, IndexSet):
                if len(a.shape) != 1:
                    raise Unsupported("index set on a multi-dimensional array")
                self.check_indexset(x, a.shape[0])
                r = a.reader()
                return Compressed((x.n,), lambda idx: x.pred(idx[0]), lambda idx: r((T.add(idx[0], x.shift),)), a.dtype)
            if isinstance(x, Arr) and x.dtype == "i":
                rest = [SliceVal(None, None, None) if j == i else y for j, y in enumerate(ks)]
                b = self.view(a, rest)
                # dimension of b indexed by the fancy key
                dim = sum(1 for y in rest[:i] if isinstance(y, SliceVal) or y is None)
                if any(not isinstance(y, SliceVal) and y is not None for j, y in enumerate(ks) if j != i) and x.ndim > 1:
                    raise Unsupported("mixed advanced indexing")
                r = b.reader()
                xr = x.reader()
                n = b.shape[dim]
                self.check_range(x, n)
                sh = b.shape[:dim] + x.shape + b.shape[dim + 1:]
                xd = x.ndim

                def fn(idx):
                    j = xr(idx[dim:dim + xd])
                    j = self.wrapneg(j, n)
                    return r(tuple(idx[:dim]) + (j,) + tuple(idx[dim + xd:]))
                return self.scalar_or(self.fresh(sh, fn, a.dtype))
        if len(fancy) == len(ks) and all(isinstance(x, (Arr, PyList, tuple)) for x in ks):
            xs = [self.asarr(x) for x in ks]
            if all(x.dtype == "i" for x in xs):
                sh = self.bshape([x.shape for x in xs])
                for x, n in zip(xs, a.shape):
                    self.check_range(x, n)
                rs = [(x.reader(), x.shape, n) for x, n in zip(xs, a.shape)]
                r = a.reader()
                return self.fresh(sh, lambda idx: r(tuple(self.wrapneg(q(self.bindex(s, idx)), n) for q, s, n in rs)), a.dtype)
        raise Unsupported("advanced indexing")

    def wrapneg(self, j, n):
        j = T.const(j)
        if j.op == "c":
            return j if j.val >= 0 else T.add(n, j)
        return T.ite(T.le(0, j), j, T.add(n, j)) if not self.I.implied(T.le(0, j)) else j

    def check_range(self, x, n):
        vs = [T.fresh("k", "I") for _ in x.shape]
        if all(cdim(s) is not None for s in x.shape):
            import itertools
            for c in itertools.product(*[range(cdim(s)) for s in x.shape]):
                j = x.at(*c)
                self.I.require(T.and_(T.le(-n, j), T.lt(j, n)), "index in range")
            return
        pre = T.and_(*[T.and_(T.le(0, v), T.lt(v, s)) for v, s in zip(vs, x.shape)])
        j = x.at(*vs)
        self.I.oblige("index in range", T.implies(pre, T.and_(T.le(-n, j), T.lt(j, n))))

    def check_indexset(self, x, n):
        I = self.I
        k = T.fresh("k", "I")
        if I.implied(T.le(0, x.shift)) and I.implied(T.le(T.add(x.n, x.shift), n)):
            return
        I.oblige("index in range", T.implies(T.and_(T.le(0, k), T.lt(k, x.n), x.pred(k)),
                                             T.and_(T.le(0, T.add(k, x.shift)), T.lt(T.add(k, x.shift), n))))

    def setitem(self, a, k, v):
        I = self.I
        if isinstance(k, tuple) and len(k) == 1 and isinstance(k[0], IndexSet):
            k = k[0]
        ks = self.expand_key(a, k)
        fancy = [i for i, x in enumerate(ks) if self.isfancy(x)]
        if not fancy:
            w = self.view(a, ks)
            if a.dtype == "i" and self.dtype_of(v) == "f" and not isinstance(v, (Arr, Compressed)) and len(w.shape) == 0:
                pass
            self.write(w, v)
            return
        if getattr(a.buf, "readonly", False):
            raise Unsupported("write through a derived view")
        if len(fancy) != 1:
            raise Unsupported("advanced assignment")
        i = fancy[0]
        x = ks[i]
        if isinstance(x, (PyList, tuple)):
            x = self.asarr(x)
        if isinstance(x, Arr) and x.dtype == "b":
            if x.ndim != len(a.shape):
                raise Unsupported("partial mask assignment")
            for p, q in zip(x.shape, a.shape):
                self.same_dim(p, q)
            mask = x.reader()
            if isinstance(v, Compressed):
                self.same_mask(v, Compressed(a.shape, mask, None))
                val = self.cast(v.fn, v.dtype, a.dtype)
            elif isinstance(v, Arr) and len(v.shape) > 0:
                raise Unsupported("array assigned through a mask")
            else:
                t = self.asarr(v)
                val = self.cast(lambda idx: t.at(), t.dtype, a.dtype)
            old = a.buf.content

            def content(bidx):
                cond, vi = a.inverse(bidx)
                if self.covers(a):
                    cond = T.TRUE
                if cond is T.FALSE:
                    return old(bidx)
                return T.ite(T.and_(cond, mask(vi)), val(vi), old(bidx))
            hset(a.buf, "c", memo_content(content))
            return
        if isinstance(x, IndexSet):
            if len(a.shape) != 1:
                raise Unsupported("index set assignment")
            n = a.shape[0]
            self.check_indexset(x, n)
            if isinstance(v, Compressed):
                def val(kk):
                    return v.fn((kk,))
                self.same_mask(v, Compressed((x.n,), lambda idx: x.pred(idx[0]), None))
                sv = v.dtype
            elif isinstance(v, Arr) and len(v.shape) > 0:
                raise Unsupported("array assigned through an index set")
            else:
                t = self.asarr(v)
                val = lambda kk: t.at()
                sv = t.dtype
            old = a.buf.content
            cv = self.cast(lambda idx: val(idx[0]), sv, a.dtype)

            def content(bidx):
                cond, vi = a.inverse(bidx)
                if self.covers(a):
                    cond = T.TRUE
                if cond is T.FALSE:
                    return old(bidx)
                kk = T.sub(vi[0], x.shift)
                c = T.and_(cond, T.le(0, kk), T.lt(kk, x.n))
                if c is T.FALSE:
                    return old(bidx)
                return T.ite(T.and_(c, x.pred(kk)), cv((kk,)), old(bidx))
            hset(a.buf, "c", memo_content(content))
            return
        if isinstance(x, Arr) and x.dtype == "i" and all(cdim(s) is not None for s in x.shape) and x.ndim == 1:
            n = cdim(x.shape[0])
            dim = sum(1 for y in ks[:i] if isinstance(y, SliceVal))
            for q in range(n):
                kq = list(ks)
                kq[i] = simp(x.at(q))
                if isinstance(v, Arr) and len(v.shape) > 0:
                    vd = dim - (sum(1 for y in ks if isinstance(y, SliceVal)) + 1 - len(v.shape))
                    if vd >= 0 and not (v.shape[vd] is ONE):
                        key = [SliceVal(None, None, None)] * len(v.shape)
                        key[vd] = q
                        vq = self.getitem(v, tuple(key))
                    else:
                        vq = v
                elif isinstance(v, (PyList, tuple)):
                    vq = self.getitem(self.asarr(v), q)
                else:
                    vq = v
                self.setitem(a, tuple(kq), vq)
            return
        raise Unsupported("advanced assignment")

    # ------------------------------------------------------------------ reductions
    def reduce_axis(self, a, axis, comb, keepdims=False):
        """comb(n, fn(k)) -> term"""
        a = self.asarr(a)
        r = a.reader()
        nd = len(a.shape)
        if axis is None:
            if nd == 0:
                return simp(comb(ONE, lambda k: r(())))
            if nd == 1:
                return simp(comb(a.shape[0], lambda k: r((k,))))

            def rec(d, pre):
                if d == nd:
                    return r(tuple(pre))
                return comb(a.shape[d], lambda k: rec(d + 1, pre + [k]))
            return simp(rec(0, []))
        ax = self.I.cint(axis)
        if ax < 0:
            ax += nd
        n = a.shape[ax]
        sh = a.shape[:ax] + ((ONE,) if keepdims else ()) + a.shape[ax + 1:]

        def fn(idx):
            pre = tuple(idx[:ax])
            post = tuple(idx[ax + (1 if keepdims else 0):])
            return comb(n, lambda k: r(pre + (k,) + post))
        probe = "f"
        return self.scalar_or(self.fresh(sh, fn, a.dtype if a.dtype != "b" else "i"))

    def c_sum(self, n, f):
        n = T.const(n)
        if n.op == "c" and n.val <= 64:
            r = ZERO
            for i in range(int(n.val)):
                r = T.add(r, T.b2i(f(T.const(i))))
            return r
        k = T.fresh("s", "I")
        return T.sum_(k, ZERO, n, T.toR(T.b2i(f(k))))

    def c_ext(self, which):
        def c(n, f):
            n = T.const(n)
            if n.op == "c":
                if n.val == 0:
                    raise PyRaise("ValueError", "zero-size array to reduction operation")
                r = T.b2i(f(ZERO))
                for i in range(1, int(n.val)):
                    x = T.b2i(f(T.const(i)))
                    r = T.max_(r, x) if which in ("amax", "nanmax") else T.min_(r, x)
                return r
            self.I.require(T.lt(0, n), "reduction of a non-empty array")
            v = canon(0, "mx")
            body = T.toR(T.b2i(f(v)))
            if any(x.op == "app" and x.val in ("amax", "amin") for x in T.subterms(body)):
                v2 = canon(1, "mx")
                body = T.toR(T.b2i(f(v2)))
            return T.app(which, body, n)
        return c

    def c_anyall(self, which):
        def c(n, f):
            n = T.const(n)
            if n.op == "c":
                xs = [self.I.truth_term(f(T.const(i))) for i in range(int(n.val))]
                return T.or_(*xs) if which == "any" else T.and_(*xs)
            v = canon(0, "mx")
            body = self.I.truth_term(f(v))
            return T.app(which, body, n, sort="B")
        return c

    # ------------------------------------------------------------------ linear algebra
    def sumover(self, n, f):
        k = T.fresh("s", "I")
        n = T.const(n)
        if n.op == "c":
            r = RZ
            for i in range(int(n.val)):
                r = T.add(r, f(T.const(i)))
            return r
        return T.sum_(k, ZERO, n, f(k))

    def dot(self, a, b):
        if isinstance(a, (int, bool, T.Term)) or isinstance(b, (int, bool, T.Term)):
            return self.binary("Mult", a, b) if isinstance(a, (Arr,)) or isinstance(b, Arr) else self.I.binop("Mult", a, b)
        ta, tb = getattr(a, "invof", None), getattr(b, "invof", None)
        a, b = self.asarr(a), self.asarr(b)
        if len(a.shape) == 0 or len(b.shape) == 0:
            return self.binary("Mult", a, b)
        if ta is not None or tb is not None:
            r = self.inv_dot(a, b, ta, tb)
            if r is not None:
                return r
        ra, rb = a.reader(), b.reader()
        da = len(a.shape) - 1
        db = 0 if len(b.shape) == 1 else len(b.shape) - 2
        n = a.shape[da]
        self.same_dim(n, b.shape[db])
        sh = a.shape[:da] + b.shape[:db] + b.shape[db + 1:]
        dt = dt_join(a.dtype, b.dtype)

        def fn(idx):
            ia = tuple(idx[:da])
            ib = tuple(idx[da:])
            s = self.sumover(n, lambda k: T.mul(T.b2i(ra(ia + (k,))), T.b2i(rb(ib[:db] + (k,) + ib[db:]))))
            return s if dt == "f" else s
        return self.scalar_or(self.fresh(sh, lambda idx: T.toR(fn(idx)), "f"))

    def einsum(self, spec, *ops):
        spec = spec.replace(" ", "")
        if "->" in spec:
            ins, out = spec.split("->")
        else:
            ins = spec
            al = "".join(sorted(set(ins.replace(",", ""))))
            out = "".join(c for c in al if ins.replace(",", "").count(c) == 1)
        ins = ins.split(",")
        arrs = [self.asarr(o) for o in ops]
        if len(ins) != len(arrs) or "." in spec:
            raise Unsupported("einsum " + spec)
        dims = {}
        for s, a in zip(ins, arrs):
            if len(s) != len(a.shape):
                raise PyRaise("ValueError", "einsum dimensions")
            for c, n in zip(s, a.shape):
                if c in dims:
                    self.same_dim(dims[c], n)
                else:
                    dims[c] = n
        contr = [c for c in dims if c not in out]
        rs = [a.reader() for a in arrs]

        def fn(idx):
            env = dict(zip(out, idx))

            def rec(j, env):
                if j == len(contr):
                    r = T.const(Fraction(1))
                    for s, q in zip(ins, rs):
                        r = T.mul(r, T.toR(T.b2i(q(tuple(env[c] for c in s)))))
                    return r
                return self.sumover(dims[contr[j]], lambda k: rec(j + 1, dict(env, **{contr[j]: k})))
            return rec(0, env)
        return self.scalar_or(self.fresh(tuple(dims[c] for c in out), fn, "f"))

    def matrix(self, a):
        """concrete matrix of terms"""
        n, m = cdim(a.shape[0]), cdim(a.shape[1])
        if n is None or m is None:
            raise Unsupported("symbolic matrix size")
        return [[T.toR(T.b2i(a.at(i, j))) for j in range(m)] for i in range(n)]

    def inv(self, a):
        a = self.asarr(a)
        if len(a.shape) != 2:
            raise Unsupported("inv")
        if cdim(a.shape[0]) is None:
            # opaque: a function of the matrix
            r = a.reader()
            body = r((canon(0, "iv"), canon(1, "iv")))
            return self.fresh(a.shape, lambda idx: T.app("inv##", body, a.shape[0], *idx), "f")
        M = self.matrix(a)
        n = len(M)
        if n != len(M[0]) if M else False:
            raise PyRaise("LinAlgError", "not square")
        M = [[self.fold(x) for x in row] for row in M]
        if all(x.op == "c" for r in M for x in r):
            X = rat_inv([[x.val for x in r] for r in M])
            if X is None:
                raise PyRaise("LinAlgError", "Singular matrix")
            return self.table([T.const(Fraction(x)) for r in X for x in r], (n, n))
        out = self.fresh((n, n), lambda idx: T.app("inv#", *(tuple(x for r in M for x in r) + tuple(idx))), "f")
        out.invof = M
        return out

    def fold(self, x):
        """simplify a term that is really constant"""
        if x.op == "c":
            return x
        from .poly import Norm, TooBig
        try:
            N = Norm()
            rf = N.rf(x)
            c = N.cst(rf)
            if c is not None:
                return T.const(Fraction(c))
        except TooBig:
            pass
        return x

    def inv_dot(self, a, b, ta, tb):
        """inv(V)·B: the X with V·X == B, guessed from two random evaluations and then verified symbolically"""
        if ta is None or tb is not None:
            raise Unsupported("product with the inverse of a symbolic matrix")
        V_ = ta
        n = len(V_)
        vec = len(b.shape) == 1
        B = [[T.toR(b.at(i))] for i in range(n)] if vec else self.matrix(b)
        atoms = sorted({x for r in V_ + B for t in r for x in T.subterms(t) if x.op in ("v", "app")}, key=lambda x: x.id)
        # every other atom must be a base symbol
        rng = _random.Random(12345)
        Xs = []
        for _ in range(2):
            env = {x: T.const(Fraction(rng.randint(-40, 40), rng.randint(1, 9))) for x in atoms}
            Vn = [[self.fold(T.subst(t, env)) for t in r] for r in V_]
            Bn = [[self.fold(T.subst(t, env)) for t in r] for r in B]
            if not all(t.op == "c" for r in Vn + Bn for t in r):
                raise Unsupported("inverse of a symbolic matrix")
            iv = rat_inv([[t.val for t in r] for r in Vn])
            if iv is None:
                raise Unsupported("inverse of a symbolic matrix (singular sample)")
            Xs.append([[sum(iv[i][k] * Bn[k][j].val for k in range(n)) for j in range(len(Bn[0]))] for i in range(n)])
        if Xs[0] != Xs[1]:
            raise Unsupported("inverse of a symbolic matrix times a matrix is not constant")
        X = Xs[0]
        from .poly import Norm
        N = Norm()
        for i in range(n):
            for j in range(len(B[0])):
                s = RZ
                for k in range(n):
                    s = T.add(s, T.mul(V_[i][k], T.const(Fraction(X[k][j]))))
                if not N.zero(T.sub(s, B[i][j])):
                    raise Unsupported("inverse guess not verified")
        self.I.note("linalg.inv: V is invertible (distinct Gauss nodes); V·X == B verified symbolically")
        m = len(B[0])
        if vec:
            return self.vec([T.const(Fraction(X[i][0])) for i in range(n)])
        return self.table([T.const(Fraction(X[i][j])) for i in range(n) for j in range(m)], (n, m))

    # ------------------------------------------------------------------ attributes
    def attr(self, o, name):
        I = self.I
        B = lambda f: Builtin(name, f)
        if isinstance(o, T.Term):
            if name in ("real",):
                return o
            if name == "copy":
                return B(lambda: o)
            if name == "item":
                return B(lambda: o)
            if name in ("max", "min", "sum", "mean"):
                return B(lambda *a, **k: o)
            if name == "shape":
                return ()
            if name == "ndim":
                return 0
            if name == "is_integer":
                return B(lambda: o.sort == "I" or (o.op == "c" and o.val.denominator == 1) or I._unsup("is_integer"))
            raise Unsupported("attribute %s of a number" % name)
        if isinstance(o, IndexSet):
            if name in ("flatten", "ravel", "squeeze", "copy"):
                return B(lambda *a: o)
            if name == "size":
                k = T.fresh("s", "I")
                return T.app("cardinal", T.sum_(k, ZERO, o.n, T.toR(T.b2i(o.pred(k)))), sort="I") if False else I._unsup("size of an index set")
            if name == "shape":
                raise Unsupported("shape of an index set")
            raise Unsupported("attribute %s of an index set" % name)
        if isinstance(o, Compressed):
            if name == "copy":
                return B(lambda: o)
            raise Unsupported("attribute %s of a masked selection" % name)
        a = o
        if name == "shape":
            return tuple(simp(s) for s in a.shape)
        if name == "ndim":
            return len(a.shape)
        if name == "size":
            s = ONE
            for x in a.shape:
                s = T.mul(s, x)
            return simp(s)
        if name == "T":
            return self.transpose(a)
        if name == "dtype":
            return DType(a.dtype, a.dtype)
        if name == "real":
            return a
        if name == "flat":
            if len(a.shape) == 1:
                return a
            return self.f_ravel(a)
        if name == "copy":
            return B(lambda order=None: self.f_copy(a))
        if name == "fill":
            return B(lambda v: self.write(a, v))
        if name == "transpose":
            return B(lambda *ax: self.transpose(a, *ax))
        if name == "tolist":
            def tl():
                if len(a.shape) == 0:
                    return simp(a.at())
                n = cdim(a.shape[0])
                if n is None:
                    raise Unsupported("tolist of symbolic length")
                out = []
                for i in range(n):
                    x = self.getitem(a, i)
                    out.append(I.call(self.attr(x, "tolist"), []) if isinstance(x, Arr) else x)
                return PyList(out)
            return B(tl)
        if name == "item":
            return B(lambda *i: self.getitem(a, tuple(i)) if i else simp(a.at(*([0] * len(a.shape)))))
        if name == "astype":
            return B(lambda d, copy=True: a if copy is not True and dt_of(d) == a.dtype else self.f_astype(a, d))
        if name in ("__getitem__",):
            return B(lambda k: self.getitem(a, k))
        m = self.attrs_np().get(name)
        if m is not None and name in ("sum", "max", "min", "mean", "dot", "reshape", "ravel", "flatten", "any", "all", "clip",
                                      "nonzero", "squeeze", "prod", "argmax", "argmin", "sort", "cumsum", "diagonal", "trace", "repeat"):
            if name == "sort":
                def srt(axis=-1):
                    b = m.fn(a)
                    self.write(a, b)
                return B(srt)
            return B(lambda *x, **k: m.fn(a, *x, **k))
        raise Unsupported("ndarray attribute " + name)

    def attrs_np(self):
        return self.module("numpy").attrs

    def transpose(self, a, *axes):
        nd = len(a.shape)
        if axes and axes != (None,):
            perm = axes[0] if len(axes) == 1 and isinstance(axes[0], (tuple, PyList)) else axes
            perm = [self.I.cint(x) for x in (perm.items if isinstance(perm, PyList) else perm)]
        else:
            perm = list(range(nd))[::-1]
        inv = {p: i for i, p in enumerate(perm)}
        ax = tuple(x if x[0] == "fix" else ("sl", x[1], x[2], inv[x[3]]) for x in a.axes)
        return Arr(a.buf, ax, tuple(a.shape[p] for p in perm))

    # ------------------------------------------------------------------ functions
    def f_copy(self, a, order=None):
        if isinstance(a, Compressed):
            return a
        a = self.asarr(a)
        r = Arr(Buf(a.shape, a.reader(), a.dtype))
        if getattr(a, "invof", None):
            r.invof = a.invof
        return self.scalar_or(r) if not a.shape else r

    def f_astype(self, a, d):
        k = dt_of(d)
        return self.fresh(a.shape, self.cast(a.reader(), a.dtype, k), k)

    def f_ravel(self, a, order="C"):
        a = self.asarr(a)
        if order not in ("C", None) and len(a.shape) > 1:
            raise Unsupported("element order")
        if len(a.shape) == 1:
            return a
        if len(a.shape) == 0:
            return self.f_reshape(a, (1,))
        return self.f_reshape(a, (-1,))

    def f_reshape(self, a, *shape, order="C"):
        if order not in ("C", None):
            raise Unsupported("reshape order")
        a = self.asarr(a)
        s = shape[0] if len(shape) == 1 and isinstance(shape[0], (tuple, PyList)) else shape
        s = list(s.items if isinstance(s, PyList) else s)
        tot = ONE
        for x in a.shape:
            tot = T.mul(tot, x)
        neg = [i for i, x in enumerate(s) if isinstance(x, int) and x == -1]
        if neg:
            k = ONE
            for i, x in enumerate(s):
                if i not in neg:
                    k = T.mul(k, T.const(x))
            q = T.idiv(tot, k) if not (k.op == "c" and k.val == 1) else tot
            self.I.require(T.eq(T.mul(q, k), tot), "reshape sizes agree")
            s[neg[0]] = q
        else:
            k = ONE
            for x in s:
                k = T.mul(k, T.const(x))
            self.same_dim(k, tot)
        s = [T.const(x) for x in s]
        # drop/insert unit dims or general row-major
        r = a.reader()

        def fn(idx):
            flat = ZERO
            for i, d in zip(idx, s):
                flat = T.add(T.mul(flat, d), T.const(i))
            out = []
            rem = flat
            for d in reversed(a.shape[1:]):
                out.append(T.imod(rem, d))
                rem = T.idiv(rem, d)
            out.append(rem)
            return r(tuple(reversed(out))) if a.shape else r(())
        nu = lambda sh: [x for x in sh if not (x.op == "c" and x.val == 1)]
        if [x.id for x in nu(s)] == [x.id for x in nu(a.shape)]:
            pos = [i for i, x in enumerate(s) if not (x.op == "c" and x.val == 1)]

            def fn(idx):   # noqa: F811
                it = iter([idx[i] for i in pos])
                return r(tuple(ZERO if (x.op == "c" and x.val == 1) else next(it) for x in a.shape))
        out = self.fresh(s, fn, a.dtype)
        out.buf.readonly = True
        return out

    def f_concat(self, xs, axis=0):
        arrs = [self.asarr(x) for x in (self.I.tolist(xs))]
        ax = self.I.cint(axis)
        nd = len(arrs[0].shape)
        if ax < 0:
            ax += nd
        for a in arrs:
            if len(a.shape) != nd:
                raise PyRaise("ValueError", "dimensions of concatenated arrays")
            for d in range(nd):
                if d != ax:
                    self.same_dim(a.shape[d], arrs[0].shape[d])
        offs = [ZERO]
        for a in arrs:
            offs.append(T.add(offs[-1], a.shape[ax]))
        rs = [a.reader() for a in arrs]
        dt = dt_join(*[a.dtype for a in arrs])
        rs = [self.cast(r, a.dtype, dt) for r, a in zip(rs, arrs)]

        def fn(idx):
            k = idx[ax]

            def at(q):
                i = list(idx)
                i[ax] = T.sub(k, offs[q])
                return rs[q](tuple(i))
            r = at(len(rs) - 1)
            for q in range(len(rs) - 2, -1, -1):
                c = T.lt(k, offs[q + 1])
                if c is T.TRUE:
                    r = at(q)
                elif c is not T.FALSE:
                    r = T.ite(c, at(q), r)
            return r
        sh = list(arrs[0].shape)
        sh[ax] = offs[-1]
        return self.fresh(sh, fn, dt)

    def atleast2(self, a, col=False):
        a = self.asarr(a)
        if len(a.shape) == 0:
            return self.view(self.f_copy(self.fresh((1,), lambda idx: a.at(), a.dtype)), [None, SliceVal(None, None, None)])
        if len(a.shape) == 1:
            return self.view(a, [SliceVal(None, None, None), None] if col else [None, SliceVal(None, None, None)])
        return a

    def where(self, c, *ab):
        I = self.I
        if len(ab) == 2:
            def f(x, p, q):
                x = I.truth_term(x)
                if p.sort != q.sort:
                    p, q = T.toR(T.b2i(p)), T.toR(T.b2i(q))
                return T.ite(x, p, q)
            return self.elementwise(f, c, *ab)
        return self.nonzero(c)

    def nonzero(self, c):
        I = self.I
        if isinstance(c, (IndexSet, Compressed)):
            raise Unsupported("nonzero of a selection")
        a = self.asarr(c)
        if len(a.shape) != 1:
            raise Unsupported("where on a multi-dimensional condition")
        r = a.reader()
        n = cdim(a.shape[0])
        if n is not None:
            vals = [I.truth_term(r((T.const(i),))) for i in range(n)]
            if all(v.op == "c" for v in vals):
                xs = [T.const(i) for i, v in enumerate(vals) if v.val]
                return (self.table(xs, (len(xs),), "i"),)
        return (IndexSet(a.shape[0], lambda k: I.truth_term(r((k,)))),)

    def linspace(self, a, b, n=50, endpoint=True, retstep=False, dtype=None):
        I = self.I
        if dtype is not None and dt_of(dtype) != "f":
            raise Unsupported("linspace with a type")
        if isinstance(a, Special) or isinstance(b, Special):
            raise Unsupported("linspace of special values")
        A, B_ = T.toR(I.num(a)), T.toR(I.num(b))
        n = T.const(n)
        if n.sort != "I":
            raise PyRaise("TypeError", "linspace needs an integer count")
        div = T.sub(n, ONE) if endpoint is not False else n
        if n.op == "c" and n.val == 1 and endpoint is not False:
            arr = self.fresh((1,), lambda idx: A)
            return (arr, NAN) if retstep else arr
        I.require(T.lt(0, div), "linspace has at least two points")
        step = T.div(T.sub(B_, A), T.toR(div))
        arr = self.fresh((n,), lambda idx: T.add(A, T.mul(T.toR(T.const(idx[0])), step)))
        return (arr, step) if retstep else arr

    def arange(self, a, b=None, st=1, dtype=None):
        if b is None:
            a, b = 0, a
        a, b, st = T.const(a), T.const(b), T.const(st)
        if not (a.sort == b.sort == st.sort == "I"):
            if a.sort == "I" and st.sort == "I" and b.op == "c":
                b = T.const(-((-b.val.numerator) // b.val.denominator))
            else:
                raise Unsupported("arange of reals")
        if st.op != "c" or st.val == 0:
            raise Unsupported("arange step")
        _, _, _ = a, b, st
        s = int(st.val)
        d = T.sub(b, a) if s > 0 else T.sub(a, b)
        n = T.idiv(T.add(d, T.const(abs(s) - 1)), T.const(abs(s))) if abs(s) != 1 else d
        if n.op == "c":
            n = T.const(max(0, int(n.val)))
        elif not self.I.implied(T.le(0, n)):
            n = T.max_(n, ZERO)
        arr = self.fresh((n,), lambda idx: T.add(a, T.scale(Fraction(s), T.const(idx[0]))), "i")
        return self.f_astype(arr, dtype) if dtype is not None else arr

    def insert(self, a, pos, v, axis=None):
        a = self.asarr(a)
        if len(a.shape) != 1:
            raise Unsupported("insert")
        n = a.shape[0]
        if isinstance(pos, (PyList, Arr, tuple)):
            raise Unsupported("insert at several positions")
        p = T.const(pos)
        if p.op == "c" and p.val < 0:
            p = T.add(n, p)
        self.I.require(T.and_(T.le(0, p), T.le(p, n)), "insert position in range")
        r = a.reader()
        t = self.cast(lambda idx: self.I.num(v), self.dtype_of(v), a.dtype)
        return self.fresh((T.add(n, ONE),), lambda idx: T.ite(T.lt(idx[0], p), r(idx), T.ite(T.eq(idx[0], p), t(()), r((T.sub(idx[0], ONE),)))), a.dtype)

    def sort_terms(self, xs):
        xs = [T.const(x) for x in xs]
        n = len(xs)
        if n > 6 and not all(x.op == "c" for x in xs):
            raise Unsupported("sorting many symbolic values")
        if all(x.op == "c" for x in xs):
            return sorted(xs, key=lambda x: x.val)
        xs = [T.toR(T.b2i(x)) if any(y.sort == "R" for y in xs) else x for x in xs]
        for i in range(n):
            for j in range(n - 1 - i):
                a, b = xs[j], xs[j + 1]
                xs[j], xs[j + 1] = T.min_(a, b), T.max_(a, b)
        return xs

    # ------------------------------------------------------------------ legendre
    def leggauss(self, n):
        I = self.I
        n = T.const(n)
        if n.sort != "I":
            raise PyRaise("TypeError", "leggauss degree")
        I.require(T.lt(0, n), "leggauss degree is positive")
        I.note("leggauss(n): n distinct nodes in (-1,1) and positive weights, exact for degree 2n-1")
        return (self.fresh((n,), lambda idx: T.app("gx", n, idx[0])), self.fresh((n,), lambda idx: T.app("gw", n, idx[0])))

    def coefs(self, c):
        if isinstance(c, LegSeries):
            c = c.py_getattr("coef")
        a = self.asarr(c)
        n = cdim(a.shape[0]) if len(a.shape) == 1 else None
        if n is None:
            return None
        return [T.toR(T.b2i(a.at(i))) for i in range(n)]

    def legval(self, x, c, tensor=True):
        if isinstance(c, SymCoef):
            return self.elementwise(lambda t: c.s.fn(T.toR(T.b2i(t))), x)
        cs = self.coefs(c)
        if cs is None:
            a = self.asarr(c)
            if len(a.shape) == 1:
                r = a.reader()
                return self.elementwise(lambda t: self.sumover(a.shape[0], lambda k: T.mul(T.app("P", k, T.toR(t)), T.toR(r((k,))))), x)
            raise Unsupported("legval with array coefficients")
        return self.elementwise(lambda t: legval_term(cs, T.toR(T.b2i(t))), x)

    def legvander(self, x, deg):
        a = self.asarr(x)
        r = a.reader()
        d = T.const(deg)

        def fn(idx):
            k = idx[-1]
            xx = T.toR(r(tuple(idx[:-1])))
            if k.op == "c" and d.op == "c":
                return legval_term([0] * int(k.val) + [1], xx)
            return T.app("P", k, xx)
        return self.fresh(a.shape + (T.add(d, ONE),), fn, "f")

    def legfit(self, x, y, deg, **kw):
        """contract: with deg+1 == len(x) distinct nodes, the interpolant: sum_n P_n(x_g) c_n == y_g"""
        I = self.I
        if any(v is not None and v is not False for v in kw.values()):
            raise Unsupported("legfit options")
        ax, ay = self.asarr(x), self.asarr(y)
        n = T.const(ax.shape[0])
        self.same_dim(ay.shape[0], n)
        deg = T.const(deg)
        I.oblige("legfit: as many points as coefficients", T.eq(T.add(deg, ONE), n))
        rx, ry = ax.reader(), ay.reader()
        g = canon(0, "fit")
        if len(ay.shape) == 2:
            m = ay.shape[1]
            return self.fresh((T.add(deg, ONE), m), lambda idx: T.app("legfit", rx((g,)), ry((g, idx[1])), T.add(deg, ONE), idx[0]))
        tok = T.toR(ry((g,)))
        tx = rx((g,))
        return self.fresh((T.add(deg, ONE),), lambda idx: T.app("legfit", tx, tok, T.add(deg, ONE), idx[0]))

    def leg_convert(self, s, domain, window):
        np_ = self
        pr = lambda p, d: d if p is None else tuple(T.toR(self.I.num(q)) for q in self.I.tolist(p))
        d = pr(domain, (T.const(Fraction(-1)), T.const(Fraction(1))))
        w = pr(window, (T.const(Fraction(-1)), T.const(Fraction(1))))
        # identity(domain, window): off + scl*y with y the new window variable gives x in the domain
        off = T.div(T.sub(T.mul(w[1], d[0]), T.mul(w[0], d[1])), T.sub(w[1], w[0]))
        scl = T.div(T.sub(d[1], d[0]), T.sub(w[1], w[0]))
        p = leg2poly(s.coef)
        arg = [s.maparg(off), T.mul(s.slope(), scl) if s.domain != s.window else scl]
        if s.domain == s.window:
            arg = [off, scl]
        r = [RZ]
        for c in reversed(p):
            r = padd(pmul(r, arg), [c])
        r = r[:len(p)] if len(r) > len(p) else r
        return LegSeries(self, poly2leg(r), d, w)

    # ------------------------------------------------------------------ module table
    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        I = self.I
        if name == "numpy":
            m = Module("numpy", None, {})
            self.mods[name] = m
            self.fill(m.attrs)
            return m
        if name == "numpy.linalg":
            m = Module(name, None, {"inv": Builtin("inv", self.inv)})

            def solve(a, b):
                x = self.inv(a)
                return self.dot(x, b)
            m.attrs["solve"] = Builtin("solve", solve)
            self.mods[name] = m
            return m
        if name in ("numpy.polynomial", "numpy.polynomial.legendre"):
            leg = self.mods.get("numpy.polynomial.legendre")
            if leg is None:
                leg = Module("numpy.polynomial.legendre", None, {})
                self.mods["numpy.polynomial.legendre"] = leg
                B = lambda n, f: leg.attrs.__setitem__(n, Builtin(n, f))
                B("leggauss", self.leggauss)
                B("legval", self.legval)
                B("legfit", self.legfit)
                B("legvander", self.legvander)
                c = lambda x: self._needc(self.coefs(x))
                B("legmul", lambda a, b: self.vec(poly2leg(pmul(leg2poly(c(a)), leg2poly(c(b))))))
                B("legadd", lambda a, b: self.vec(padd(c(a), c(b))))
                B("legsub", lambda a, b: self.vec(padd(c(a), [-x for x in c(b)])))
                B("leg2poly", lambda a: self.vec(leg2poly(c(a))))
                B("poly2leg", lambda a: self.vec(poly2leg(c(a))))
                B("legder", lambda a, m=1: LegSeries(self, c(a)).py_getattr("deriv").fn(m).py_getattr("coef"))
                B("legint", lambda a, m=1: LegSeries(self, c(a)).py_getattr("integ").fn(m).py_getattr("coef"))
                leg.attrs["Legendre"] = LegClass(self)
            poly = Module("numpy.polynomial", None, {"legendre": leg, "Legendre": leg.attrs["Legendre"]})
            self.mods["numpy.polynomial"] = poly
            return self.mods[name]
        return Module(name, None, {"__unmodelled__": True})

    def _needc(self, x):
        if x is None:
            raise Unsupported("coefficients of symbolic length")
        return x

    def fill(self, d):
        I = self.I

        def B(names, f):
            for n in names.split():
                d[n] = Builtin(n, f)

        def shp(fn, dtype=None):
            def g(shape, *a, **k):
                raise Unsupported("constructor")
            return g

        def const_arr(v):
            def f(shape, dtype=None, order="C"):
                k = dt_of(dtype)
                t = T.const(Fraction(v)) if k == "f" else T.const(v) if k == "i" else T.const(bool(v))
                return self.fresh(self.shape_of(shape), lambda idx: t, k)
            return f
        B("zeros", const_arr(0))
        B("ones", const_arr(1))

        def empty(shape, dtype=None, order="C"):
            k = dt_of(dtype)
            nm = "uninit#%d" % (V.Cell._n + 1)
            srt = {"f": "R", "i": "I", "b": "B"}[k]
            return self.fresh(self.shape_of(shape), lambda idx: T.app(nm, *idx, sort=srt), k)
        B("empty", empty)

        def full(shape, v, dtype=None):
            t = self.asarr(v)
            k = dt_of(dtype) if dtype is not None else t.dtype
            r = self.cast(t.reader(), t.dtype, k)
            sh = self.shape_of(shape)
            return self.fresh(sh, lambda idx: r(self.bindex(t.shape, idx)), k)
        B("full", full)

        def like(v):
            def f(a, dtype=None, **kw):
                if isinstance(a, (Compressed, IndexSet)):
                    raise Unsupported("zeros_like of a selection")
                b = self.asarr(a)
                k = dt_of(dtype) if dtype is not None else b.dtype
                t = T.const(Fraction(v)) if k == "f" else T.const(v) if k == "i" else T.const(bool(v))
                return self.fresh(b.shape, lambda idx: t, k)
            return f
        B("zeros_like", like(0))
        B("ones_like", like(1))
        B("empty_like", lambda a, dtype=None: empty(tuple(self.asarr(a).shape), dtype or DType(self.asarr(a).dtype, "")))
        B("full_like", lambda a, v, dtype=None: full(tuple(self.asarr(a).shape), v, dtype or DType(self.asarr(a).dtype, "")))

        def array(v, dtype=None, copy=True, ndmin=0):
            if isinstance(v, tuple) and len(v) == 1 and isinstance(v[0], IndexSet):
                x = IndexSet(v[0].n, v[0].pred, v[0].shift)
                x.lead = True
                return x
            if isinstance(v, (IndexSet, Compressed)):
                return v
            if isinstance(v, (str, StrVal)):
                raise Unsupported("string array")
            a = self.asarr(v)
            if ndmin > len(a.shape):
                raise Unsupported("ndmin")
            if copy is not True and isinstance(v, Arr) and (dtype is None or dt_of(dtype) == v.dtype):
                return v
            r = self.fresh(a.shape, a.reader(), a.dtype)
            if dtype is not None:
                r = self.f_astype(r, dtype)
            return r
        B("array", array)

        def asarray(v, dtype=None):
            if isinstance(v, Arr) and (dtype is None or dt_of(dtype) == v.dtype):
                return v
            return array(v, dtype)
        B("asarray ascontiguousarray asanyarray", asarray)
        B("copy", lambda a, order=None: self.f_copy(a))
        B("dot", self.dot)

        def matmul(a, b):
            if any(len(self.asarr(x).shape) not in (1, 2) for x in (a, b)):
                raise Unsupported("matmul")
            return self.dot(a, b)
        B("matmul", matmul)

        def inner(a, b):
            if any(len(self.asarr(x).shape) > 1 for x in (a, b)):
                raise Unsupported("inner product of matrices")
            return self.dot(a, b)
        B("vdot inner", inner)
        B("einsum", lambda s, *o, **k: self.einsum(s, *o))
        B("outer", lambda a, b: self.einsum("i,j->ij", self.f_ravel(a), self.f_ravel(b)))
        B("transpose", lambda a, axes=None: self.transpose(self.asarr(a), *( () if axes is None else (axes,))))
        el = self.elementwise
        R = lambda t: T.toR(T.b2i(t))
        B("fabs", lambda a: el(lambda t: T.abs_(R(t)), a))
        B("abs absolute", lambda a: el(lambda t: T.abs_(T.b2i(t)), a) if not isinstance(a, Special) else I.builtins["abs"].fn(a))
        B("sqrt", lambda a: el(lambda t: T.sqrt(R(t)), a))
        B("square", lambda a: el(lambda t: T.mul(T.b2i(t), T.b2i(t)), a))
        B("negative", lambda a: el(lambda t: -T.b2i(t), a))
        B("reciprocal", lambda a: el(lambda t: T.div(T.const(Fraction(1)), R(t)), a))
        B("maximum fmax", lambda a, b: el(lambda s, t: T.max_(T.b2i(s), T.b2i(t)), a, b))
        B("minimum fmin", lambda a, b: el(lambda s, t: T.min_(T.b2i(s), T.b2i(t)), a, b))
        B("clip", lambda a, lo, hi: el(lambda s, l, h: T.min_(T.max_(T.b2i(s), T.b2i(l)), T.b2i(h)), a,
                                       lo if lo is not None else self._no("clip"), hi if hi is not None else self._no("clip")))
        for nm, op in (("add", "Add"), ("subtract", "Sub"), ("multiply", "Mult"), ("divide", "Div"), ("true_divide", "Div"),
                       ("power", "Pow"), ("mod", "Mod"), ("remainder", "Mod"), ("floor_divide", "FloorDiv")):
            def g(a, b, out=None, op=op):
                r = I.binop(op, a, b) if not isinstance(a, (PyList, tuple)) and not isinstance(b, (PyList, tuple)) else self.binary(op, a, b)
                if out is not None:
                    self.write(out, r)
                    return out
                return r
            B(nm, g)
        for nm in ("sin", "cos", "tan", "tanh", "exp", "log", "arctan", "arctan2", "sinh", "cosh", "arcsin", "arccos", "cbrt", "log10"):
            B(nm, lambda *a, nm=nm: el(lambda *t: T.app(nm, *[R(x) for x in t]), *a))

        def sign(t):
            t = T.b2i(t)
            one = T.const(1) if t.sort == "I" else T.const(Fraction(1))
            return T.ite(T.lt(0, t), one, T.ite(T.lt(t, 0), -one, one - one))
        B("sign", lambda a: el(sign, a))
        B("heaviside", lambda a, h: el(lambda t, q: T.ite(T.lt(0, R(t)), T.const(Fraction(1)), T.ite(T.lt(R(t), 0), RZ, R(q))), a, h))
        B("floor", lambda a: el(lambda t: T.toR(T.floor_(R(t))), a))
        B("ceil", lambda a: el(lambda t: T.toR(-T.floor_(-R(t))), a))
        B("rint round around", lambda a, decimals=0: I._unsup("rounding"))
        B("sum", lambda a, axis=None, keepdims=False, dtype=None: I._unsup("sum with a type") if dtype is not None and dt_of(dtype) == "i" else self.reduce_axis(self.uncompress_sum(a), axis, self.c_sum, keepdims))
        B("prod", lambda a, axis=None: self.reduce_axis(a, axis, self.c_prod))
        B("mean average", lambda a, axis=None, keepdims=False: self.f_mean(a, axis, keepdims))
        B("nanmax", lambda a, axis=None, keepdims=False: self.reduce_axis(a, axis, self.c_ext("nanmax"), keepdims))
        B("max amax", lambda a, axis=None, keepdims=False: self.reduce_axis(a, axis, self.c_ext("amax"), keepdims))
        B("min amin nanmin", lambda a, axis=None, keepdims=False: self.reduce_axis(a, axis, self.c_ext("amin"), keepdims))
        B("any", lambda a, axis=None: self.reduce_axis(a, axis, self.c_anyall("any")))
        B("all", lambda a, axis=None: self.reduce_axis(a, axis, self.c_anyall("all")))

        def cnz(a, axis=None):
            b = self.asarr(a)
            r = b.reader()
            c = self.fresh(b.shape, lambda idx: T.b2i(I.truth_term(r(idx))), "i")
            return self.reduce_axis(c, axis, self.c_sum)
        B("count_nonzero", cnz)
        B("linspace", self.linspace)
        B("arange", self.arange)
        B("where", self.where)
        B("nonzero", self.nonzero)
        B("flatnonzero", lambda a: self.nonzero(a)[0])

        def argwhere(a):
            return self.nonzero(a)[0]
        B("argwhere", argwhere)
        B("concatenate", lambda xs, axis=0: self.f_concat(xs, axis))
        B("append", lambda a, b, axis=None: self.f_concat((self.f_ravel(a) if axis is None else a, self.f_ravel(self.toarr1(b)) if axis is None else b), 0 if axis is None else axis))
        B("hstack", lambda xs: self.f_concat(PyList([self.at1(x) for x in I.tolist(xs)]),
                                              0 if len(self.at1(I.tolist(xs)[0]).shape) == 1 else 1))
        B("vstack row_stack", lambda xs: self.f_concat(PyList([self.atleast2(x) for x in I.tolist(xs)]), 0))
        B("column_stack", lambda xs: self.f_concat(PyList([self.atleast2(x, True) for x in I.tolist(xs)]), 1))

        def stack(xs, axis=0):
            its = [self.asarr(x) for x in I.tolist(xs)]
            a = self.asarr(PyList(its))
            ax = I.cint(axis)
            if ax < 0:
                ax += len(a.shape)
            if ax == 0:
                return a
            perm = list(range(1, len(a.shape)))
            perm.insert(ax, 0)
            return self.transpose(a, tuple(perm))
        B("stack", stack)
        B("atleast_1d", lambda a: self.at1(a))
        B("atleast_2d", lambda a: self.atleast2(a))
        d["c_"] = CObj(self)
        d["r_"] = RObj(self)
        d["newaxis"] = None
        B("insert", self.insert)

        def diag(v, k=0):
            a = self.asarr(v)
            r = a.reader()
            if k != 0:
                raise Unsupported("diag offset")
            if len(a.shape) == 1:
                n = a.shape[0]
                return self.fresh((n, n), lambda idx: T.ite(T.eq(idx[0], idx[1]), T.toR(r((idx[0],))), RZ), "f")
            return self.fresh((a.shape[0],), lambda idx: r((idx[0], idx[0])), a.dtype)
        B("diag", diag)
        B("eye identity", lambda n, M=None, dtype=None: self.fresh((n, n if M is None else M), lambda idx: T.ite(T.eq(idx[0], idx[1]), T.const(Fraction(1)), RZ)))

        def tile(a, reps):
            b = self.asarr(a)
            r = b.reader()
            if len(b.shape) == 1 and isinstance(reps, (int, T.Term)):
                n = b.shape[0]
                return self.fresh((T.mul(n, T.const(reps)),), lambda idx: r((T.imod(idx[0], n),)), b.dtype)
            raise Unsupported("tile")
        B("tile", tile)

        def repeat(a, reps, axis=None):
            b = self.asarr(a)
            r = b.reader()
            if len(b.shape) == 1 and isinstance(reps, int):
                return self.fresh((T.mul(b.shape[0], T.const(reps)),), lambda idx: r((T.idiv(idx[0], T.const(reps)),)), b.dtype)
            raise Unsupported("repeat")
        B("repeat", repeat)
        B("shape", lambda a: self.attr(self.asarr(a), "shape"))
        B("size", lambda a: self.attr(self.asarr(a), "size"))
        B("ndim", lambda a: len(self.asarr(a).shape))
        B("reshape", lambda a, s, order="C": self.f_reshape(a, s, order=order))
        B("ravel", self.f_ravel)
        B("flatten", lambda a, order="C": self.f_copy(self.f_ravel(a, order)))
        B("squeeze", self.f_squeeze)
        B("expand_dims", lambda a, axis: self.view(self.asarr(a), [None] + [SliceVal(None, None, None)] * len(self.asarr(a).shape)) if axis == 0 else
          self.view(self.asarr(a), [SliceVal(None, None, None)] * len(self.asarr(a).shape) + [None]) if axis in (-1, len(self.asarr(a).shape)) else self._no("expand_dims"))
        B("isnan", lambda a: a.name == "nan" if isinstance(a, Special) else el(lambda t: T.FALSE, a, dtype="b"))
        B("isinf", lambda a: a.name in ("inf", "-inf") if isinstance(a, Special) else el(lambda t: T.FALSE, a, dtype="b"))
        B("isfinite", lambda a: False if isinstance(a, Special) else el(lambda t: T.TRUE, a, dtype="b"))
        tt = I.truth_term
        B("logical_and", lambda a, b: el(lambda x, y: T.and_(tt(x), tt(y)), a, b, dtype="b"))
        B("logical_or", lambda a, b: el(lambda x, y: T.or_(tt(x), tt(y)), a, b, dtype="b"))
        B("logical_not invert", lambda a: el(lambda x: T.not_(tt(x)), a, dtype="b"))
        B("bitwise_and", lambda a, b: I.binop("BitAnd", a, b))
        B("bitwise_or", lambda a, b: I.binop("BitOr", a, b))
        for nm, op in (("greater", "Gt"), ("greater_equal", "GtE"), ("less", "Lt"), ("less_equal", "LtE"), ("equal", "Eq"), ("not_equal", "NotEq")):
            B(nm, lambda a, b, op=op: I.compare(op, a, b))
        B("isclose allclose array_equal", lambda *a, **k: I._unsup("approximate comparison"))

        def diff(a, n=1, axis=-1):
            b = self.asarr(a)
            if n != 1:
                raise Unsupported("repeated differences")
            nd = len(b.shape)
            ax = I.cint(axis) % nd
            ks1 = [SliceVal(None, None, None)] * nd
            ks2 = list(ks1)
            ks1[ax], ks2[ax] = SliceVal(1, None, None), SliceVal(None, -1, None)
            return self.binary("Sub", self.view(b, ks1), self.view(b, ks2))
        B("diff", diff)

        def roll(a, s, axis=None):
            b = self.asarr(a)
            r = b.reader()
            sh = T.const(s)
            nd = len(b.shape)
            if nd != 1 and axis is None:
                raise Unsupported("roll")
            ax = 0 if axis is None else I.cint(axis) % nd
            n = b.shape[ax]

            def fn(idx):
                i = list(idx)
                i[ax] = T.imod(T.sub(i[ax], sh), n)
                return r(tuple(i))
            return self.fresh(b.shape, fn, b.dtype)
        B("roll", roll)

        def npsort(a, axis=-1):
            b = self.asarr(a)
            n = cdim(b.shape[-1])
            if n is None or len(b.shape) > 2:
                raise Unsupported("sort")
            r = b.reader()
            if len(b.shape) == 1:
                return self.vec(self.sort_terms([r((T.const(i),)) for i in range(n)]), b.dtype)
            memo = {}

            def fn(idx):
                srt = self.sort_terms([r((idx[0], T.const(i))) for i in range(n)])
                return self.table(srt, (n,), b.dtype).at(idx[1])
            return self.fresh(b.shape, fn, b.dtype)
        B("sort", npsort)

        def median(a, axis=None):
            b = self.asarr(a)
            n = cdim(b.shape[0])
            if len(b.shape) != 1 or n is None:
                raise Unsupported("median")
            s = self.sort_terms([b.at(i) for i in range(n)])
            return simp(s[n // 2] if n % 2 else T.scale(Fraction(1, 2), T.add(s[n // 2 - 1], s[n // 2])))
        B("median", median)

        def cumsum(a, axis=None):
            b = self.asarr(a)
            n = cdim(b.shape[0])
            if len(b.shape) != 1 or n is None:
                raise Unsupported("cumsum")
            out, s = [], ZERO
            for i in range(n):
                s = T.add(s, b.at(i))
                out.append(s)
            return self.vec(out, b.dtype)
        B("cumsum", cumsum)

        def trapz(*a, **k):
            raise Unsupported("trapz")
        B("trapz", trapz)
        B("savetxt", lambda *a, **k: I.savetxt(*a, **k))
        B("loadtxt", lambda *a, **k: I.loadtxt(*a, **k))
        B("broadcast_to", lambda a, s: full(s, a))
        B("tril", lambda a, k=0: self.tri(a, k, True))
        B("triu", lambda a, k=0: self.tri(a, k, False))
        B("real", lambda a: a)
        B("float64 float_ float", lambda x=0: I.builtins["float"].fn(x))
        B("int64 int_ int32", lambda x=0: I.builtins["int"].fn(x))
        d["float64"].name = d["float_"].name = "float"
        d["int64"] = d["int_"] = d["int32"] = Builtin("int", lambda x=0: I.builtins["int"].fn(x))
        d["bool_"] = Builtin("bool", lambda x=0: I.builtins["bool"].fn(x))
        d["pi"] = T.var("pi")
        d["e"] = T.var("euler_e")
        d["nan"], d["inf"], d["NaN"], d["Inf"] = NAN, INF, NAN, INF
        d["ndarray"] = Builtin("ndarray", lambda *a: I._unsup("ndarray()"))
        d["linalg"] = self.module("numpy.linalg")
        d["polynomial"] = self.module("numpy.polynomial")
        d["math"] = Module("math", None, {})
        math_module(I, d["math"].attrs)

        def errstate(**k):
            return None
        B("errstate", errstate)
        B("seterr", lambda **k: None)
        B("vectorize", lambda f, **k: Builtin("vectorized", lambda *a: self.vectorize(f, a)))
        B("apply_along_axis", lambda *a: I._unsup("apply_along_axis"))
        B("set_printoptions", lambda **k: None)

    def tri(self, a, k, low):
        a = self.asarr(a)
        r = a.reader()
        k = T.const(k)
        return self.fresh(a.shape, lambda idx: T.ite(T.le(idx[1], T.add(idx[0], k)) if low else T.le(T.add(idx[0], k), idx[1]), T.toR(r(idx)), RZ))

    def vectorize(self, f, args):
        I = self.I

        def g(*ts):
            r = I.call(f, [simp(t) for t in ts])
            return T.const(r)
        return self.elementwise(g, *args)

    def toarr1(self, b):
        return self.at1(b)

    def at1(self, a):
        a = self.asarr(a)
        if len(a.shape) == 0:
            return self.fresh((1,), lambda idx: a.at(), a.dtype)
        return a

    def f_squeeze(self, a, axis=None):
        a = self.asarr(a)
        keep = [i for i, s in enumerate(a.shape) if not (s.op == "c" and s.val == 1)]
        ks = [SliceVal(None, None, None) if i in keep else 0 for i in range(len(a.shape))]
        v = self.view(a, ks)
        return v

    def uncompress_sum(self, a):
        if isinstance(a, Compressed):
            f, m = a.fn, a.mask
            return self.fresh(a.shape, lambda idx: T.ite(m(idx), T.toR(T.b2i(f(idx))), RZ))
        return a

    def c_prod(self, n, f):
        n = T.const(n)
        if n.op != "c":
            raise Unsupported("product of symbolic length")
        r = ONE
        for i in range(int(n.val)):
            r = T.mul(r, T.b2i(f(T.const(i))))
        return r

    def f_mean(self, a, axis, keepdims):
        a = self.asarr(a)
        s = self.reduce_axis(a, axis, self.c_sum, keepdims)
        if axis is None:
            n = ONE
            for x in a.shape:
                n = T.mul(n, x)
        else:
            n = a.shape[self.I.cint(axis)]
        return self.I.binop("Div", s, simp(n))


class LegClass:
    def __init__(self, np_):
        self.np = np_

    def py_call(self, coef, domain=None, window=None):
        np_ = self.np
        pr = lambda p: None if p is None else tuple(T.toR(np_.I.num(q)) for q in np_.I.tolist(p))
        if isinstance(coef, SymCoef):
            raise Unsupported("series from symbolic coefficients")
        cs = np_.coefs(coef)
        if cs is None:
            raise Unsupported("series of symbolic length")
        return LegSeries(np_, cs, pr(domain), pr(window))

    def py_getattr(self, n):
        np_ = self.np
        if n == "basis":
            def basis(deg, domain=None, window=None):
                deg = simp(deg)
                if isinstance(deg, int):
                    if deg < 0:
                        raise PyRaise("ValueError", "deg must be non-negative integer")
                    pr = lambda p: None if p is None else tuple(T.toR(np_.I.num(q)) for q in np_.I.tolist(p))
                    return LegSeries(np_, [0] * deg + [1], pr(domain), pr(window))
                if domain is not None or window is not None:
                    raise Unsupported("symbolic basis with a domain")
                return SymLeg(np_, T.const(deg))
            return Builtin("basis", basis)
        if n == "cast":
            return Builtin("cast", lambda s, domain=None, window=None: np_.leg_convert(s, domain, window))
        if n == "identity":
            def ident(domain=None, window=None):
                x = LegSeries(np_, [0, 1])
                return np_.leg_convert(x, domain, window)
            return Builtin("identity", ident)
        if n == "fit":
            raise Unsupported("Legendre.fit")
        raise Unsupported("Legendre." + n)


class CObj:
    def __init__(self, np_):
        self.np = np_

    def py_getitem(self, k):
        ks = k if isinstance(k, tuple) else (k,)
        return self.np.f_concat(PyList([self.np.atleast2(x, True) for x in ks]), 1)


class RObj:
    def __init__(self, np_):
        self.np = np_

    def py_getitem(self, k):
        ks = k if isinstance(k, tuple) else (k,)
        if any(isinstance(x, (SliceVal, str)) for x in ks):
            raise Unsupported("np.r_ slices")
        return self.np.f_concat(PyList([self.np.at1(x) for x in ks]), 0)


def rat_inv(M):
    n = len(M)
    A = [list(map(Fraction, r)) + [Fraction(int(i == j)) for j in range(n)] for i, r in enumerate(M)]
    for c in range(n):
        p = next((r for r in range(c, n) if A[r][c] != 0), None)
        if p is None:
            return None
        A[c], A[p] = A[p], A[c]
        iv = 1 / A[c][c]
        A[c] = [x * iv for x in A[c]]
        for r in range(n):
            if r != c and A[r][c] != 0:
                k = A[r][c]
                A[r] = [x - k * y for x, y in zip(A[r], A[c])]
    return [r[n:] for r in A]


def math_module(I, d):
    def B(names, f):
        for n in names.split():
            d[n] = Builtin(n, f)
    num = I.num
    R = lambda x: T.toR(num(x))

    def fact(n):
        n = simp(n)
        if isinstance(n, int):
            if n < 0:
                raise PyRaise("ValueError", "factorial of a negative number")
            return _math.factorial(n)
        return T.app("factorial", T.const(n), sort="I")
    B("factorial", fact)

    def fsum(xs):
        r = RZ
        for x in I.tolist(xs):
            r = T.add(r, R(x))
        return simp(r)
    B("fsum", fsum)

    def gamma_fn(x):
        raise Unsupported("gamma function")
    B("gamma lgamma", gamma_fn)
    B("sqrt", lambda x: simp(T.sqrt(R(x))))
    B("fabs", lambda x: simp(T.abs_(R(x))))
    B("pow", lambda x, y: simp(T.power(R(x), num(y))))
    B("floor", lambda x: simp(T.floor_(R(x)) if T.const(num(x)).sort == "R" else num(x)))
    B("ceil", lambda x: simp(-T.floor_(-R(x)) if T.const(num(x)).sort == "R" else num(x)))
    B("isnan", lambda x: x.name == "nan" if isinstance(x, Special) else False)
    B("isinf", lambda x: x.name != "nan" if isinstance(x, Special) else False)
    B("isfinite", lambda x: not isinstance(x, Special))
    B("comb", lambda n, k: _math.comb(I.cint(n), I.cint(k)))
    B("copysign", lambda x, y: simp(T.ite(T.le(0, R(y)), T.abs_(R(x)), -T.abs_(R(x)))))
    for nm in ("sin", "cos", "tan", "tanh", "exp", "log"):
        B(nm, lambda x, nm=nm: T.app(nm, R(x)))
    d["pi"] = T.var("pi")
    d["e"] = T.var("euler_e")
    d["inf"], d["nan"] = INF, NAN


# ---------------------------------------------------------------------------------------------- builtins
def make_builtins(I):
    from . import loops
    d = {}

    def B(names, f):
        for n in names.split():
            d[n] = Builtin(n, f)

    def seqlen(x):
        if isinstance(x, Arr):
            if not x.shape:
                raise PyRaise("TypeError", "len() of unsized object")
            return simp(x.shape[0])
        if isinstance(x, (tuple,)):
            return len(x)
        if isinstance(x, (PyList, PyDict)):
            return len(x.items)
        if isinstance(x, PySet):
            return len(x.d["items"])
        if isinstance(x, str):
            return len(x)
        if isinstance(x, SymSeq):
            if x.guard is not None:
                raise Unsupported("length of a guarded sequence")
            return simp(x.n)
        if isinstance(x, RangeVal):
            return simp(loops.as_seq(I, x).n)
        h = getattr(x, "py_len", None)
        if h is not None:
            return h()
        raise Unsupported("len of %r" % type(x).__name__)
    B("len", seqlen)

    def rng(*a):
        a = [simp(x) for x in a]
        for x in a:
            if isinstance(x, bool) or not (isinstance(x, int) or isinstance(x, T.Term) and x.sort == "I"):
                raise PyRaise("TypeError", "range() needs integers")
        if len(a) == 1:
            return RangeVal(0, a[0])
        if len(a) == 2:
            return RangeVal(a[0], a[1])
        if not isinstance(a[2], int):
            raise Unsupported("symbolic range step")
        if a[2] == 0:
            raise PyRaise("ValueError", "range step")
        return RangeVal(*a)
    B("range", rng)

    def absf(x):
        if isinstance(x, Arr):
            return I.np.elementwise(lambda t: T.abs_(T.b2i(t)), x)
        if isinstance(x, Special):
            return NAN if x.name == "nan" else INF
        if isinstance(x, int):
            return abs(x)
        return simp(T.abs_(I.num(x)))
    B("abs", absf)

    def mm(which):
        def f(*a, key=None, default=None):
            if key is not None:
                raise Unsupported("max/min key")
            if len(a) == 1:
                if isinstance(a[0], Arr) and cdim(a[0].shape[0]) is None:
                    return I.np.reduce_axis(a[0], None, I.np.c_ext("amax" if which else "amin"))
                xs = I.tolist(a[0])
            else:
                xs = list(a)
            if not xs:
                raise PyRaise("ValueError", "empty sequence")
            if all(isinstance(x, int) and not isinstance(x, bool) for x in xs):
                return max(xs) if which else min(xs)
            r = I.num(xs[0])
            for x in xs[1:]:
                r = T.max_(r, I.num(x)) if which else T.min_(r, I.num(x))
            return simp(r)
        return f
    B("max", mm(True))
    B("min", mm(False))

    def sumf(xs, start=0):
        if isinstance(xs, Compressed):
            xs = I.np.uncompress_sum(xs)
        s = loops.as_seq(I, xs)
        n = T.const(s.n)
        if n.op == "c":
            r = start
            for i in range(int(n.val)):
                r = I.binop("Add", r, s.item(T.const(i)))
            return r
        k = T.fresh("s", "I")
        pc = list(I.pc)
        I.assume(T.le(ZERO, k))
        I.assume(T.lt(k, n))
        v = s.item(k)
        rng = (T.le(ZERO, k), T.lt(k, n))
        if any(k in T.vars_of(c) and not any(c is r for r in rng) for c in I.pc[len(pc):]):
            raise Unsupported("sum whose terms branch")
        I.pc = [c for c in I.pc if k not in T.vars_of(c)]
        if isinstance(v, Arr):
            raise Unsupported("sum of arrays over a symbolic range")
        body = T.toR(I.num(v))
        if s.guard is not None:
            body = T.ite(s.guard(k), body, RZ)
        return simp(T.add(I.num(start), T.sum_(k, ZERO, n, body)))
    B("sum", sumf)

    def enum(x, start=0):
        s = loops.as_seq(I, x)
        g = s.guard
        if g is not None:
            raise Unsupported("enumerate of a guarded sequence")
        n = T.const(s.n)
        if n.op == "c":
            return tuple((simp(T.add(T.const(start), T.const(i))), s.item(T.const(i))) for i in range(int(n.val)))
        return SymSeq(n, lambda k: (simp(T.add(T.const(start), k)), s.item(k)))
    B("enumerate", enum)

    def zipf(*xs):
        ss = [loops.as_seq(I, x) for x in xs]
        if not ss:
            return ()
        n = T.const(ss[0].n)
        for s in ss[1:]:
            m = T.const(s.n)
            if m is not n:
                if m.op == "c" and n.op == "c":
                    n = T.const(min(int(n.val), int(m.val)))
                elif I.implied(T.le(n, m)):
                    pass
                elif I.implied(T.le(m, n)):
                    n = m
                else:
                    n = T.min_(n, m)
        if n.op == "c":
            return tuple(tuple(s.item(T.const(i)) for s in ss) for i in range(int(n.val)))
        return SymSeq(n, lambda k: tuple(s.item(k) for s in ss))
    B("zip", zipf)

    def mapf(f, *xs):
        if len(xs) == 1:
            s = loops.as_seq(I, xs[0])
            n = T.const(s.n)
            if n.op == "c":
                return PyList([I.call(f, [s.item(T.const(i))]) for i in range(int(n.val))])
            return SymSeq(n, lambda k: I.call(f, [s.item(k)]), s.guard)
        z = zipf(*xs)
        return PyList([I.call(f, list(t)) for t in z])
    B("map", mapf)
    B("filter", lambda f, xs: PyList([x for x in I.tolist(xs) if I.decide(I.truth_term(I.call(f, [x]) if f is not None else x))]))

    def rev(x):
        if isinstance(x, (tuple, PyList)):
            return PyList((x if isinstance(x, tuple) else x.items)[::-1])
        s = loops.as_seq(I, x)
        n = T.const(s.n)
        if n.op == "c":
            return PyList([s.item(T.const(i)) for i in range(int(n.val))][::-1])
        return SymSeq(n, lambda k: s.item(T.sub(T.sub(n, ONE), k)))
    B("reversed", rev)

    def srt(xs, key=None, reverse=False):
        its = I.tolist(xs)
        if key is not None:
            if all(isinstance(I.call(key, [x]), int) for x in its):
                its = sorted(its, key=lambda x: I.call(key, [x]))
                return PyList(its[::-1] if reverse else its)
            ks = [I.num(I.call(key, [x])) for x in its]
            if all(isinstance(x, (int, T.Term)) for x in its):
                # stable insertion by symbolic keys is only supported for two elements
                if len(its) == 2 and not reverse:
                    c = T.le(ks[0], ks[1])
                    return PyList([simp(T.ite(c, I.num(its[0]), I.num(its[1]))), simp(T.ite(c, I.num(its[1]), I.num(its[0])))])
            raise Unsupported("sorted by symbolic key")
        if all(isinstance(x, int) for x in its) or all(isinstance(x, str) for x in its):
            return PyList(sorted(its, reverse=bool(reverse)))
        out = [simp(t) for t in I.np.sort_terms([I.num(x) for x in its])]
        return PyList(out[::-1] if reverse else out)
    B("sorted", srt)

    def listf(x=()):
        s = x
        if isinstance(s, SymSeq) and T.const(s.n).op != "c":
            return s
        if isinstance(s, Arr) and cdim(s.shape[0]) is None:
            return loops.as_seq(I, s)
        if isinstance(s, RangeVal):
            q = loops.as_seq(I, s)
            if T.const(q.n).op != "c":
                return q
        if isinstance(s, str):
            return PyList(list(s))
        return PyList(I.tolist(s))
    B("list", listf)
    B("tuple", lambda x=(): tuple(I.tolist(x)) if not isinstance(x, str) else tuple(x))
    B("set frozenset", lambda x=(): PySet(dedupe(I.tolist(x))))

    def dedupe(xs):
        out = []
        for x in xs:
            if not any(I.hashkey(x) == I.hashkey(y) for y in out):
                out.append(x)
        return out

    def dictf(x=None, **kw):
        r = {}
        if isinstance(x, PyDict):
            r.update(x.items)
        elif x is not None:
            for k, v in [I.tolist(p) for p in I.tolist(x)]:
                r[I.hashkey(k)] = v
        r.update(kw)
        return PyDict(r)
    B("dict", dictf)

    def nxt(it, *default):
        h = getattr(it, "py_next", None)
        if h is not None:
            return h(*default)
        if not isinstance(it, Iterator):
            raise PyRaise("TypeError", "not an iterator")
        pos = T.const(it.d["pos"])
        c = T.lt(pos, T.const(it.n))
        if I.decide(c):
            v = it.item(pos)
            hset(it, "pos", simp(T.add(pos, ONE)))
            return v
        if default:
            return default[0]
        raise PyRaise("StopIteration")
    B("next", nxt)

    def iterf(x):
        if isinstance(x, Iterator) or hasattr(x, "py_next"):
            return x
        s = loops.as_seq(I, x)
        if s.guard is not None:
            raise Unsupported("iterator over a guarded sequence")
        return Iterator(s.n, s.item)
    B("iter", iterf)

    def intf(x=0, base=10):
        if isinstance(x, bool):
            return int(x)
        if isinstance(x, int):
            return x
        if isinstance(x, str):
            try:
                return int(x)
            except ValueError:
                raise PyRaise("ValueError", "invalid literal for int()")
        if isinstance(x, StrVal) or isinstance(x, T.Term) and x.sort == "S":
            return d["__strnum__"](x, "int")
        if isinstance(x, Special):
            raise PyRaise("ValueError", "cannot convert float to integer")
        if isinstance(x, Arr):
            return intf(simp(I.num(x)))
        return simp(I.np.trunc(I.num(x)))
    B("int", intf)

    def floatf(x=0):
        if isinstance(x, str):
            try:
                v = float(x)
            except ValueError:
                raise PyRaise("ValueError", "could not convert string to float")
            if v != v:
                return NAN
            if v in (float("inf"), float("-inf")):
                return INF if v > 0 else NINF
            return T.const(v)
        if isinstance(x, StrVal) or isinstance(x, T.Term) and x.sort == "S":
            return d["__strnum__"](x, "float")
        if isinstance(x, Special):
            return x
        return T.toR(I.num(x))
    B("float", floatf)

    def boolf(x=False):
        return simp(I.truth_term(x))
    B("bool", boolf)

    def strf(x=""):
        if isinstance(x, (str, StrVal)) or isinstance(x, T.Term) and x.sort == "S":
            return x
        if isinstance(x, (int, bool)):
            return str(x)
        return I.fmt(x, "") if isinstance(x, T.Term) else StrVal([("fmt", "", id(x))])
    B("str repr", strf)
    B("format", lambda x, spec="": I.fmt(x, spec))
    B("print", lambda *a, **k: I.hook("print", a) if False else None)
    B("isinstance", lambda x, c: isinst(x, c))

    def isinst(x, c):
        cs = c if isinstance(c, tuple) else (c,)
        for k in cs:
            n = k.name if isinstance(k, (Builtin, ClassVal)) else None
            if n is None:
                raise Unsupported("isinstance")
            if n == "bool" and (isinstance(x, bool) or isinstance(x, T.Term) and x.sort == "B"):
                return True
            if n == "int" and (isinstance(x, int) or isinstance(x, T.Term) and x.sort in "IB"):
                return True
            if n == "float" and (isinstance(x, Special) or isinstance(x, T.Term) and x.sort == "R"):
                return True
            if n == "str" and (isinstance(x, (str, StrVal)) or isinstance(x, T.Term) and x.sort == "S"):
                return True
            if n == "list" and isinstance(x, (PyList,)):
                return True
            if n == "tuple" and isinstance(x, tuple):
                return True
            if n == "dict" and isinstance(x, PyDict):
                return True
            if n == "ndarray" and isinstance(x, Arr):
                return True
            if isinstance(k, ClassVal) and isinstance(x, Obj) and x.cls is k:
                return True
        return False
    B("callable", lambda x: isinstance(x, (Func, Bound, Builtin, ClassVal)))

    def hasattr_(o, n):
        try:
            I.getattr(o, n)
            return True
        except PyRaise:
            return False
    B("hasattr", hasattr_)

    def getattr_(o, n, *dflt):
        try:
            return I.getattr(o, n)
        except PyRaise:
            if dflt:
                return dflt[0]
            raise
    B("getattr", getattr_)
    B("setattr", lambda o, n, v: I.setattr(o, n, v))
    B("id", lambda o: id(o))
    B("vars", lambda o: PyDict(dict(o.d)))
    B("any", lambda xs: I.np.reduce_axis(xs, None, I.np.c_anyall("any")) if isinstance(xs, Arr) else simp(T.or_(*[I.truth_term(x) for x in I.tolist(xs)])))
    B("all", lambda xs: I.np.reduce_axis(xs, None, I.np.c_anyall("all")) if isinstance(xs, Arr) else simp(T.and_(*[I.truth_term(x) for x in I.tolist(xs)])))
    B("pow", lambda a, b: I.binop("Pow", a, b))
    B("divmod", lambda a, b: (I.binop("FloorDiv", a, b), I.binop("Mod", a, b)))
    B("round", lambda *a: I._unsup("round"))
    B("slice", lambda *a: SliceVal(None, a[0], None) if len(a) == 1 else SliceVal(a[0], a[1], a[2] if len(a) > 2 else None))
    B("open", lambda *a, **k: I.open_(*a, **k))
    B("staticmethod", lambda f: f)
    B("property", lambda f: f)
    B("super", lambda *a: I._unsup("super()"))
    B("exit quit", lambda *a: sysexit(I, *a))
    d["object"] = ClassVal("object", Module("builtins", None, {}))
    d["__name__"] = "?"
    for e in ("Exception", "ValueError", "KeyError", "TypeError", "IndexError", "RuntimeError", "StopIteration", "AttributeError",
              "ZeroDivisionError", "NotImplementedError", "ArithmeticError", "FloatingPointError", "OverflowError", "OSError", "IOError",
              "AssertionError", "FileNotFoundError"):
        d[e] = Builtin(e, lambda *a, e=e: PyRaise(e, *[str(x) for x in a[:1]]))
    d["SystemExit"] = Builtin("SystemExit", lambda *a: SysExit(a[0] if a else None))
    d["NotImplemented"] = None
    from . import strmodel
    strmodel.install(I, d)

    def seqmethods(o, name):
        b = lambda f: Builtin(name, f)
        if isinstance(o, PyList):
            if name == "append":
                return b(lambda x: hset(o, "items", o.items + (x,)))
            if name == "extend":
                return b(lambda x: hset(o, "items", o.items + tuple(I.tolist(x))))
            if name == "sort":
                return b(lambda key=None, reverse=False: hset(o, "items", srt(o, key, reverse).items))
            if name == "copy":
                return b(lambda: PyList(o.items))
            if name == "reverse":
                return b(lambda: hset(o, "items", o.items[::-1]))
            if name == "index":
                def index(x):
                    for i, y in enumerate(o.items):
                        if I.decide(T.const(I.compare("Eq", x, y))):
                            return i
                    raise PyRaise("ValueError", "not in list")
                return b(index)
            if name == "count":
                return b(lambda x: simp(I.np.c_sum(len(o.items), lambda k: T.b2i(T.const(I.compare("Eq", x, o.items[int(k.val)]))))))
            if name == "pop":
                def pop(i=-1):
                    i = I.cint(i)
                    its = list(o.items)
                    if not its:
                        raise PyRaise("IndexError", "pop from empty list")
                    v = its.pop(i)
                    hset(o, "items", tuple(its))
                    return v
                return b(pop)
            if name == "insert":
                def ins(i, x):
                    its = list(o.items)
                    its.insert(I.cint(i), x)
                    hset(o, "items", tuple(its))
                return b(ins)
            if name == "clear":
                return b(lambda: hset(o, "items", ()))
            if name == "remove":
                def rem(x):
                    for i, y in enumerate(o.items):
                        if I.decide(T.const(I.compare("Eq", x, y))):
                            hset(o, "items", o.items[:i] + o.items[i + 1:])
                            return
                    raise PyRaise("ValueError")
                return b(rem)
        if isinstance(o, PyDict):
            if name == "get":
                def get(k, dflt=None):
                    if isinstance(k, T.Term) and k.sort == "S" and k.op != "c":
                        for c in list(o.items):
                            if isinstance(c, str) and I.decide(T.eq(k, T.const(c))):
                                return o.items[c]
                        return dflt
                    return o.items.get(I.hashkey(k), dflt)
                return b(get)
            if name == "keys":
                return b(lambda: PyList(list(o.items)))
            if name == "values":
                return b(lambda: PyList(list(o.items.values())))
            if name == "items":
                return b(lambda: PyList(list(o.items.items())))
            if name == "update":
                def upd(x=None, **kw):
                    r = dict(o.items)
                    r.update(dictf(x).items if x is not None else {})
                    r.update(kw)
                    hset(o, "items", r)
                return b(upd)
            if name == "copy":
                return b(lambda: PyDict(o.items))
            if name == "setdefault":
                def sd(k, v=None):
                    kk = I.hashkey(k)
                    if kk not in o.items:
                        r = dict(o.items)
                        r[kk] = v
                        hset(o, "items", r)
                    return o.items[kk]
                return b(sd)
            if name == "pop":
                def popd(k, *dflt):
                    kk = I.hashkey(k)
                    r = dict(o.items)
                    if kk in r:
                        v = r.pop(kk)
                        hset(o, "items", r)
                        return v
                    if dflt:
                        return dflt[0]
                    raise PyRaise("KeyError")
                return b(popd)
        if isinstance(o, PySet) and name == "add":
            return b(lambda x: hset(o, "items", tuple(dedupe(list(o.d["items"]) + [x]))))
        if isinstance(o, tuple) and name in ("index", "count"):
            return seqmethods(PyList(o), name)
        if isinstance(o, Iterator) and name == "__next__":
            return b(lambda: nxt(o))
        if isinstance(o, (PyList, tuple)) and name == "__len__":
            return b(lambda: seqlen(o))
        raise PyRaise("AttributeError", name) if isinstance(o, tuple) else Unsupported("method " + name)
    d["__seqmethods__"] = seqmethods
    return d


def sysexit(I, msg=None):
    raise SysExit(msg)


def user_memo(m):
    """the memo argument of copy.deepcopy: id(object) -> its copy"""
    r = {}
    if m is not None:
        for k, x in m.items.items():
            if not isinstance(k, int):
                raise Unsupported("deepcopy memo")
            r[k] = (x, None)
    return r


def deepcopy(I, v, memo=None):
    memo = {} if memo is None else memo
    if v is None or isinstance(v, (int, bool, str, T.Term, StrVal, Special, Func, Builtin, ClassVal, SliceVal, RangeVal, DType)):
        return v
    if id(v) in memo:
        return memo[id(v)][0]

    def put(r):
        memo[id(v)] = (r, v)
        return r
    if isinstance(v, Arr):
        r = Arr(Buf(v.shape, v.reader(), v.dtype))
        if getattr(v, "invof", None):
            r.invof = v.invof
        return put(r)
    if isinstance(v, Obj):
        m = v.cls.lookup("__deepcopy__") if v.cls else None
        if m is not None:
            return put(I.call(m, [v, PyDict()]))
        r = put(Obj(v.cls))
        for k, x in v.d.items():
            hset(r, k, deepcopy(I, x, memo))
        return r
    if isinstance(v, Bound):
        return put(Bound(deepcopy(I, v.self_, memo), v.fn))
    if isinstance(v, PyList):
        r = put(PyList())
        hset(r, "items", tuple(deepcopy(I, x, memo) for x in v.items))
        return r
    if isinstance(v, PyDict):
        r = put(PyDict())
        hset(r, "items", {k: deepcopy(I, x, memo) for k, x in v.items.items()})
        return r
    if isinstance(v, PySet):
        return put(PySet(v.d["items"]))
    if isinstance(v, tuple):
        return put(tuple(deepcopy(I, x, memo) for x in v))
    if isinstance(v, Iterator):
        r = Iterator(v.n, v.item)
        hset(r, "pos", v.d["pos"])
        return put(r)
    if isinstance(v, (SymSeq, LegSeries, SymLeg, SymProd)):
        return v
    if isinstance(v, (Maybe,)):
        return Maybe(v.cond, deepcopy(I, v.val, memo))
    if isinstance(v, Poison):
        return v
    h = getattr(v, "py_deepcopy", None)
    if h is not None:
        return put(h(memo))
    if isinstance(v, Module):
        raise PyRaise("TypeError", "cannot pickle 'module' object")
    raise Unsupported("deepcopy of %r" % type(v).__name__)


def shallow(I, v):
    if isinstance(v, Obj):
        r = Obj(v.cls)
        for k, x in v.d.items():
            hset(r, k, x)
        return r
    if isinstance(v, Arr):
        return I.np.f_copy(v)
    if isinstance(v, PyList):
        return PyList(v.items)
    if isinstance(v, PyDict):
        return PyDict(v.items)
    return v


class Opaque:
    """an environment object whose methods return opaque values (no effect on the verified state)"""
    def __init__(self, name):
        self.name = name

    def py_getattr(self, n):
        return Opaque(self.name + "." + n)

    def py_call(self, *a, **k):
        return Opaque(self.name + "()")

    def py_binop(self, op, other, swapped):
        return Opaque("(%s %s)" % (self.name, op))


def stdlib(I):
    B = lambda n, f: Builtin(n, f)
    m = {}

    def mod(name, **attrs):
        m[name] = Module(name, None, dict(attrs))
        return m[name]
    mathm = mod("math")
    math_module(I, mathm.attrs)
    mod("copy", deepcopy=B("deepcopy", lambda v, memo=None: deepcopy(I, v, user_memo(memo))), copy=B("copy", lambda v: shallow(I, v)))
    mod("sys", exit=B("exit", lambda msg=None: sysexit(I, msg)), path=PyList(), argv=PyList(["main.py"]),
        maxsize=(1 << 63) - 1, stdout=Opaque("stdout"), stderr=Opaque("stderr"),
        float_info=Opaque("float_info"))
    path = Module("os.path", None, {n: B(n, lambda *a, n=n: StrVal([("fmt", n, "path")])) for n in
                                    ("abspath", "join", "dirname", "basename", "realpath")})
    path.attrs["exists"] = B("exists", lambda p: I.hook("exists", p) if I.hooks.get("exists") else I._unsup("os.path.exists"))
    path.attrs["isfile"] = path.attrs["exists"]
    osm = mod("os", path=path, makedirs=B("makedirs", lambda *a, **k: I.hook("makedirs", *a)), getcwd=B("getcwd", lambda: "cwd"))
    m["os.path"] = path
    mod("time", time=B("time", lambda: T.fresh("clock")), perf_counter=B("perf_counter", lambda: T.fresh("clock")))
    mod("datetime", timedelta=B("timedelta", lambda **k: StrVal([("fmt", "", "timedelta")])))
    mod("subprocess", check_output=B("check_output", lambda *a, **k: StrVal([("fmt", "", "revision")])))
    mod("itertools", product=B("product", lambda *xs, repeat=1: PyList(_prod([I.tolist(x) for x in xs] * repeat))),
        chain=B("chain", lambda *xs: PyList([y for x in xs for y in I.tolist(x)])),
        count=B("count", lambda *a: I._unsup("itertools.count")),
        repeat=B("repeat", lambda x, n=None: PyList([x] * I.cint(n)) if n is not None else I._unsup("repeat")),
        islice=B("islice", lambda *a: I._unsup("islice")))
    mod("functools", reduce=B("reduce", lambda f, xs, *init: _reduce(I, f, xs, init)),
        partial=B("partial", lambda f, *a, **k: B("partial", lambda *b, **q: I.call(f, list(a) + list(b), dict(k, **q)))))
    ops = {"add": "Add", "sub": "Sub", "mul": "Mult", "truediv": "Div"}
    mod("operator", **{k: B(k, lambda a, b, o=o: I.binop(o, a, b)) for k, o in ops.items()})
    mod("warnings", warn=B("warn", lambda *a, **k: None), simplefilter=B("simplefilter", lambda *a, **k: None),
        filterwarnings=B("filterwarnings", lambda *a, **k: None))
    mod("argparse", ArgumentParser=B("ArgumentParser", lambda *a, **k: ArgParser(I)))
    mod("__future__", division=None, print_function=None, annotations=None)
    from . import strmodel
    m["re"] = strmodel.re_module(I)
    return m


def _prod(xs):
    import itertools
    return [tuple(t) for t in itertools.product(*xs)]


def _reduce(I, f, xs, init):
    its = I.tolist(xs)
    if init:
        r = init[0]
    else:
        r = its.pop(0)
    for x in its:
        r = I.call(f, [r, x])
    return r


class ArgParser:
    def __init__(self, I):
        self.I = I
        self.names = []

    def py_getattr(self, n):
        if n == "add_argument":
            def add(*flags, **k):
                dest = k.get("dest") or [f for f in flags if f.startswith("--")] or list(flags)
                dest = dest if isinstance(dest, str) else dest[0].lstrip("-").replace("-", "_")
                self.names.append((dest, k.get("default")))
            return Builtin("add_argument", add)
        if n == "parse_args":
            def parse(*a):
                o = Obj(None)
                for d, dflt in self.names:
                    o.d[d] = T.var("arg:" + d, "S")
                return o
            return Builtin("parse_args", parse)
        raise Unsupported("argparse " + n)
