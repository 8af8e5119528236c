"""Run-time values of the symbolic executor, and the heap with its undo trail."""
from . import terms as T


class Unsupported(Exception):
    """The code uses something outside the verified subset (translation failure, not a violation)."""


class PyRaise(Exception):
    def __init__(self, kind, msg="", value=None):
        Exception.__init__(self, "%s: %s" % (kind, msg))
        self.kind, self.msg, self.value = kind, msg, value


class SysExit(Exception):
    def __init__(self, msg=None):
        Exception.__init__(self, "sys.exit(%r)" % (msg,))
        self.msg = msg


class Infeasible(Exception):
    """current path condition is contradictory"""


class _Missing:
    def __repr__(self):
        return "MISSING"


MISSING = _Missing()


class Poison:
    """value of a variable that a loop iteration may not read (carried over from another iteration)"""
    def __init__(self, why, name=None):
        self.why, self.name = why, name

    def __repr__(self):
        return "Poison(%s)" % self.why


class Maybe:
    """defined only under cond"""
    def __init__(self, cond, val):
        self.cond, self.val = cond, val


TRAIL = []


class Cell:
    """anything mutable: all its state is in the dict d"""
    _n = 0

    def __init__(self):
        Cell._n += 1
        self.uid = Cell._n
        self.d = {}


def hset(cell, key, val):
    TRAIL.append((cell, key, cell.d.get(key, MISSING)))
    cell.d[key] = val


def hdel(cell, key):
    TRAIL.append((cell, key, cell.d.get(key, MISSING)))
    cell.d.pop(key, None)


def mark():
    return len(TRAIL)


def undo(m):
    while len(TRAIL) > m:
        cell, key, old = TRAIL.pop()
        if old is MISSING:
            cell.d.pop(key, None)
        else:
            cell.d[key] = old


def diff(m):
    """locations changed since mark: {(cell, key): (old, new)} in order"""
    out = {}
    for cell, key, old in TRAIL[m:]:
        k = (cell, key)
        if k not in out:
            out[k] = (old, None)
    return {(c, k): (o, c.d.get(k, MISSING)) for (c, k), (o, _) in out.items()}


class Frame(Cell):
    def __init__(self, parent=None, module=None, name=""):
        Cell.__init__(self)
        self.parent, self.module, self.name = parent, module, name
        self.globals = set()
        self.nonlocals = set()


class Obj(Cell):
    def __init__(self, cls=None):
        Cell.__init__(self)
        self.cls = cls


class PyList(Cell):
    def __init__(self, items=()):
        Cell.__init__(self)
        self.d["items"] = tuple(items)

    @property
    def items(self):
        return self.d["items"]


class PyDict(Cell):
    def __init__(self, items=None):
        Cell.__init__(self)
        self.d["items"] = dict(items or {})

    @property
    def items(self):
        return self.d["items"]


class PySet(Cell):
    def __init__(self, items=()):
        Cell.__init__(self)
        self.d["items"] = tuple(items)


class Buf(Cell):
    """array storage: content function from index terms to a term"""
    def __init__(self, shape, fn, dtype="f", name=None):
        Cell.__init__(self)
        self.shape = tuple(shape)
        self.dtype = dtype
        self.name = name
        self.d["c"] = memo_content(fn)

    @property
    def content(self):
        return self.d["c"]


def memo_content(fn):
    if getattr(fn, "_memo", None) is not None:
        return fn
    cache = {}

    def g(idx):
        k = tuple(t.id for t in idx)
        r = cache.get(k)
        if r is None:
            r = fn(idx)
            cache[k] = r
        return r
    g._memo = cache
    return g


class Arr:
    """view of a buffer. axes: per buffer axis ('fix', term) or ('sl', start, step, viewdim)"""
    def __init__(self, buf, axes=None, shape=None):
        self.buf = buf
        if axes is None:
            axes = tuple(("sl", T.const(0), 1, i) for i in range(len(buf.shape)))
            shape = buf.shape
        self.axes = tuple(axes)
        self.shape = tuple(T.const(s) for s in shape)

    @property
    def dtype(self):
        return self.buf.dtype

    @property
    def ndim(self):
        return len(self.shape)

    def bidx(self, idx):
        out = []
        for ax in self.axes:
            if ax[0] == "fix":
                out.append(ax[1])
            else:
                out.append(T.add(ax[1], T.scale(T.Fraction(ax[2]), idx[ax[3]]) if ax[2] != 1 else idx[ax[3]]))
        return tuple(out)

    def at(self, *idx):
        return self.buf.content(self.bidx(tuple(T.const(i) for i in idx)))

    def reader(self):
        """function reading the present content, immune to later writes"""
        c = self.buf.content
        axes = self.axes

        def g(idx):
            out = []
            for ax in axes:
                if ax[0] == "fix":
                    out.append(ax[1])
                elif ax[2] == 1:
                    out.append(T.add(ax[1], idx[ax[3]]))
                else:
                    out.append(T.add(ax[1], T.scale(T.Fraction(ax[2]), idx[ax[3]])))
            return c(tuple(out))
        return g

    def inverse(self, bidx):
        """buffer index -> (condition, view index or None per dim)"""
        cond = []
        vi = [None] * len(self.shape)
        for ax, b in zip(self.axes, bidx):
            if ax[0] == "fix":
                cond.append(T.eq(b, ax[1]))
            else:
                _, start, step, dim = ax
                n = self.shape[dim]
                off = T.sub(b, start)
                if step == 1:
                    k = off
                elif step > 1:
                    cond.append(T.eq(T.imod(off, T.const(step)), 0))
                    k = T.idiv(off, T.const(step))
                else:
                    off = T.sub(start, b)
                    cond.append(T.eq(T.imod(off, T.const(-step)), 0))
                    k = T.idiv(off, T.const(-step))
                cond.append(T.le(0, k))
                cond.append(T.lt(k, n))
                vi[dim] = k
        for i, v in enumerate(vi):
            if v is None:
                vi[i] = T.const(0)
        return T.and_(*cond), tuple(vi)


class Compressed:
    """a[mask] for a boolean mask: elementwise values over the full index space plus the mask"""
    def __init__(self, shape, mask, fn, dtype="f"):
        self.shape, self.mask, self.fn, self.dtype = shape, mask, fn, dtype


class IndexSet:
    """the increasing sequence of { k + shift : 0 <= k < n, pred(k) }"""
    def __init__(self, n, pred, shift=T.const(0)):
        self.n, self.pred, self.shift = n, pred, shift


class SymSeq:
    """a sequence of symbolic length; guard(k) selects the elements that exist"""
    def __init__(self, n, item, guard=None):
        self.n, self.item, self.guard = T.const(n), item, guard


class RangeVal:
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step


class SliceVal:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class Func:
    def __init__(self, node, frame, module, qual):
        self.node, self.frame, self.module, self.qual = node, frame, module, qual
        self.defaults = []
        self.kwdefaults = {}
        self.is_static = False
        self.is_class = False
        self.is_property = False

    def __repr__(self):
        return "<func %s>" % self.qual


class Bound:
    def __init__(self, self_, fn):
        self.self_, self.fn = self_, fn


class Builtin:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return "<builtin %s>" % self.name


class ClassVal(Cell):
    def __init__(self, name, module, bases=()):
        Cell.__init__(self)
        self.name, self.module, self.bases = name, module, bases

    def lookup(self, k):
        if k in self.d:
            return self.d[k]
        for b in self.bases:
            if isinstance(b, ClassVal):
                r = b.lookup(k)
                if r is not None:
                    return r
        return None


class Module:
    def __init__(self, name, frame=None, attrs=None):
        self.name, self.frame, self.attrs = name, frame, attrs or {}


class Iterator(Cell):
    """stateful iterator over a finite sequence (n, item)"""
    def __init__(self, n, item):
        Cell.__init__(self)
        self.n, self.item = n, item
        self.d["pos"] = 0


class StrVal:
    """string made of literal pieces and formatted values: parts = ['text', ('fmt', spec, value), ...]"""
    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, StrVal):
                out.extend(p.parts)
            elif isinstance(p, str):
                if p == "":
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                else:
                    out.append(p)
            else:
                out.append(p)
        m = []
        for p in out:
            if isinstance(p, str) and m and isinstance(m[-1], str):
                m[-1] += p
            else:
                m.append(p)
        self.parts = tuple(m)

    def key(self):
        return tuple(p if isinstance(p, str) else (p[0], p[1], p[2].id if isinstance(p[2], T.Term) else p[2])
                     for p in self.parts)

    def __repr__(self):
        return "StrVal%r" % (self.parts,)


class Special:
    """IEEE special values used in exhaustive case analyses"""
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


NAN = Special("nan")
INF = Special("inf")
NINF = Special("-inf")
