"""Symbolic executor for the Python subset used by dg1d, run on /repo's current source text.

State merging: both branches of a conditional are executed and joined with ite whenever their results can be
joined; otherwise the path splits (the caller re-executes with a recorded decision).  Loops over symbolic ranges
are summarised (map loops) or cut with havoc and inferred invariants (general loops).
"""
import ast
import os
from fractions import Fraction
from . import terms as T
from .values import *
from . import values as V
from .prove import quick, z3_check, relevant

Term = T.Term


class Outcome:
    def __init__(self, kind, value, pc, changes, lemmas=()):
        self.kind, self.value, self.pc, self.changes, self.lemmas = kind, value, pc, changes, tuple(lemmas)

    def __repr__(self):
        return "<%s %r pc=%s>" % (self.kind, self.value, [T.show(c, 6)[:80] for c in self.pc])


_guarded = {}
_fact_cache = {}
_imp_cache = {}


def guarded(c, q):
    """lemma q under condition c"""
    k = (c.id, q)
    r = _guarded.get(k)
    if r is None:
        def r(a):
            return [T.implies(c, f) for f in (q(a) or ())]
        _guarded[k] = r
    return r


class Obligation:
    def __init__(self, name, pc, goal, where, lemmas=()):
        self.name, self.pc, self.goal, self.where, self.lemmas = name, pc, goal, where, tuple(lemmas)


class NeedLoopHandler(Unsupported):
    pass


from .loops import LoopC as LoopCarried  # noqa: E402


def isnum(v):
    return isinstance(v, (int, bool)) or (isinstance(v, Term) and v.sort in "IRB")


def simp_num(t):
    """terms that are integer constants become Python ints"""
    if isinstance(t, Term) and t.op == "c" and t.sort == "I":
        return int(t.val)
    if isinstance(t, Term) and t.op == "c" and t.sort == "B":
        return bool(t.val)
    return t


class Interp:
    def __init__(self, root="/repo"):
        self.root = root
        self.modules = {}
        self.pc = []
        self.trace, self.tpos = [], 0
        self.alts = []
        self.obligations = []
        self.obset = set()
        self.contracts = {}
        self.skolem = []           # index variables of enclosing map loops
        self.loop_handlers = []
        self.lemmas = []           # callables app-term -> facts, used by quick checks
        self.depth = 0
        self.funcs_used = set()
        self.contracts_used = set()
        self.hooks = {}
        self.loopcache = {}
        self.surecache = {}
        self.notes = {}
        self.steps = 0
        self.step_limit = 4000000
        self.curline = None
        self.readlog = None
        self.vfs = None
        from .npmodel import NP, make_builtins, stdlib
        self.np = NP(self)
        self.builtins = make_builtins(self)
        self.std = stdlib(self)

    # ------------------------------------------------------------------ modules
    def module(self, name):
        m = self.modules.get(name)
        if m is None:
            m = self.load(name)
        return m

    def load(self, name, path=None, main=False):
        if path is None:
            path = os.path.join(self.root, *name.split(".")) + ".py"
        if not os.path.exists(path):
            raise Unsupported("module " + name)
        with open(path) as f:
            src = f.read()
        try:
            tree = ast.parse(src, path)
        except SyntaxError as e:
            raise Unsupported("syntax error in %s: %s" % (path, e))
        fr = Frame(name=name)
        m = Module(name, fr)
        fr.module = m
        fr.d["__name__"] = "__main__" if main else name
        fr.d["__file__"] = path
        m.tree = tree
        m.path = path
        self.modules[name] = m
        if not main:
            self.exec_block(tree.body, fr)
        return m

    def import_module(self, name):
        if name in self.std:
            return self.std[name]
        if name == "numpy" or name.startswith("numpy."):
            return self.np.module(name)
        if name.split(".")[0] == "dg1d":
            if name == "dg1d":
                return Module("dg1d", None, {})
            return self.module(name)
        if os.path.exists(os.path.join(self.root, "dg1d", name + ".py")):
            return self.module("dg1d." + name)
        return Module(name, None, {"__unmodelled__": True})

    # ------------------------------------------------------------------ ring simplification of scalars
    snorm = None
    inloop = 0          # depth of cut loops being executed

    def simplify_on(self):
        """bring scalar values into ring normal form as they are stored (facts: the path condition now, and the lemmas)"""
        from .prove import Prover
        self.snorm = Prover(list(self.pc), quants=list(self.lemmas)).norm(list(self.pc))
        self.smemo = {}

    def tidy(self, v):
        if self.snorm is None or not isinstance(v, Term) or v.sort != "R" or v.op in ("c", "v", "app") or T.size(v) < 8 or T.size(v) > 250:
            return v
        if any(x.op in ("ite", "max", "min") or x.op == "app" and x.val.startswith("loop") for x in T.subterms(v)):
            return v
        r = self.smemo.get(v.id)
        if r is None:
            try:
                r = self.snorm.term(self.snorm.rf(v))
            except Exception:
                r = v
            if T.size(r) > T.size(v):
                r = v
            self.smemo[v.id] = r
            self.smemo[r.id] = r
        return r

    # ------------------------------------------------------------------ path conditions
    def assume(self, c):
        c = T.const(c)
        if c is T.TRUE:
            return
        if c is T.FALSE:
            raise Infeasible()
        if c.op == "and":
            for a in c.args:
                self.assume(a)
            return
        if any(c is x for x in self.pc):
            return
        self.pc.append(c)

    def facts(self, ts):
        out, done = [], set()
        todo = list(ts)
        cache = _fact_cache
        for _ in range(2):
            apps = {}
            for t in todo:
                for a in T.all_apps(t):
                    if a.id not in done:
                        apps[a.id] = a
            if not apps:
                break
            todo = []
            done |= apps.keys()
            for aid in sorted(apps):
                a = apps[aid]
                for q in self.lemmas:
                    k = (q, aid)
                    fs = cache.get(k)
                    if fs is None:
                        fs = cache[k] = tuple(f for f in (q(a) or ()) if f is not T.TRUE)
                    if fs:
                        out += fs
                        todo += fs
        return out

    def implied(self, c, ms=150):
        c = T.const(c)
        if c.op == "c":
            return c.val
        for h in self.pc:
            if h is c:
                return True
        key = (tuple(h.id for h in self.pc), c.id, tuple(self.lemmas), ms)
        r = _imp_cache.get(key)
        if r is None:
            hy = relevant(self.pc, c)
            if self.lemmas:
                hy = hy + self.facts([c] + hy)
            r = _imp_cache[key] = quick(hy, c, ms)
        return r

    def surely(self, c, budget=4):
        """entailment with the full prover"""
        if self.implied(c):
            return True
        c = T.const(c)
        key = (tuple(h.id for h in self.pc), c.id, tuple(self.lemmas))
        r = self.surecache.get(key)
        if r is None:
            from .prove import Prover
            r = self.surecache[key] = Prover(list(self.pc), quants=list(self.lemmas), timeout=1500, budget=budget).prove(c).ok
        return r

    def require(self, c, name, value=None):
        """definedness obligation at this point, then assumed"""
        c = T.const(c)
        if c is T.TRUE:
            return
        self.oblige(name, c)
        if c is not T.FALSE and not any(c is x for x in self.pc):
            self.pc.append(c)

    def oblige(self, name, goal, pc=None):
        goal = T.const(goal)
        pc = tuple(self.pc) if pc is None else tuple(pc)
        key = (frozenset(p.id for p in pc), goal.id, name)
        if key in self.obset:
            return
        self.obset.add(key)
        self.obligations.append(Obligation(name, pc, goal, self.curline, self.lemmas))

    # ------------------------------------------------------------------ exploration
    def explore(self, thunk, limit=400):
        base_pc = list(self.pc)
        m = mark()
        saved = (self.trace, self.tpos, self.alts, self.skolem[:])
        outs = []
        stack = [[]]
        n = 0
        # the names met on a path are a function of the choices made: replaying a prefix meets the same terms
        T.next_id()
        scope = T.scope[:]
        nlem = len(self.lemmas)
        try:
            while stack:
                T.scope[:] = [T.place(("path",) + tuple(scope)), 0]
                prefix = stack.pop()
                n += 1
                if n > limit:
                    raise Unsupported("too many paths")
                self.trace, self.tpos, self.alts = prefix, 0, []
                self.pc = list(base_pc)
                try:
                    kind, val = "normal", None
                    try:
                        r = thunk()
                        if isinstance(r, tuple) and len(r) == 2 and r[0] in ("ret", "break", "continue", "normal"):
                            kind, val = r
                        else:
                            kind, val = "normal", r
                    except PyRaise as e:
                        kind, val = "raise", e
                    except SysExit as e:
                        kind, val = "exit", e
                    outs.append(Outcome(kind, val, tuple(self.pc[len(base_pc):]), diff(m), tuple(self.lemmas[nlem:])))
                except Infeasible:
                    pass
                finally:
                    undo(m)
                    del self.lemmas[nlem:]
                stack.extend(self.alts)
        finally:
            undo(m)
            T.scope[:] = scope
            del self.lemmas[nlem:]
            self.trace, self.tpos, self.alts, self.skolem = saved
            self.pc = base_pc
        return outs

    def choose(self, n, label=""):
        """nondeterministic choice among n, driven by the enclosing explore"""
        if n == 1:
            return 0
        if self.tpos < len(self.trace):
            r, n0 = self.trace[self.tpos]
            if n0 != n:
                raise Unsupported("replaying a path met %d alternatives instead of %d" % (n, n0))
            self.tpos += 1
            T.scope[:] = [T.place(("choice", r, n) + tuple(T.scope)), 0]
            return r
        for k in range(n - 1, 0, -1):
            self.alts.append(self.trace[:self.tpos] + [(k, n)])
        self.trace = self.trace[:self.tpos] + [(0, n)]
        self.tpos += 1
        T.scope[:] = [T.place(("choice", 0, n) + tuple(T.scope)), 0]
        return 0

    def decide(self, c):
        """branch on a condition (path split); used where no merge is attempted"""
        c = T.const(c)
        if c.op == "c":
            return bool(c.val)
        if self.implied(c):
            return True
        if self.implied(T.not_(c)):
            return False
        r = self.choose(2) == 0
        self.assume(c if r else T.not_(c))
        return r

    def apply(self, out):
        """make an explored outcome the current state"""
        for (cell, key), (old, new) in out.changes.items():
            if new is MISSING:
                hdel(cell, key)
            else:
                hset(cell, key, new)
        for c in out.pc:
            self.assume(c)
        self.lemmas += out.lemmas

    def finish(self, out):
        if out.kind == "raise":
            raise out.value
        if out.kind == "exit":
            raise out.value
        return (out.kind, out.value)

    # ------------------------------------------------------------------ merging
    def merge_outcomes(self, outs, fresh_mark=0):
        """join outcomes of the same kind where possible -> list of outcomes"""
        groups = []
        for o in outs:
            placed = False
            if o.kind in ("normal", "ret", "break", "continue"):
                for g in groups:
                    if g.kind == o.kind:
                        j = self.join(g, o)
                        if j is not None:
                            groups[groups.index(g)] = j
                            placed = True
                            break
            if not placed:
                groups.append(o)
        return groups

    def join(self, a, b):
        ca, cb = T.and_(*a.pc), T.and_(*b.pc)
        # common facts stay
        common = [x for x in a.pc if any(x is y for y in b.pc)]
        ra = [x for x in a.pc if not any(x is y for y in common)]
        rb = [x for x in b.pc if not any(x is y for y in common)]
        cond = T.and_(*ra)
        condb = T.and_(*rb)
        # choose the simpler side as the guard
        flip = False
        if T.size(condb) < T.size(cond):
            cond, condb = condb, cond
            a, b = b, a
            flip = True
        try:
            val = self.join_val(cond, a.value, b.value) if a.kind == "ret" else a.value
            changes = {}
            keys = list(a.changes) + [k for k in b.changes if k not in a.changes]
            for k in keys:
                cell, key = k
                cur = cell.d.get(key, MISSING)
                va = a.changes[k][1] if k in a.changes else cur
                vb = b.changes[k][1] if k in b.changes else cur
                if k not in a.changes and cell.uid > self.fresh_floor:
                    # cell created in branch b only
                    changes[k] = (MISSING, vb)
                    continue
                if k not in b.changes and cell.uid > self.fresh_floor:
                    changes[k] = (MISSING, va)
                    continue
                changes[k] = (cur, self.join_val(cond, va, vb, cell, key))
        except NoJoin:
            return None
        pc = tuple(common)
        rest = T.or_(cond, condb)
        if rest is not T.TRUE and not self.implied(rest, 60):
            pc = pc + (rest,)
        lem = tuple(guarded(cond, q) for q in a.lemmas if q not in b.lemmas) + \
            tuple(guarded(condb, q) for q in b.lemmas if q not in a.lemmas) + tuple(q for q in a.lemmas if q in b.lemmas)
        return Outcome(a.kind, val, pc, changes, lem)

    fresh_floor = 1 << 60

    def join_val(self, c, a, b, cell=None, key=None):
        if a is b:
            return a
        if isinstance(a, (bool, int)) and isinstance(b, (bool, int)) and type(a) == type(b) and a == b:
            return a
        if isinstance(a, str) and isinstance(b, str):
            if a == b:
                return a
            raise NoJoin()
        if isnum(a) and isnum(b):
            ta, tb = T.const(a), T.const(b)
            if (ta.sort == "B") != (tb.sort == "B"):
                raise NoJoin()
            return simp_num(T.ite(c, ta, tb))
        if isinstance(cell, Buf) and key == "c":
            fa, fb = a, b
            return memo_content(lambda idx: T.ite(c, fa(idx), fb(idx)))
        if isinstance(a, Arr) and isinstance(b, Arr):
            if a.buf is b.buf and a.axes == b.axes:
                return a
            if len(a.shape) == len(b.shape) and a.shape == b.shape and a.dtype == b.dtype \
                    and a.buf.uid > self.fresh_floor and b.buf.uid > self.fresh_floor:
                ra, rb = a.reader(), b.reader()
                return Arr(Buf(a.shape, lambda idx: T.ite(c, ra(idx), rb(idx)), a.dtype))
            raise NoJoin()
        if isinstance(a, (tuple,)) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.join_val(c, x, y) for x, y in zip(a, b))
        if isinstance(a, PyList) and isinstance(b, PyList) and len(a.items) == len(b.items) \
                and a.uid > self.fresh_floor and b.uid > self.fresh_floor:
            return PyList([self.join_val(c, x, y) for x, y in zip(a.items, b.items)])
        am = a is MISSING or isinstance(a, (Poison, Maybe))
        bm = b is MISSING or isinstance(b, (Poison, Maybe))
        if am or bm:
            if (a is MISSING or isinstance(a, Poison)) and (b is MISSING or isinstance(b, Poison)):
                return Poison("undefined or carried over", getattr(a, "name", None) or getattr(b, "name", None))
            if a is MISSING or isinstance(a, Poison):
                if isinstance(b, Maybe):
                    return Maybe(T.and_(T.not_(c), b.cond), b.val)
                return Maybe(T.not_(c), b)
            if b is MISSING or isinstance(b, Poison):
                if isinstance(a, Maybe):
                    return Maybe(T.and_(c, a.cond), a.val)
                return Maybe(c, a)
            ca = a.cond if isinstance(a, Maybe) else T.TRUE
            cb = b.cond if isinstance(b, Maybe) else T.TRUE
            va = a.val if isinstance(a, Maybe) else a
            vb = b.val if isinstance(b, Maybe) else b
            v = self.join_val(c, va, vb)
            cc = T.or_(T.and_(c, ca), T.and_(T.not_(c), cb))
            return v if cc is T.TRUE else Maybe(cc, v)
        if a is None and b is None:
            return None
        if isinstance(a, Bound) and isinstance(b, Bound) and a.fn is b.fn and a.self_ is b.self_:
            return a
        if isinstance(a, StrVal) and isinstance(b, StrVal) and a.key() == b.key():
            return a
        raise NoJoin()

    def branch(self, cond, then, other):
        """execute then()/other() under cond, merging where possible; returns the signal of the chosen outcome"""
        c = T.const(cond)
        if c.op == "c":
            return then() if c.val else other()
        if self.implied(c):
            self.assume(c)
            return then()
        if self.implied(T.not_(c)):
            self.assume(T.not_(c))
            return other()
        old_floor = self.fresh_floor
        floor = V.Cell._n

        def run(lit, f):
            def th():
                self.assume(lit)
                r = f()
                return r if r is not None else ("normal", None)
            return th
        o1 = self.explore(run(c, then))
        o2 = self.explore(run(T.not_(c), other))
        self.fresh_floor = floor
        try:
            groups = self.merge_outcomes(o1 + o2)
        finally:
            self.fresh_floor = old_floor
        if not groups:
            raise Infeasible()
        k = self.choose(len(groups))
        g = groups[k]
        self.apply(g)
        if g.kind in ("raise", "exit"):
            raise g.value
        return None if g.kind == "normal" else (g.kind, g.value)

    # ------------------------------------------------------------------ variables
    def lookup(self, frame, name):
        f = frame
        if name in f.globals:
            f = frame.module.frame
        while f is not None:
            if name in f.d:
                return self.defined(f.d[name], name)
            if name in getattr(f, "locals_", ()) and f.parent is not None and f is frame:
                raise PyRaise("UnboundLocalError", name)
            f = f.parent
        if name in self.builtins:
            return self.builtins[name]
        raise PyRaise("NameError", name)

    def defined(self, v, name):
        if isinstance(v, Maybe):
            self.require(v.cond, "variable '%s' is assigned before use" % name)
            return v.val
        if isinstance(v, Poison):
            raise LoopCarried("'%s': %s" % (name, v.why), v.name)
        return v

    def store(self, frame, name, val):
        if name in frame.globals:
            hset(frame.module.frame, name, val)
            return
        if name in frame.nonlocals:
            f = frame.parent
            while f is not None and name not in f.d:
                f = f.parent
            hset(f or frame, name, val)
            return
        hset(frame, name, val)

    # ------------------------------------------------------------------ statements
    def exec_block(self, body, fr):
        i = 0
        n = len(body)
        while i < n:
            r = self.exec(body[i], fr)
            if r is not None:
                return r
            i += 1
        return None

    def exec(self, s, fr):
        self.steps += 1
        if self.steps > self.step_limit:
            raise Unsupported("step limit")
        self.curline = (fr.module.name if fr.module else "?", getattr(s, "lineno", 0))
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement " + type(s).__name__)
        return m(s, fr)

    def x_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return None
        self.eval(s.value, fr)

    def x_Pass(self, s, fr):
        return None

    def x_Return(self, s, fr):
        return ("ret", self.tidy(self.eval(s.value, fr)) if s.value is not None else None)

    def x_Break(self, s, fr):
        return ("break", None)

    def x_Continue(self, s, fr):
        return ("continue", None)

    def x_Global(self, s, fr):
        fr.globals |= set(s.names)

    def x_Nonlocal(self, s, fr):
        fr.nonlocals |= set(s.names)

    def x_Import(self, s, fr):
        for a in s.names:
            m = self.import_module(a.name)
            if a.asname:
                self.store(fr, a.asname, m)
            else:
                top = a.name.split(".")[0]
                if top == a.name:
                    self.store(fr, top, m)
                elif top == "numpy":
                    self.store(fr, top, self.np.module("numpy"))
                else:
                    pkg = fr.d.get(top)
                    if not isinstance(pkg, Module):
                        pkg = Module(top, None, {})
                    pkg.attrs[a.name.split(".")[1]] = m
                    self.store(fr, top, pkg)

    def x_ImportFrom(self, s, fr):
        base = s.module or ""
        if s.level:
            base = "dg1d" + ("." + base if base else "")
        for a in s.names:
            if base == "dg1d":
                v = self.import_module("dg1d." + a.name)
            else:
                m = self.import_module(base)
                v = self.getattr(m, a.name)
            self.store(fr, a.asname or a.name, v)

    def x_FunctionDef(self, s, fr):
        f = self.mkfunc(s, fr)
        v = f
        for d in reversed(s.decorator_list):
            dn = d.id if isinstance(d, ast.Name) else None
            if dn == "staticmethod":
                f.is_static = True
            elif dn == "classmethod":
                f.is_class = True
            elif dn == "property":
                f.is_property = True
            else:
                v = self.call(self.eval(d, fr), [v], {})
        self.store(fr, s.name, v)

    def mkfunc(self, s, fr, name=None):
        q = (fr.name + "." if fr.name else "") + (name or s.name)
        f = Func(s, fr if not getattr(fr, "isclass", False) else fr.parent, fr.module, q)
        f.defaults = [self.eval(d, fr) for d in s.args.defaults]
        f.kwdefaults = {a.arg: self.eval(d, fr) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}
        return f

    def x_ClassDef(self, s, fr):
        cf = Frame(parent=fr, module=fr.module, name=(fr.name + "." if fr.name else "") + s.name)
        cf.isclass = True
        self.exec_block(s.body, cf)
        bases = [self.eval(b, fr) for b in s.bases]
        c = ClassVal(s.name, fr.module, [b for b in bases if isinstance(b, ClassVal)])
        for k, v in cf.d.items():
            c.d[k] = v
        self.store(fr, s.name, c)

    def x_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def x_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr), fr)

    def x_AugAssign(self, s, fr):
        op = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(fr, t.id)
            if isinstance(cur, Arr):
                self.np.inplace(op, cur, self.eval(s.value, fr))
                return
            if isinstance(cur, PyList) and op == "Add":
                hset(cur, "items", cur.items + tuple(self.tolist(self.eval(s.value, fr))))
                return
            self.store(fr, t.id, self.tidy(self.binop(op, cur, self.eval(s.value, fr))))
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            cur = self.getattr(o, t.attr)
            v = self.eval(s.value, fr)
            if isinstance(cur, Arr):
                self.np.inplace(op, cur, v)
                self.setattr(o, t.attr, cur)
                return
            if isinstance(cur, PyList) and op == "Add":
                hset(cur, "items", cur.items + tuple(self.tolist(v)))
                return
            self.setattr(o, t.attr, self.binop(op, cur, v))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            k = self.eval_index(t.slice, fr)
            cur = self.getitem(o, k)
            v = self.eval(s.value, fr)
            if isinstance(cur, Arr) and isinstance(o, Arr):
                # view: in-place on the view; advanced results never reach here as Arr views
                self.np.inplace(op, cur, v)
                return
            if isinstance(cur, Arr):
                self.np.inplace(op, cur, v)
                return
            self.setitem(o, k, self.binop(op, cur, v))
        else:
            raise Unsupported("augmented assignment target")

    def x_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                hdel(fr, t.id)
            else:
                raise Unsupported("del")

    def x_If(self, s, fr):
        c = self.truth_term(self.eval(s.test, fr))
        return self.branch(c, lambda: self.exec_block(s.body, fr), lambda: self.exec_block(s.orelse, fr))

    def x_Assert(self, s, fr):
        c = self.truth_term(self.eval(s.test, fr))
        if not self.decide(c):
            raise PyRaise("AssertionError")

    def x_Raise(self, s, fr):
        if s.exc is None:
            raise PyRaise("Exception", "re-raise")
        e = self.eval(s.exc, fr)
        if isinstance(e, PyRaise):
            raise e
        if isinstance(e, Builtin):
            e = e.fn()
        if isinstance(e, (PyRaise, SysExit)):
            raise e
        raise Unsupported("raise")

    def x_Try(self, s, fr):
        try:
            r = self.exec_block(s.body, fr)
            if r is None and s.orelse:
                r = self.exec_block(s.orelse, fr)
        except PyRaise as e:
            for h in s.handlers:
                names = []
                if h.type is None:
                    names = ["Exception"]
                elif isinstance(h.type, ast.Name):
                    names = [h.type.id]
                elif isinstance(h.type, ast.Tuple):
                    names = [x.id for x in h.type.elts if isinstance(x, ast.Name)]
                if "Exception" in names or "BaseException" in names or e.kind in names or \
                        (e.kind in ("KeyError", "IndexError") and "LookupError" in names):
                    if h.name:
                        self.store(fr, h.name, e)
                    self.hook("caught", e)
                    r = self.exec_block(h.body, fr)
                    break
            else:
                raise
        if s.finalbody:
            r2 = self.exec_block(s.finalbody, fr)
            r = r2 if r2 is not None else r
        return r

    def x_With(self, s, fr):
        for it in s.items:
            v = self.eval(it.context_expr, fr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
        r = self.exec_block(s.body, fr)
        for it in s.items:
            pass
        return r

    def hook(self, name, *a):
        h = self.hooks.get(name)
        if h:
            return h(*a)

    # loops -----------------------------------------------------------
    def x_While(self, s, fr):
        from . import loops
        return loops.while_loop(self, s, fr)

    def x_For(self, s, fr):
        from . import loops
        return loops.for_loop(self, s, fr)

    # ------------------------------------------------------------------ assignment
    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store(fr, t.id, self.tidy(v))
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            items = self.tolist(v)
            if star:
                k = star[0]
                after = len(t.elts) - k - 1
                if len(items) < len(t.elts) - 1:
                    raise PyRaise("ValueError", "not enough values to unpack")
                mid = items[k:len(items) - after]
                for e, x in zip(t.elts[:k], items[:k]):
                    self.assign(e, x, fr)
                self.assign(t.elts[k].value, PyList(mid), fr)
                for e, x in zip(t.elts[k + 1:], items[len(items) - after:]):
                    self.assign(e, x, fr)
                return
            if len(items) != len(t.elts):
                raise PyRaise("ValueError", "unpack")
            for e, x in zip(t.elts, items):
                self.assign(e, x, fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            self.setitem(o, self.eval_index(t.slice, fr), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)
        else:
            raise Unsupported("assignment target")

    # ------------------------------------------------------------------ expressions
    def eval(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression " + type(e).__name__)
        return m(e, fr)

    def e_Constant(self, e, fr):
        v = e.value
        if isinstance(v, float):
            if v != v or v in (float("inf"), float("-inf")):
                return NAN if v != v else (INF if v > 0 else NINF)
            return T.const(v)
        if isinstance(v, (bool, int, str)) or v is None:
            return v
        if v is Ellipsis:
            return Ellipsis
        raise Unsupported("constant")

    def e_Name(self, e, fr):
        return self.lookup(fr, e.id)

    def e_Tuple(self, e, fr):
        return tuple(self.elts(e.elts, fr))

    def e_List(self, e, fr):
        return PyList(self.elts(e.elts, fr))

    def e_Set(self, e, fr):
        return PySet(self.elts(e.elts, fr))

    def elts(self, es, fr):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out.extend(self.tolist(self.eval(x.value, fr)))
            else:
                out.append(self.eval(x, fr))
        return out

    def e_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.eval(v, fr).items)
            else:
                d[self.hashkey(self.eval(k, fr))] = self.eval(v, fr)
        return PyDict(d)

    def hashkey(self, k):
        if isinstance(k, (str, int, bool)) or k is None:
            return k
        if isinstance(k, tuple):
            return tuple(self.hashkey(x) for x in k)
        if isinstance(k, Term) and k.op == "c":
            return k.val
        raise Unsupported("dictionary key %r" % (k,))

    def e_Attribute(self, e, fr):
        return self.getattr(self.eval(e.value, fr), e.attr)

    def e_Subscript(self, e, fr):
        o = self.eval(e.value, fr)
        return self.getitem(o, self.eval_index(e.slice, fr))

    def eval_index(self, s, fr):
        if isinstance(s, ast.Slice):
            g = lambda x: None if x is None else self.eval(x, fr)
            return SliceVal(g(s.lower), g(s.upper), g(s.step))
        if isinstance(s, ast.Tuple):
            return tuple(self.eval_index(x, fr) for x in s.elts)
        return self.eval(s, fr)

    def e_Slice(self, e, fr):
        return self.eval_index(e, fr)

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        op = type(e.op).__name__
        if op == "Not":
            t = self.truth_term(v)
            return simp_num(T.not_(t))
        return self.unop(op, v)

    def unop(self, op, v):
        if isinstance(v, (Arr, Compressed, IndexSet)):
            return self.np.unary(op, v)
        h = getattr(v, "py_neg", None)
        if h is not None and op == "USub":
            return h()
        if op == "USub":
            if isinstance(v, Special):
                return {"nan": NAN, "inf": NINF, "-inf": INF}[v.name]
            if isinstance(v, (int, bool)):
                return -v
            return simp_num(-self.num(v))
        if op == "UAdd":
            return v
        if op == "Invert":
            if isinstance(v, Term) and v.sort == "B":
                return T.not_(v)
            if isinstance(v, int) and not isinstance(v, bool):
                return ~v
        raise Unsupported("unary " + op)

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        res = None
        acc = None
        for k, x in enumerate(e.values):
            # conditional evaluation of later operands: they are pure in the subset; definedness is guarded
            v = self.eval(x, fr)
            if not isinstance(v, (bool, Term)):
                t = self.truth_term(v)
                if t.op == "c":
                    if isand and not t.val:
                        return v if acc is None else False
                    if not isand and t.val:
                        return v if acc is None else simp_num(T.or_(acc, t))
                    if k == len(e.values) - 1 and acc is None:
                        return v
                    continue
            t = self.truth_term(v)
            if t.op == "c":
                if isand and not t.val:
                    return False
                if not isand and t.val:
                    return True
                continue
            acc = t if acc is None else (T.and_(acc, t) if isand else T.or_(acc, t))
        if acc is None:
            return isand
        return simp_num(acc)

    def e_IfExp(self, e, fr):
        c = self.truth_term(self.eval(e.test, fr))
        if c.op == "c":
            return self.eval(e.body if c.val else e.orelse, fr)
        tmp = Frame(parent=fr, module=fr.module, name=fr.name)
        r = self.branch(c, lambda: ("ret", self.eval(e.body, fr)), lambda: ("ret", self.eval(e.orelse, fr)))
        return r[1]

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        acc = None
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, fr)
            c = self.compare(type(op).__name__, left, right)
            if acc is None:
                acc = c
            else:
                if isinstance(c, (bool, Term)) and isinstance(acc, (bool, Term)):
                    acc = simp_num(T.and_(T.const(acc), T.const(c)))
                else:
                    raise Unsupported("chained comparison")
            left = right
        return acc

    def e_BinOp(self, e, fr):
        return self.binop(type(e.op).__name__, self.eval(e.left, fr), self.eval(e.right, fr))

    def e_Lambda(self, e, fr):
        node = ast.FunctionDef(name="<lambda>", args=e.args, body=[ast.Return(value=e.body, lineno=e.lineno)],
                               decorator_list=[], lineno=e.lineno)
        return self.mkfunc(node, fr, "<lambda>")

    def e_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value, fr)
                spec = ""
                if v.format_spec is not None:
                    sp = self.eval(v.format_spec, fr)
                    spec = sp if isinstance(sp, str) else "?"
                parts.append(self.fmt(x, spec))
        return self.mkstr(parts)

    def fmt(self, x, spec):
        if isinstance(x, (str, StrVal)) and spec in ("", "s"):
            return x
        if isinstance(x, int) and not isinstance(x, bool):
            try:
                return format(x, spec)
            except Exception:
                pass
        return StrVal([("fmt", spec, x if not isinstance(x, (int, bool)) else T.const(x))])

    def mkstr(self, parts):
        s = StrVal(parts)
        if all(isinstance(p, str) for p in s.parts):
            return "".join(s.parts)
        return s

    def e_ListComp(self, e, fr):
        out = self.comp(e.generators, lambda f: self.eval(e.elt, f), fr)
        return out if isinstance(out, SymSeq) else PyList(out)

    def e_GeneratorExp(self, e, fr):
        out = self.comp(e.generators, lambda f: self.eval(e.elt, f), fr)
        return out if isinstance(out, SymSeq) else PyList(out)

    def e_SetComp(self, e, fr):
        out = self.comp(e.generators, lambda f: self.eval(e.elt, f), fr)
        if isinstance(out, SymSeq):
            raise Unsupported("set comprehension")
        return PySet(out)

    def e_DictComp(self, e, fr):
        out = self.comp(e.generators, lambda f: (self.hashkey(self.eval(e.key, f)), self.eval(e.value, f)), fr)
        if isinstance(out, SymSeq):
            raise Unsupported("dict comprehension")
        return PyDict(dict(out))

    def comp(self, gens, leaf, fr):
        from . import loops
        f = Frame(parent=fr, module=fr.module, name=fr.name)
        out = []
        if len(gens) == 1 and not gens[0].ifs:
            it = loops.as_seq(self, self.eval(gens[0].iter, fr))
            n = T.const(it.n) if it.n is not None else None
            if n is not None and n.op != "c":
                g = gens[0]

                def item(k):
                    f2 = Frame(parent=fr, module=fr.module, name=fr.name)
                    self.assign(g.target, it.item(k), f2)
                    return leaf(f2)
                done = self.comp_once(it, n, item)
                return done if done is not None else SymSeq(n, item)

        def rec(k):
            if k == len(gens):
                out.append(leaf(f))
                return
            g = gens[k]
            src = self.eval(g.iter, f if k else fr)
            for x in self.tolist(src):
                self.assign(g.target, x, f)
                ok = True
                for c in g.ifs:
                    if not self.decide(self.truth_term(self.eval(c, f))):
                        ok = False
                        break
                if ok:
                    rec(k + 1)
        rec(0)
        return out

    def comp_once(self, it, n, item):
        """the comprehension evaluated now, once, for an arbitrary index; None when its value has no index-free shape"""
        from .terms import subst
        k = T.fresh("c", "I")
        frames = []

        def freeze(v):
            if isinstance(v, Arr):
                if any(k in T.vars_of(d) for d in v.shape):
                    raise Unsupported("comprehension of arrays of different shapes")
                vs = tuple(T.fresh("ci", "I") for _ in v.shape)
                frames.append(("arr", v.shape, v.dtype, vs))
                return v.at(*vs)
            if isinstance(v, (tuple, PyList)):
                xs = v if isinstance(v, tuple) else v.items
                frames.append(("tuple" if isinstance(v, tuple) else "list", len(xs)))
                return tuple(freeze(x) for x in xs)
            if isinstance(v, Term) or isnum(v):
                frames.append(("num",))
                return T.const(v)
            raise Unsupported("comprehension value")
        shapes = []
        from .loops import LoopC
        floor = Cell._n

        def run():
            self.assume(T.le(0, k))
            self.assume(T.lt(k, n))
            if it.guard is not None:
                self.assume(it.guard(k))
            del frames[:]
            r = freeze(item(k))
            shapes.append(list(frames))
            return ("ret", r)
        nob = len(self.obligations), set(self.obset)
        try:
            outs = self.explore(run)
            if any(o.kind != "ret" for o in outs) or not outs or any(c.uid <= floor for o in outs for (c, _) in o.changes):
                raise Unsupported("comprehension with effects")
            if any(s != shapes[0] for s in shapes):
                raise Unsupported("comprehension of values of different kinds")
            outs = self.merge_outcomes(outs)
            if len(outs) != 1:
                raise Unsupported("comprehension")
        except LoopC:
            raise
        except Unsupported:
            del self.obligations[nob[0]:]
            self.obset = nob[1]
            return None
        val = outs[0].value
        for c in outs[0].pc:
            if k not in T.vars_of(c):
                self.assume(c)
        plan = shapes[0]

        def thaw(v, q, j):
            f = plan[q[0]]
            q[0] += 1
            if f[0] == "arr":
                _, shape, dt, vs = f
                b = subst(v, {k: j})
                return Arr(Buf(shape, lambda idx: subst(b, dict(zip(vs, idx))), dt))
            if f[0] == "num":
                return simp_num(subst(v, {k: j}))
            xs = [thaw(x, q, j) for x in v]
            return tuple(xs) if f[0] == "tuple" else PyList(xs)
        return SymSeq(n, lambda j: thaw(val, [0], T.const(j)), it.guard)

    def e_Starred(self, e, fr):
        raise Unsupported("starred")

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_Call(self, e, fr):
        f = self.eval(e.func, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.tolist(self.eval(a.value, fr)))
            else:
                args.append(self.eval(a, fr))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, fr)
                kw.update(d.items)
            else:
                kw[k.arg] = self.eval(k.value, fr)
        line = self.curline
        r = self.call(f, args, kw)
        self.curline = line
        return r

    # ------------------------------------------------------------------ calls
    def call(self, f, args, kw=None):
        kw = kw or {}
        if isinstance(f, Bound):
            return self.call(f.fn, [f.self_] + list(args), kw)
        if isinstance(f, Builtin):
            return f.fn(*args, **kw)
        if isinstance(f, ClassVal):
            return self.instantiate(f, args, kw)
        if isinstance(f, Func):
            c = self.contracts.get(f.qual)
            if c is not None:
                self.contracts_used.add(f.qual)
                return c(self, args, kw)
            return self.call_func(f, args, kw)
        h = getattr(f, "py_call", None)
        if h is not None:
            return h(*args, **kw)
        if isinstance(f, Obj):
            m = f.cls.lookup("__call__") if f.cls else None
            if m is not None:
                return self.call(m, [f] + list(args), kw)
        if callable(f) and not isinstance(f, (Term, Obj)):
            return f(*args, **kw)
        raise Unsupported("call of %r" % (f,))

    def instantiate(self, cls, args, kw):
        c = self.contracts.get(cls.module.name + "." + cls.name)
        if c is not None:
            self.contracts_used.add(cls.module.name + "." + cls.name)
            return c(self, args, kw)
        o = Obj(cls)
        init = cls.lookup("__init__")
        if init is not None:
            self.call(init, [o] + list(args), kw)
        return o

    def bind(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        kw = dict(kw)
        for n, v in zip(names, args):
            vals[n] = v
        extra = list(args[len(names):])
        if extra and a.vararg is None:
            raise PyRaise("TypeError", "too many arguments for " + f.qual)
        for n in list(kw):
            if n in names or n in [x.arg for x in a.kwonlyargs]:
                if n in vals:
                    raise PyRaise("TypeError", "multiple values for argument " + n)
                vals[n] = kw.pop(n)
        nd = len(f.defaults)
        for n, d in zip(names[len(names) - nd:], f.defaults):
            vals.setdefault(n, d)
        for n, d in f.kwdefaults.items():
            vals.setdefault(n, d)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in vals:
                raise PyRaise("TypeError", "missing argument %s of %s" % (n, f.qual))
        if a.vararg is not None:
            vals[a.vararg.arg] = tuple(extra)
        if a.kwarg is not None:
            vals[a.kwarg.arg] = PyDict(kw)
        elif kw:
            raise PyRaise("TypeError", "unexpected keyword %s for %s" % (list(kw), f.qual))
        return vals

    def call_func(self, f, args, kw):
        self.funcs_used.add(f.qual)
        self.depth += 1
        if self.depth > 60:
            self.depth -= 1
            raise Unsupported("recursion")
        saved = self.curline
        try:
            if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(f.node)):
                raise Unsupported("generator function " + f.qual)
            fr = Frame(parent=f.frame, module=f.module, name=f.qual)
            fr.locals_ = assigned(f.node)
            for k, v in self.bind(f, args, kw).items():
                hset(fr, k, v)
            r = self.exec_block(f.node.body, fr)
            if r is None:
                return None
            if r[0] == "ret":
                return r[1]
            raise Unsupported("stray " + r[0])
        finally:
            self.depth -= 1
            self.curline = saved

    # ------------------------------------------------------------------ attributes and items
    def getattr(self, o, name):
        if isinstance(o, Arr) and type(o) is not Arr:
            return o.py_getattr(name)
        if isinstance(o, Obj):
            if name in o.d:
                return self.defined(o.d[name], name)
            if o.cls is not None:
                m = o.cls.lookup(name)
                if isinstance(m, Func):
                    if m.is_static:
                        return m
                    if m.is_property:
                        return self.call(m, [o], {})
                    return Bound(o, m)
                if m is not None:
                    return m
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                raise Unsupported("__dict__")
            raise PyRaise("AttributeError", "%s.%s" % (o.cls.name if o.cls else "object", name))
        if isinstance(o, Module):
            if o.frame is not None:
                if name in o.frame.d:
                    return self.defined(o.frame.d[name], name)
                raise PyRaise("AttributeError", "module %s has no attribute %s" % (o.name, name))
            if name in o.attrs:
                return o.attrs[name]
            if o.attrs.get("__unmodelled__"):
                raise Unsupported("module %s is not modelled (%s)" % (o.name, name))
            raise Unsupported("%s.%s is not modelled" % (o.name, name))
        if isinstance(o, ClassVal):
            m = o.lookup(name)
            if m is not None:
                return m
            if name == "__name__":
                return o.name
            raise PyRaise("AttributeError", "%s.%s" % (o.name, name))
        if isinstance(o, (Arr, Compressed, IndexSet)) or isinstance(o, Term) and o.sort in "IRB":
            return self.np.attr(o, name)
        if isinstance(o, (str, StrVal)) or isinstance(o, Term) and o.sort == "S":
            return self.builtins["__strmethods__"](o, name)
        if isinstance(o, (PyList, PyDict, tuple, PySet, Iterator)):
            return self.builtins["__seqmethods__"](o, name)
        if isinstance(o, Func) and name in ("__name__", "__doc__"):
            return f_name(o) if name == "__name__" else None
        h = getattr(o, "py_getattr", None)
        if h is not None:
            return h(name)
        raise Unsupported("attribute %s of %r" % (name, type(o).__name__))

    def setattr(self, o, name, v):
        if isinstance(o, (Obj, ClassVal)):
            hset(o, name, v)
            return
        if isinstance(o, Module) and o.frame is not None:
            hset(o.frame, name, v)
            return
        raise Unsupported("setting attribute %s" % name)

    def getitem(self, o, k):
        if isinstance(o, Arr):
            if type(o) is not Arr:
                o.check_key(k)
            return self.tidy(self.np.getitem(o, k))
        if isinstance(o, (PyList, tuple)):
            items = o.items if isinstance(o, PyList) else o
            if isinstance(k, SliceVal):
                g = lambda x: x if x is None or isinstance(x, int) else self.cint(x)
                r = items[slice(g(k.lo), g(k.hi), g(k.step))]
                return PyList(r) if isinstance(o, PyList) else tuple(r)
            k = simp_num(k)
            if isinstance(k, int):
                if not -len(items) <= k < len(items):
                    raise PyRaise("IndexError", "list index out of range")
                return self.defined(items[k], "[%d]" % k)
            if isinstance(k, Term) and k.sort == "I":
                # symbolic index into a concrete list: ite chain over numbers
                if all(isnum(x) for x in items) and items:
                    self.require(T.and_(T.le(0, k), T.lt(k, len(items))), "list index in range")
                    r = T.const(items[-1])
                    for i in range(len(items) - 2, -1, -1):
                        r = T.ite(T.eq(k, i), T.const(items[i]), r)
                    return simp_num(r)
            raise Unsupported("list index %r" % (k,))
        if isinstance(o, SymSeq):
            if isinstance(k, (int, Term)):
                kk = T.const(k)
                if kk.op == "c" and kk.val < 0:
                    kk = T.add(o.n, kk)
                self.require(T.and_(T.le(0, kk), T.lt(kk, o.n)), "sequence index in range")
                return o.item(kk)
            raise Unsupported("slice of a symbolic sequence")
        if isinstance(o, PyDict):
            kk = k
            if isinstance(k, Term) and k.sort == "S" and k.op != "c":
                h = self.hook("symdict", o, k)
                if h is not None:
                    return h
                for c in list(o.items):
                    if isinstance(c, str) and self.decide(T.eq(k, T.const(c))):
                        return o.items[c]
                raise PyRaise("KeyError", T.show(k))
            kk = self.hashkey(k)
            if kk not in o.items:
                raise PyRaise("KeyError", repr(kk))
            return o.items[kk]
        if isinstance(o, (str, StrVal)):
            return self.builtins["__stritem__"](o, k)
        if isinstance(o, (IndexSet, Compressed)):
            return self.np.getitem(o, k)
        h = getattr(o, "py_getitem", None)
        if h is not None:
            return h(k)
        raise Unsupported("subscript of %r" % type(o).__name__)

    def setitem(self, o, k, v):
        if isinstance(o, Arr):
            if type(o) is not Arr:
                o.check_key(k)
            return self.np.setitem(o, k, v)
        if isinstance(o, PyList):
            k = simp_num(k)
            if isinstance(k, SliceVal):
                g = lambda x: x if x is None or isinstance(x, int) else self.cint(x)
                its = list(o.items)
                its[slice(g(k.lo), g(k.hi), g(k.step))] = self.tolist(v)
                hset(o, "items", tuple(its))
                return
            if not isinstance(k, int):
                raise Unsupported("symbolic list assignment")
            its = list(o.items)
            if not -len(its) <= k < len(its):
                raise PyRaise("IndexError")
            its[k] = v
            hset(o, "items", tuple(its))
            return
        if isinstance(o, PyDict):
            d = dict(o.items)
            d[self.hashkey(k)] = v
            hset(o, "items", d)
            return
        raise Unsupported("item assignment to %r" % type(o).__name__)

    # ------------------------------------------------------------------ helpers
    def cint(self, x):
        x = simp_num(x)
        if isinstance(x, bool):
            return int(x)
        if isinstance(x, int):
            return x
        raise Unsupported("a concrete integer is needed, got %r" % (x,))

    def num(self, v):
        if isinstance(v, Term):
            if v.sort in "IRB":
                return T.b2i(v)
            raise PyRaise("TypeError", "arithmetic on string")
        if isinstance(v, (int, bool)):
            return T.const(int(v))
        if isinstance(v, Arr) and len(v.shape) == 0:
            return v.at()
        if isinstance(v, Arr) and all(s.op == "c" and s.val == 1 for s in v.shape):
            return v.at(*([0] * len(v.shape)))
        raise Unsupported("not a number: %r" % (v,))

    def truth_term(self, v):
        if isinstance(v, bool):
            return T.const(v)
        if isinstance(v, Term):
            if v.sort == "B":
                return v
            if v.sort in "IR":
                return T.ne(v, 0)
            return T.ne(v, T.const(""))
        if v is None:
            return T.FALSE
        if isinstance(v, int):
            return T.const(v != 0)
        if isinstance(v, str):
            return T.const(v != "")
        if isinstance(v, (PyList, PyDict)):
            return T.const(len(v.items) > 0)
        if isinstance(v, tuple):
            return T.const(len(v) > 0)
        if isinstance(v, Arr):
            if all(s.op == "c" and s.val == 1 for s in v.shape):
                return self.truth_term(v.at(*([0] * len(v.shape))))
            n = [s for s in v.shape]
            if all(s.op == "c" for s in n):
                raise PyRaise("ValueError", "truth value of an array")
            raise PyRaise("ValueError", "truth value of an array")
        if isinstance(v, StrVal):
            return T.TRUE if any(isinstance(p, str) and p for p in v.parts) else self._unsup("truth of string")
        if isinstance(v, SymSeq):
            return T.lt(0, v.n)
        if isinstance(v, Special):
            return T.TRUE
        if isinstance(v, (Obj, Func, Bound, ClassVal, Module, Builtin)):
            return T.TRUE
        raise Unsupported("truth of %r" % (v,))

    def _unsup(self, s):
        raise Unsupported(s)

    def tolist(self, v):
        """materialise a sequence of concrete length"""
        from . import loops
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, PyList):
            return list(v.items)
        s = loops.as_seq(self, v)
        n = T.const(s.n)
        if n.op != "c":
            raise Unsupported("sequence of symbolic length")
        return [s.item(T.const(i)) for i in range(int(n.val))]

    def note(self, s):
        self.notes.setdefault(s, 0)
        self.notes[s] += 1

    def binop(self, op, a, b):
        h = getattr(a, "py_binop", None)
        if h is not None:
            return h(op, b, False)
        h = getattr(b, "py_binop", None)
        if h is not None:
            return h(op, a, True)
        if isinstance(a, (Arr, Compressed, IndexSet)) or isinstance(b, (Arr, Compressed, IndexSet)):
            return self.np.binary(op, a, b)
        if isinstance(a, Special) or isinstance(b, Special):
            return self.special_op(op, a, b)
        if isinstance(a, (str, StrVal)) or isinstance(b, (str, StrVal)) or \
                (isinstance(a, Term) and a.sort == "S") or (isinstance(b, Term) and b.sort == "S"):
            if op == "Add" and not isnum(a) and not isnum(b):
                return self.mkstr([self.strpart(a), self.strpart(b)])
            if op == "Mult" and isinstance(a, str) and isinstance(b, int):
                return a * b
            if op == "Mod" and isinstance(a, str):
                return self.percent(a, b)
            raise PyRaise("TypeError", "string operation " + op)
        if isinstance(a, (PyList, tuple)) or isinstance(b, (PyList, tuple)):
            if op == "Add" and type(a) == type(b):
                if isinstance(a, tuple):
                    return a + b
                return PyList(a.items + b.items)
            if op == "Mult":
                if isinstance(a, int):
                    a, b = b, a
                n = simp_num(b)
                if isinstance(n, int):
                    return PyList(a.items * n) if isinstance(a, PyList) else a * n
                if isinstance(a, PyList) and len(a.items) == 1:
                    x = a.items[0]
                    return SymSeq(T.const(n), lambda k: x)
            raise Unsupported("sequence operation " + op)
        if isinstance(a, (int,)) and isinstance(b, (int,)):
            a, b = int(a) if op not in ("BitAnd", "BitOr") else a, int(b) if op not in ("BitAnd", "BitOr") else b
            if op == "Add":
                return a + b
            if op == "Sub":
                return a - b
            if op == "Mult":
                return a * b
            if op in ("FloorDiv", "Mod", "Div"):
                if b == 0:
                    raise PyRaise("ZeroDivisionError")
                if op == "Div":
                    return T.const(Fraction(a, b))
                return a // b if op == "FloorDiv" else a % b
            if op == "Pow":
                if b >= 0:
                    return a ** b
                return T.const(Fraction(1) / Fraction(a) ** (-b))
            if op == "BitAnd":
                return a & b
            if op == "BitOr":
                return a | b
            if op == "LShift":
                return a << b
            if op == "RShift":
                return a >> b
        return simp_num(self.tbin(op, a, b))

    def tbin(self, op, a, b):
        if op in ("BitAnd", "BitOr", "BitXor"):
            ta, tb = T.const(a), T.const(b)
            if ta.sort == "B" and tb.sort == "B":
                if op == "BitXor":
                    return T.not_(T.eq(ta, tb))
                return T.and_(ta, tb) if op == "BitAnd" else T.or_(ta, tb)
            raise Unsupported("bit operation")
        x, y = self.num(a), self.num(b)
        if op == "Add":
            return T.add(x, y)
        if op == "Sub":
            return T.sub(x, y)
        if op == "Mult":
            return T.mul(x, y)
        if op == "Div":
            if y.op == "c" and y.val == 0:
                raise PyRaise("ZeroDivisionError")
            return T.div(x, y)
        if op == "Pow":
            if y.sort == "I" and y.op != "c":
                y2 = y
                if x.op == "c" and x.val == -1:
                    return T.ite(T.eq(T.imod(y, T.const(2)), 0), T.const(1), T.const(-1))
            if self.hooks.get("nan") and not (y.op == "c" and y.val.denominator == 1) and not self.surely(T.le(0, x)):
                # a negative number to a fractional power is NaN
                if not self.decide(T.le(0, x)):
                    return NAN
            return T.power(x, y)
        if op == "FloorDiv":
            return T.idiv(x, y)
        if op == "Mod":
            return T.imod(x, y)
        raise Unsupported("operator " + op)

    def strpart(self, x):
        if isinstance(x, Term):
            return StrVal([("fmt", "s", x)])
        return x

    def percent(self, f, args):
        args = list(args) if isinstance(args, tuple) else [args]
        import re
        parts, pos = [], 0
        for m in re.finditer(r"%([-0-9.]*)([a-zA-Z%])", f):
            parts.append(f[pos:m.start()])
            pos = m.end()
            if m.group(2) == "%":
                parts.append("%")
                continue
            if not args:
                raise PyRaise("TypeError", "not enough arguments for format string")
            parts.append(self.fmt(args.pop(0), m.group(1) + m.group(2)))
        parts.append(f[pos:])
        return self.mkstr(parts)

    def special_op(self, op, a, b):
        def isnan(x):
            return isinstance(x, Special) and x.name == "nan"
        if isnan(a) or isnan(b):
            return NAN
        h = self.hook("special", op, a, b)
        if h is not None:
            return h
        ia, ib = isinstance(a, Special), isinstance(b, Special)
        if ia != ib:
            x = b if ia else a
            if isnum(x):
                x = T.b2i(T.const(x))
                inf, neg = (a, b)[not ia], {"inf": NINF, "-inf": INF}
                if op == "Add" or op == "Sub" and ia:
                    return inf
                if op == "Sub":
                    return neg[inf.name]
                if op == "Div" and ib:
                    return T.toR(T.const(0))
                if op in ("Mult", "Div"):
                    if self.surely(T.lt(0, x)):
                        return inf
                    if self.surely(T.lt(x, 0)):
                        return neg[inf.name]
        raise Unsupported("arithmetic with infinity")

    CMP = {"Lt": T.lt, "LtE": T.le, "Gt": lambda a, b: T.lt(b, a), "GtE": lambda a, b: T.le(b, a),
           "Eq": T.eq, "NotEq": T.ne}

    def compare(self, op, a, b):
        if op in ("Is", "IsNot"):
            r = self.is_same(a, b)
            return r if op == "Is" else simp_num(T.not_(T.const(r)))
        if op in ("In", "NotIn"):
            r = self.contains(a, b)
            return simp_num(T.const(r) if op == "In" else T.not_(T.const(r)))
        if isinstance(a, (Arr, Compressed, IndexSet)) or isinstance(b, (Arr, Compressed, IndexSet)):
            return self.np.compare(op, a, b)
        if isinstance(a, Special) or isinstance(b, Special):
            if (isinstance(a, Special) and a.name == "nan") or (isinstance(b, Special) and b.name == "nan"):
                return op == "NotEq"
            r = {("inf"): 1, ("-inf"): -1}
            x = r[a.name] if isinstance(a, Special) else 0
            y = r[b.name] if isinstance(b, Special) else 0
            return {"Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y, "Eq": x == y, "NotEq": x != y}[op]
        if isnum(a) and isnum(b):
            return simp_num(self.CMP[op](T.const(a) if not isinstance(a, bool) or isinstance(b, (bool, Term)) and T.const(b).sort == "B" else T.const(int(a)),
                                         T.const(b) if not isinstance(b, bool) or isinstance(a, (bool, Term)) and T.const(a).sort == "B" else T.const(int(b)))) \
                if op in ("Eq", "NotEq") else simp_num(self.CMP[op](T.b2i(T.const(a)), T.b2i(T.const(b))))
        if op in ("Eq", "NotEq"):
            r = self.equal(a, b)
            return simp_num(T.const(r) if op == "Eq" else T.not_(T.const(r)))
        if isinstance(a, str) and isinstance(b, str):
            return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op]
        raise Unsupported("comparison %s of %r and %r" % (op, type(a).__name__, type(b).__name__))

    def equal(self, a, b):
        sa = isinstance(a, str) or isinstance(a, Term) and a.sort == "S"
        sb = isinstance(b, str) or isinstance(b, Term) and b.sort == "S"
        if sa and sb:
            return simp_num(T.eq(T.const(a), T.const(b)))
        if isinstance(a, StrVal) or isinstance(b, StrVal):
            if isinstance(a, StrVal) and isinstance(b, StrVal) and a.key() == b.key():
                return True
            raise Unsupported("comparison of formatted strings")
        if a is None or b is None:
            return a is b
        if isinstance(a, tuple) and isinstance(b, tuple) or isinstance(a, PyList) and isinstance(b, PyList):
            x = a if isinstance(a, tuple) else a.items
            y = b if isinstance(b, tuple) else b.items
            if len(x) != len(y):
                return False
            return simp_num(T.and_(*[T.const(self.compare("Eq", p, q)) for p, q in zip(x, y)]))
        if type(a) != type(b):
            return False
        if isinstance(a, Bound):
            return a.fn is b.fn and a.self_ is b.self_
        return a is b

    def is_same(self, a, b):
        """identity. Strings: CPython interns source literals, so a value that came from a literal is identical to an
        equal literal; a string computed at run time (marked by a run-time term) is never identical to a literal."""
        if a is None or b is None:
            return a is b
        if isinstance(a, bool) or isinstance(b, bool):
            return a is b
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if isinstance(a, (StrVal,)) or isinstance(b, StrVal):
            return False
        if isinstance(a, Term) and a.sort == "S" or isinstance(b, Term) and b.sort == "S":
            t = a if isinstance(a, Term) else b
            if t.op == "v" and t.val.startswith("literal:"):
                return simp_num(T.eq(T.const(a), T.const(b)))
            if t.op == "v":
                # run-time string: identity with a literal is not guaranteed; either outcome must be fine
                eqv = T.eq(T.const(a), T.const(b))
                if eqv is T.TRUE:
                    return True
                same = T.app("is_identical", T.const(a), T.const(b), sort="B")
                return T.and_(eqv, same)
            return False
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        return a is b

    def contains(self, a, b):
        if isinstance(b, (str, StrVal)) or isinstance(b, Term) and b.sort == "S":
            return self.builtins["__strcontains__"](a, b)
        if isinstance(b, PyDict):
            if isinstance(a, Term) and a.sort == "S" and a.op != "c":
                return T.or_(*[T.eq(a, T.const(k)) for k in b.items if isinstance(k, str)])
            return self.hashkey(a) in b.items
        items = b.items if isinstance(b, PyList) else b.d["items"] if isinstance(b, PySet) else self.tolist(b)
        return T.or_(*[T.const(self.compare("Eq", a, x)) for x in items])


class NoJoin(Exception):
    pass


_assigned = {}


def assigned(node):
    r = _assigned.get(id(node))
    if r is None:
        s = set()
        g = set()
        for n in walk_own(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                s.add(n.id)
            elif isinstance(n, (ast.Global, ast.Nonlocal)):
                g |= set(n.names)
        # comprehension variables are local to the comprehension
        r = (frozenset(s - g), node)
        _assigned[id(node)] = r
    return r[0]


def f_name(f):
    return f.qual.split(".")[-1]


def walk_own(node):
    """nodes of a function, not descending into nested functions"""
    st = list(node.body)
    while st:
        n = st.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(n))
