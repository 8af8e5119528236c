"""Loops: unrolling, map-loop summaries, accumulation, and havoc with inferred invariants."""
import ast
import os
from fractions import Fraction
from . import terms as T
from . import values as V
from .values import *
from .prove import quick

UNROLL = 64


def as_seq(I, v):
    """iteration source -> object with n (Term or None), item(k), guard"""
    if isinstance(v, SymSeq):
        return v
    if isinstance(v, RangeVal):
        lo, hi, st = T.const(v.lo), T.const(v.hi), v.step
        if st == 1:
            n = T.sub(hi, lo)
            if n.op == "c":
                n = T.const(max(0, int(n.val)))
            elif not I.implied(T.le(0, n)):
                n = T.max_(n, T.const(0))
            return SymSeq(n, lambda k: simp(T.add(lo, k)))
        if isinstance(st, int) and st != 0:
            d = T.sub(hi, lo) if st > 0 else T.sub(lo, hi)
            n = T.idiv(T.add(d, T.const(abs(st) - 1)), T.const(abs(st)))
            if n.op == "c":
                n = T.const(max(0, int(n.val)))
            elif not I.implied(T.le(0, n)):
                n = T.max_(n, T.const(0))
            return SymSeq(n, lambda k: simp(T.add(lo, T.scale(Fraction(st), T.const(k)))))
        raise I_unsup("range step")
    if isinstance(v, (tuple, PyList)):
        items = v if isinstance(v, tuple) else v.items
        s = SymSeq(T.const(len(items)), lambda k: items[int(T.const(k).val)])
        s.concrete = items
        return s
    if isinstance(v, PyDict):
        items = tuple(v.items)
        return SymSeq(T.const(len(items)), lambda k: items[int(T.const(k).val)])
    if isinstance(v, PySet):
        items = v.d["items"]
        return SymSeq(T.const(len(items)), lambda k: items[int(T.const(k).val)])
    if isinstance(v, str):
        return SymSeq(T.const(len(v)), lambda k: v[int(T.const(k).val)])
    if isinstance(v, Arr):
        if not v.shape:
            raise PyRaise("TypeError", "iteration over a 0-d array")
        return SymSeq(v.shape[0], lambda k: I.np.getitem(v, simp(T.const(k))))
    if isinstance(v, IndexSet):
        pred = v.pred
        sh = v.shift
        return SymSeq(v.n, lambda k: simp(T.add(k, sh)), lambda k: pred(k))
    if isinstance(v, Iterator):
        return IterSeq(I, v)
    raise Unsupported("iteration over %r" % type(v).__name__)


def IterSeq(I, it):
    pos = it.d["pos"]
    n = T.sub(T.const(it.n), T.const(pos))
    return SymSeq(n, lambda k: it.item(T.add(T.const(pos), k)))


def I_unsup(s):
    return Unsupported(s)


def simp(t):
    from .interp import simp_num
    return simp_num(t)


def is_stream(v):
    return getattr(v, "stream", False)


# ---------------------------------------------------------------------------------------------- for
def for_loop(I, s, fr):
    src = I.eval(s.iter, fr)
    if is_stream(src):
        return src.for_loop(I, s, fr)
    seq = as_seq(I, src)
    n = T.const(seq.n)
    has_exit = any(isinstance(x, (ast.Break, ast.Return)) for x in own(s.body))

    def body(item):
        I.assign(s.target, item, fr)
        return I.exec_block(s.body, fr)

    if n.op == "c" and (int(n.val) <= 16 or (int(n.val) <= UNROLL * 8 and not has_exit)) and seq.guard is None:
        for i in range(int(n.val)):
            r = body(seq.item(T.const(i)))
            if r is None or r[0] in ("continue", "normal"):
                continue
            if r[0] == "break":
                return None
            return r
        if s.orelse:
            return I.exec_block(s.orelse, fr)
        return None
    if s.orelse:
        raise Unsupported("for-else on a symbolic loop")
    h = I.hook("for_loop", s, fr, seq)
    if h is not None:
        return h
    if not has_exit:
        try:
            return map_loop(I, seq, body, fr)
        except MapFail:
            pass
    if seq.guard is not None:
        raise Unsupported("guarded sequence in a general loop")
    return general_loop(I, None, body, seq, fr, s)


def own(body):
    st = list(body)
    while st:
        n = st.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if isinstance(n, (ast.For, ast.While)):
            # breaks inside belong to the inner loop, returns do not
            for x in own(n.body):
                if isinstance(x, ast.Return):
                    yield x
            st.extend(n.orelse)
            continue
        st.extend(ast.iter_child_nodes(n))


class MapFail(Exception):
    pass


def replace_app(t, name, fn, memo=None):
    """replace applications name(args) by fn(args) (args already rewritten)"""
    if memo is None:
        memo = {}

    def go(x):
        r = memo.get(x.id)
        if r is not None:
            return r
        if not x.args:
            r = x
        else:
            na = [go(a) for a in x.args]
            if x.op == "app" and x.val == name:
                r = fn(tuple(na))
            elif all(p is q for p, q in zip(na, x.args)):
                r = x
            else:
                r = T._rebuild(x, na)
        memo[x.id] = r
        return r
    return go(t)




def location_order(keys):
    return list(keys)


def map_loop(I, seq, body, fr):
    n = T.const(seq.n)
    floor = V.Cell._n
    k = T.fresh("k", "I")
    rng = [T.le(0, k), T.lt(k, n)]
    if I.implied(T.le(n, 0)):
        return None

    def it():
        for c in rng:
            I.assume(c)
        if seq.guard is not None:
            I.assume(seq.guard(k))
        I.skolem.append(k)
        r = body(seq.item(k))
        return r if r is not None else ("normal", None)

    # pass 1: write set
    obs = len(I.obligations), set(I.obset)
    try:
        outs = I.explore(it)
    except LoopC as e:
        raise MapFail()
    W = {}
    for o in outs:
        if o.kind in ("break", "ret"):
            raise MapFail()
        for (cell, key) in o.changes:
            if cell.uid <= floor:
                W[(cell, key)] = True
    # discard obligations of the discovery pass
    del I.obligations[obs[0]:]
    I.obset = obs[1]
    # pass 2: poisoned scalars, logged buffers; accumulators are retried as sums
    accum = {}
    for attempt in range(4):
        m = mark()
        reads = []
        olds = {}
        try:
            for (cell, key) in W:
                cur = cell.d.get(key, MISSING)
                if isinstance(cell, Buf) and key == "c":
                    name = "OLD#%d" % cell.uid
                    olds[cell] = (name, cur)
                    srt = "I" if cell.dtype == "i" else "B" if cell.dtype == "b" else "R"

                    def fn(idx, name=name, srt=srt, cell=cell):
                        return T.app(name, *idx, sort=srt)
                    hset(cell, "c", memo_content(fn))
                elif (cell, key) in accum:
                    hset(cell, key, accum[(cell, key)])
                elif isinstance(cell, PyList) or isinstance(cur, (Iterator,)):
                    raise MapFail()
                else:
                    hset(cell, key, Poison("read before it is assigned in this iteration", key))
            mm = mark()
            try:
                outs = I.explore(it)
            except LoopC as e:
                # find accumulators: numeric locations that are poisoned
                new = {}
                for (cell, key) in W:
                    v = cell.d.get(key)
                    if isinstance(v, Poison) and v.name == getattr(e, "pname", None):
                        new[(cell, key)] = None
                new = {loc: None for loc in new if loc not in accum}
                if not new:
                    raise MapFail()
                retry = True
            else:
                retry = False
        finally:
            undo(m)
        if not retry:
            break
        for (cell, key) in new:
            cur = cell.d.get(key)
            from .interp import isnum
            if not isnum(cur):
                raise MapFail()
            srt = T.const(cur).sort if not isinstance(cur, bool) else "B"
            if srt == "B":
                raise MapFail()
            accum[(cell, key)] = T.fresh("acc", "R")
    else:
        raise MapFail()
    W2 = set()
    for o in outs:
        for loc in o.changes:
            if loc[0].uid <= floor:
                W2.add(loc)
                if loc not in W:
                    raise MapFail()
    normal = []
    exits = []
    for o in outs:
        if o.kind in ("break", "ret"):
            raise MapFail()
        if o.kind in ("raise",):
            exits.append(o)
        elif o.kind == "exit":
            exits.append(o)
        else:
            o.kind = "normal"
            normal.append(o)
    if not normal:
        raise Unsupported("loop body never completes normally")
    # ways out that say the same thing are one
    alike = {}
    for o in exits:
        alike.setdefault((o.kind, str(o.value)), []).append(o)
    for v in alike.values():
        if len(v) > 1:
            v[0].pc = (T.or_(*[T.and_(*o.pc) for o in v]),)
    exits = [v[0] for v in alike.values()]
    # merge in a state where the written buffers hold OLD
    m = mark()
    for cell, (name, cur) in olds.items():
        srt = "I" if cell.dtype == "i" else "B" if cell.dtype == "b" else "R"
        hset(cell, "c", memo_content(lambda idx, name=name, srt=srt: T.app(name, *idx, sort=srt)))
    for loc in W:
        if not isinstance(loc[0], Buf) and loc not in accum:
            hset(loc[0], loc[1], Poison("carried over from another iteration", loc[1]))
        elif loc in accum:
            hset(loc[0], loc[1], accum[loc])
    old_floor = I.fresh_floor
    I.fresh_floor = floor
    pc0 = list(I.pc)
    try:
        I.pc = pc0 + rng
        groups = I.merge_outcomes(normal)
    finally:
        I.fresh_floor = old_floor
        I.pc = pc0
        undo(m)
    if len(groups) != 1:
        raise Unsupported("loop body outcomes cannot be merged (%d)" % len(groups))
    g = groups[0]
    # an exit path: the whole loop may exit; choose it as a separate path
    alts = 1 + len(exits)
    some = T.fresh("exits", "B") if exits else None
    ch = I.choose(alts)
    if exits:
        I.assume(some if ch else T.not_(some))
    if ch > 0:
        e = exits[ch - 1]
        for c in rng:
            I.assume(c)
        for c in e.pc:
            I.assume(c)
        if olds:
            # state before the exit is unspecified for written buffers
            pass
        raise e.value
    # facts true of every iteration
    extra = [c for c in g.pc if not any(c is r for r in rng)]
    if seq.guard is not None:
        gk = seq.guard(k)
        extra = [c for c in extra if c is not gk]
    clean = lambda t: not any(x.op == "app" and x.val.startswith("OLD#") for x in T.subterms(t))
    if extra:
        fact = T.and_(*extra)
        names = {x.val for x in T.subterms(fact) if x.op == "app" and k in T.vars_of(x) and x.val.startswith("loop")}
        if seq.guard is None and clean(fact) and names:
            def lemma(a, names=names, fact=fact, k=k, n=n):
                if a.val not in names or a.op != "app":
                    return ()
                # match against every occurrence pattern of that symbol in the fact
                res = []
                for x in T.subterms(fact):
                    if x.op == "app" and x.val == a.val and k in T.vars_of(x) and len(x.args) == len(a.args):
                        s = match(x, a, k)
                        if s is not None:
                            res.append(T.implies(T.and_(T.le(0, s), T.lt(s, n)), T.subst(fact, {k: s})))
                            break
                return res
            I.lemmas.append(lemma)
    # new contents
    newc = {}
    for cell, (name, cur) in olds.items():
        loc = (cell, "c")
        if loc not in g.changes:
            continue
        fn = g.changes[loc][1]
        newc[cell] = summarise(I, cell, fn, name, cur, k, n, seq, olds)
    # reads of written buffers inside values must not see other iterations' writes: checked in summarise
    for cell, fn in newc.items():
        hset(cell, "c", memo_content(fn))
    for loc in W:
        cell, key = loc
        if isinstance(cell, Buf) and key == "c":
            continue
        if loc in accum:
            x0 = accum[loc]
            nv = g.changes[loc][1] if loc in g.changes else x0
            d = T.sub(T.const(nv), x0)
            if x0 in T.vars_of(d):
                from .poly import Norm
                raise MapFail()
            if any(x.op == "app" and x.val.startswith("OLD#") for x in T.subterms(d)):
                raise MapFail()
            if seq.guard is not None:
                d = T.ite(seq.guard(k), d, T.const(Fraction(0)))
            hset(cell, key, T.add(T.const(cell.d[key]), T.sum_(k, T.const(0), n, d)))
            continue
        nv = g.changes.get(loc, (None, MISSING))[1]
        last = T.sub(n, T.const(1))
        from .interp import isnum
        if isnum(nv) and seq.guard is None and I.implied(T.lt(0, n)) and clean(T.const(nv)):
            hset(cell, key, simp(T.subst(T.const(nv), {k: last})))
        elif nv is MISSING:
            hdel(cell, key)
        else:
            hset(cell, key, Poison("value after a symbolic loop", key))
    return None


def match(pat, t, k):
    """find s with pat[k:=s] == t, for k occurring linearly in some argument"""
    for p, q in zip(pat.args, t.args):
        if k in T.vars_of(p):
            if p is k:
                return q
            if p.sort == "I":
                c, d = T.lin(p)
                if k in d and abs(d[k]) == 1 and all(k not in T.vars_of(x) for x in d if x is not k):
                    rest = T.sub(p, T.scale(d[k], k))
                    return T.scale(Fraction(1) / d[k], T.sub(q, rest))
            if p.op == "app" and q.op == "app" and p.val == q.val and len(p.args) == len(q.args):
                s = match(p, q, k)
                if s is not None:
                    return s
            elif p.op == q.op and len(p.args) == len(q.args) and p.val == q.val:
                s = match(p, q, k)
                if s is not None:
                    return s
    return None


def summarise(I, cell, fn, name, old, k, n, seq, olds):
    """content of a buffer after all iterations, from its content after iteration k in terms of OLD"""
    nd = len(cell.shape)
    js = [T.fresh("j", "I") for _ in range(nd)]
    E = fn(tuple(js))
    OLDJ = T.app(name, *js, sort=E.sort if E.sort in "IRB" else "R")
    srt = "I" if cell.dtype == "i" else "B" if cell.dtype == "b" else "R"
    OLDJ = T.app(name, *js, sort=srt)
    # candidate solutions for k from equalities and windows mentioning k and j
    jset = set(js)
    eqs = []
    ges = []
    conds = set()
    for t in T.subterms(E):
        if t.op in ("eq0", "ge0") and k in T.vars_of(t) and (T.vars_of(t) & jset):
            conds.add(t)
    cands = []      # (K term, validity)
    for t in sorted(conds, key=lambda t: t.id):
        d = t.args[0]
        if d.sort != "I":
            continue
        c, m = T.lin(d)
        if k not in m or any(k in T.vars_of(x) for x in m if x is not k):
            continue
        a = m[k]
        rest = T.sub(d, T.scale(a, k))        # a*k + rest ? 0
        if t.op == "eq0":
            num = T.scale(Fraction(-1) if a > 0 else Fraction(1), rest)
            aa = T.const(abs(int(a)))
            K = T.idiv(num, aa)
            valid = T.and_(T.eq(T.imod(num, aa), 0))
            cands.append((t, K, valid, "eq"))
        else:
            ges.append((t, a, rest))
    if not cands and ges:
        # windows  0 <= j - a k - c  and  j - a k - c < w  with w <= a
        for (t, a, rest) in ges:
            if a < 0:
                # -|a| k + rest >= 0  : k <= rest/|a|
                for (t2, a2, rest2) in ges:
                    if a2 == -a:
                        # |a| k + rest2 >= 0 : k >= -rest2/|a|; window width
                        w = T.add(rest, rest2)
                        if w.op == "c" and w.val < -a:
                            K = T.idiv(rest, T.const(int(-a)))
                            valid = T.and_(T.ge0(T.add(T.scale(-a, K), rest2)))
                            cands.append((t, K, valid, "win"))
    rngK = lambda K: T.and_(T.le(0, K), T.lt(K, n))
    guard = seq.guard
    hyp = list(I.pc)

    def old_at(args):
        return old(tuple(args))

    def resolve(t):
        """OLD# of every written buffer -> contents before the loop (after checking independence)"""
        for c2, (nm, oc) in olds.items():
            t = replace_app(t, nm, lambda a, oc=oc: oc(tuple(a)))
        return t

    # distinct solution functions
    sols = []
    for (t, K, valid, kind) in cands:
        if not any(K is K2 and valid is v2 for K2, v2 in sols):
            sols.append((K, valid))
    if sols:
        # untouched when k is none of the solutions
        off = {}
        for t in conds:
            if t.op == "eq0":
                off[t] = T.FALSE
        E0 = T.subst(E, off) if cands and cands[0][3] == "eq" else None
        if E0 is not None and E0 is not OLDJ:
            if not prove_same(I, E0, OLDJ, [T.le(0, k), T.lt(k, n)] + [T.not_(c) for c in off]):
                raise MapFail()
        if E0 is None:
            hy = [T.le(0, k), T.lt(k, n)] + [T.ne(k, K) for K, v in sols]
            if not prove_same(I, E, OLDJ, hy):
                raise MapFail()
        # two solutions at one index must be the same iteration
        for i in range(len(sols)):
            for q in range(i):
                (K1, v1), (K2, v2) = sols[i], sols[q]
                both = [v1, v2, rngK(K1), rngK(K2)]
                if not quick(hyp + both, T.eq(K1, K2), 600):
                    raise MapFail()
        # independence of reads
        check_reads(I, E, name, k, n, js, fn, olds, seq)

        def content(idx):
            sub = {j: i for j, i in zip(js, idx)}
            r = old(tuple(idx))
            for (K, valid) in sols:
                Ki = T.subst(K, sub)
                v = T.and_(T.subst(valid, sub), rngK(Ki))
                if guard is not None:
                    v = T.and_(v, guard(Ki))
                if v is T.FALSE:
                    continue
                s2 = dict(sub)
                s2[k] = Ki
                val = T.subst(E, s2)
                if val.op == "ite":
                    val = T.subst(val, {}) 
                val = simplify_under(val, v)
                val = resolve(val)
                r = T.ite(v, val, r)
            return r
        return content
    # no index dependence on k: accumulation  E = OLD + d(k)
    if k not in T.vars_of(E) and E is not OLDJ:
        # the same write in every iteration: idempotent if it does not read OLD
        if not any(x.op == "app" and x.val.startswith("OLD#") and x is not OLDJ for x in T.subterms(E)):
            E1 = T.subst(E, {OLDJ: T.var("old!", srt)})
            E2 = T.subst(E1, {T.var("old!", srt): E1})
            if E1 is E2 or prove_same(I, E2, E1, []):
                nonempty = T.lt(0, n)

                def content(idx):
                    sub = {j: i for j, i in zip(js, idx)}
                    return T.ite(nonempty, resolve(T.subst(E, sub)), old(tuple(idx)))
                if guard is None:
                    return content
        raise MapFail()
    x0 = T.var("old!", srt)
    E1 = T.subst(E, {OLDJ: x0})
    if any(x.op == "app" and x.val == name for x in T.subterms(E1)):
        raise MapFail()
    d = diff_ite(E1, x0)
    if d is None or x0 in T.vars_of(d):
        raise MapFail()
    if guard is not None:
        d = T.ite(guard(k), d, T.const(Fraction(0)))
    d = resolve(d)

    def content(idx):
        sub = {j: i for j, i in zip(js, idx)}
        return T.add(old(tuple(idx)), T.sum_(k, T.const(0), n, T.subst(d, sub)))
    return content


def diff_ite(E, x0):
    """E - x0 with conditionals distributed"""
    if E.op == "ite":
        a, b = diff_ite(E.args[1], x0), diff_ite(E.args[2], x0)
        if a is None or b is None:
            return None
        return T.ite(E.args[0], a, b)
    return T.sub(E, x0)


def simplify_under(t, v):
    """use the literals of v (a conjunction) to simplify conditions in t syntactically"""
    lits = v.args if v.op == "and" else (v,)
    m = {}
    for l in lits:
        m[l] = T.TRUE
        nl = T.not_(l)
        if nl.op != "not":
            m[nl] = T.FALSE
    return T.subst(t, m)


def prove_same(I, a, b, hyps):
    """a == b under pc+hyps, by deciding the conditions of a"""
    if a is b:
        return True
    hyp = list(I.pc) + [h for h in hyps if h is not T.TRUE]
    if a.op == "ite":
        c = a.args[0]
        if quick(hyp, c, 500):
            return prove_same(I, a.args[1], b, hyps)
        if quick(hyp, T.not_(c), 500):
            return prove_same(I, a.args[2], b, hyps)
        return prove_same(I, a.args[1], b, list(hyps) + [c]) and prove_same(I, a.args[2], b, list(hyps) + [T.not_(c)])
    if a.sort != b.sort and not {a.sort, b.sort} <= {"I", "R"}:
        return False
    return quick(hyp, T.eq(a, b), 800)


def check_reads(I, E, name, k, n, js, fn, olds, seq):
    """every read OLD(idx) inside E other than OLD(j) itself must not be touched by another iteration"""
    OLDJ = [x for x in T.subterms(E) if x.op == "app" and x.val in {nm for nm, _ in olds.values()}]
    k2 = T.fresh("k", "I")
    for x in OLDJ:
        cell = [c for c, (nm, _) in olds.items() if nm == x.val][0]
        if x.val == name and tuple(x.args) == tuple(js):
            continue
        # content after iteration k2 at that index must still be OLD there, for k2 != k
        if x.val == name:
            E2 = T.subst(fn(tuple(x.args)), {})
            # fn is in terms of iteration k; rename k in the body to k2 but keep the index
            fresh_js = [T.fresh("j", "I") for _ in js]
            Eg = T.subst(fn(tuple(fresh_js)), {k: k2})
            E2 = T.subst(Eg, dict(zip(fresh_js, x.args)))
            if not prove_same(I, E2, x, [T.le(0, k), T.lt(k, n), T.le(0, k2), T.lt(k2, n), T.ne(k, k2)]):
                raise MapFail()
        else:
            raise MapFail()


# ---------------------------------------------------------------------------------------------- general loops
def while_loop(I, s, fr):
    if s.orelse:
        raise Unsupported("while-else")
    # concrete loops are unrolled
    def test():
        return I.truth_term(I.eval(s.test, fr))
    n = 0
    while True:
        m = mark()
        c = test()
        if c.op != "c":
            if I.implied(T.not_(c)):
                return None
            break
        if not c.val:
            return None
        if n == 0 and I.hooks.get("cut_while") and I.hooks["cut_while"](s, fr):
            break
        n += 1
        if n > 400:
            raise Unsupported("long concrete while loop")
        if n > 3 and any(True for _ in ()):
            break
        # a loop whose test is constant True relies on break: cut it
        if isinstance(s.test, ast.Constant):
            break
        r = None
        # try concrete execution of one iteration; if the test becomes symbolic afterwards, cut there
        r = I.exec_block(s.body, fr)
        if r is not None:
            if r[0] == "break":
                return None
            if r[0] == "ret":
                return r
    return general_loop(I, test, lambda item: I.exec_block(s.body, fr), None, fr, s)


LV = "lv#%d:%s"


def loc_name(loc):
    cell, key = loc
    return "%s" % (key,)


def general_loop(I, test, body, seq, fr, node=None):
    """havoc the write set, infer invariants, execute one arbitrary iteration, continue from its exits"""
    from .interp import isnum
    floor = V.Cell._n
    n = T.const(seq.n) if seq is not None else None
    idxcell = Cell()
    hset(idxcell, "k", 0)

    def iteration():
        I.inloop += 1
        try:
            return iteration_()
        finally:
            I.inloop -= 1

    def iteration_():
        if seq is not None:
            k = T.const(idxcell.d["k"])
            if not I.decide(T.lt(k, n)):
                return ("break", "exhausted")
            r = body(seq.item(k))
        else:
            c = test()
            if not I.decide(c):
                return ("break", "test")
            r = body(None)
        if r is None or r[0] in ("normal", "continue"):
            if seq is not None:
                hset(idxcell, "k", simp(T.add(T.const(idxcell.d["k"]), T.const(1))))
            return ("normal", None)
        return r

    def protect(f):
        a, b = len(I.obligations), set(I.obset)
        r = f()
        del I.obligations[a:]
        I.obset = b
        return r

    def leave(outs):
        exits = []
        for o in outs:
            if o.kind == "normal":
                continue
            exits.append(o)
        # never-terminating paths are not continued (partial correctness)
        brk = [o for o in exits if o.kind == "break"]
        oth = [o for o in exits if o.kind != "break"]
        old_floor = I.fresh_floor
        I.fresh_floor = floor
        try:
            brk = I.merge_outcomes(brk)
        finally:
            I.fresh_floor = old_floor
        groups = brk + oth
        if not groups:
            raise Infeasible()
        ch = I.choose(len(groups))
        g = groups[ch]
        I.apply(g)
        if g.kind in ("raise", "exit"):
            raise g.value
        if g.kind == "ret":
            return ("ret", g.value)
        return None

    W = {}
    init = {}

    def collect(outs):
        new = False
        for o in outs:
            for loc, (old, val) in o.changes.items():
                if loc[0].uid <= floor or loc[0] is idxcell:
                    if loc not in W:
                        W[loc] = True
                        init[loc] = loc[0].d.get(loc[1], MISSING)
                        new = True
        return new

    names = {}

    def havoc(mk):
        """replace every written location by an arbitrary value of its kind"""
        vals = {}
        for i, loc in enumerate(list(W)):
            cell, key = loc
            v = init[loc]
            nm = "%d:%s" % (i, key)
            if loc in nanmode:
                nv = NAN
            elif isinstance(v, bool) or isinstance(v, T.Term) and v.sort == "B":
                nv = mk(nm, "B")
            elif isinstance(v, int) or isinstance(v, T.Term) and v.sort == "I":
                nv = mk(nm, "R" if realloc.get(loc) else "I")
            elif isinstance(v, T.Term) and v.sort == "R":
                nv = mk(nm, "R")
            elif isinstance(cell, Buf) and key == "c":
                nv = memo_content(lambda idx, nm=nm, cell=cell: mk(nm, "I" if cell.dtype == "i" else "R", idx))
            elif isinstance(v, Arr):
                nv = Arr(Buf(v.shape, lambda idx, nm=nm, v=v: mk(nm, "I" if v.dtype == "i" else "R", idx), v.dtype))
            elif isinstance(cell, PyList) and key == "items" and all(isinstance(x, Arr) or isnum(x) for x in v):
                items = []
                for q, x in enumerate(v):
                    if isinstance(x, Arr):
                        items.append(Arr(Buf(x.shape, lambda idx, nm=nm, q=q, x=x: mk("%s[%d]" % (nm, q), "R", idx), x.dtype)))
                    else:
                        items.append(mk("%s[%d]" % (nm, q), T.const(x).sort))
                nv = tuple(items)
            elif v is MISSING or isinstance(v, Poison) or isinstance(v, Maybe):
                nv = Poison("not assigned before the loop", key)
            elif isinstance(v, Iterator):
                nv = v
            else:
                nv = const_loc(loc, v)
            vals[loc] = nv
            if nv is MISSING:
                hdel(cell, key)
            else:
                hset(cell, key, nv)
        return vals

    realloc = {}
    nanmode = set()         # locations that are NaN in the mode under consideration (not a number is a separate mode)

    def const_loc(loc, v):
        if v is NAN:
            return NAN
        return Poison("unmodelled loop variable", loc[1])

    def sortfix(outs):
        """an int variable that receives a real becomes real"""
        ch = False
        for o in outs:
            for loc in W:
                if loc in o.changes:
                    nv = o.changes[loc][1]
                    if isinstance(nv, T.Term) and nv.sort == "R" and (isinstance(init[loc], int) or isinstance(init[loc], T.Term) and init[loc].sort == "I"):
                        if not realloc.get(loc):
                            realloc[loc] = True
                            ch = True
        return ch

    def infer_writes(outs):
        sortfix(outs)
        for _ in range(5):
            m = mark()
            try:
                havoc(lambda nm, s, idx=(): T.var(LV % (len(I.skolem), nm), s) if not idx else T.app("lv:" + nm, *idx, sort=s))
                outs = protect(lambda: I.explore(iteration))
            finally:
                undo(m)
            a = collect(outs)
            b = sortfix(outs)
            if not a and not b:
                break
        else:
            raise Unsupported("loop write set does not stabilise")
        # real variables that an iteration can turn into NaN: one mode per set of NaN variables
        nans = [l for l in W if isinstance(l[0], V.Frame) and isnum(init[l])
                and any(l in o.changes and o.changes[l][1] is NAN for o in outs if o.kind == "normal")]
        if nans:
            if len(nans) > 1:
                raise Unsupported("several loop variables can become NaN")
            nanmode.add(nans[0])
            m = mark()
            try:
                havoc(lambda nm, s, idx=(): T.var(LV % (len(I.skolem), nm), s) if not idx else T.app("lv:" + nm, *idx, sort=s))
                nouts = protect(lambda: I.explore(iteration))
            finally:
                undo(m)
            if collect(nouts):
                raise Unsupported("loop write set grows once a variable is NaN")
            for o in nouts:
                if o.kind == "normal" and o.changes.get(nans[0], (None, NAN))[1] is not NAN:
                    raise Unsupported("a NaN loop variable becomes a number again")
            nanmode.clear()
        return nans

    # what is inferred about the loop is kept: the same point of the same path is met again when alternatives are replayed
    start = tuple(T.scope)
    known = I.loopcache.get((id(node), start)) if node is not None else None
    nans = []
    if known is None:
        outs = protect(lambda: I.explore(iteration))
        if os.environ.get("PYVC_LOOP"):
            print("LOOP first", [(o.kind, T.show(o.pc[-1])[:300] if o.pc else "") for o in outs], flush=True)
        once = all(o.kind != "normal" for o in outs)
        if not once:
            collect(outs)
            nans = infer_writes(outs)
        if all(l[0] is fr or l[0] is idxcell for l in W):
            I.loopcache[(id(node), start)] = (node, once, [(l[0] is fr, l[1]) for l in W],
                                              [l[1] for l in realloc if l[0] is fr], [l[1] for l in nans])
    else:
        _, once, ws, rl, nn = known
        for l in [(fr if q else idxcell, w) for q, w in ws]:
            W[l] = True
            init[l] = l[0].d.get(l[1], MISSING)
        for w in rl:
            realloc[(fr, w)] = True
        nans = [(fr, w) for w in nn]
    T.scope[:] = [T.place(("loop",) + start), 0]
    if once:
        # no iteration is followed by another one
        return leave(I.explore(iteration))
    if nans:
        b = T.fresh("nanmode", "B")
        if I.choose(2) == 0:
            I.assume(T.not_(b))
        else:
            nanmode.add(nans[0])
            I.assume(b)
    # scalar-only loops get a functional symbol; others fresh symbols
    scalar = all(not (isinstance(l[0], Buf) or isinstance(init[l], Arr) or isinstance(l[0], PyList)) for l in W)
    start = tuple(T.scope)
    functional = scalar and not I.hooks.get("loop_inv")
    uid = T.next_id()
    inferred = I.loopcache.get((id(node), start, "inv")) if functional and known is not None else None
    toks = []
    if inferred is not None:
        toks, consts, kept = inferred
    elif functional:
        # transition token over canonical variables
        m = mark()
        toks = []
        try:
            cv = havoc(lambda nm, s, idx=(): T.var("lv#" + nm.split(":")[0], s))
            pc0 = list(I.pc)
            outs = protect(lambda: I.explore(iteration))
            conts = [o for o in outs if o.kind == "normal" and not any(c[1] is NAN for c in o.changes.values())]
            exits = [o for o in outs if o.kind != "normal"]
            for loc in W:
                if not isinstance(cv[loc], T.Term):
                    continue
                r = cv[loc]
                for o in conts:
                    nv = o.changes[loc][1] if loc in o.changes else cv[loc]
                    if isnum(nv):
                        r = T.ite(T.and_(*o.pc), T.const(nv), r) if o is not conts[0] or len(conts) > 1 else T.const(nv)
                toks.append(r)
            toks.append(T.or_(*[T.and_(*o.pc) for o in exits if o.kind == "break"]) if exits else T.FALSE)
        finally:
            undo(m)
    else:
        m = mark()
        try:
            havoc(lambda nm, s, idx=(): T.var(LV % (len(I.skolem), nm), s) if not idx else T.app("lv:" + nm, *idx, sort=s))
            outs = protect(lambda: I.explore(iteration))
        finally:
            undo(m)
    if functional:
        its = [T.const(init[l]) for l in W if isnum(init[l])]
        token = tuple(its + toks)
        mkv = lambda nm, s, idx=(): T.app("loop:" + nm.split(":")[0], *token, *idx, sort=s)
    else:
        mkv = lambda nm, s, idx=(): T.app("loop%d:%s" % (uid, nm), *(list(I.skolem) + list(idx)), sort=s) \
            if (I.skolem or idx) else T.var("loop%d:%s" % (uid, nm), s)

    # invariants ------------------------------------------------------
    def state_vals(getter):
        return {loc: getter(loc) for loc in W}

    cands = []      # (name, fn(vals) -> Term or None)
    nums = [l for l in W if isnum(init[l]) and not realloc.get(l) and T.const(init[l]).sort == "I"]
    for a_i in range(len(nums)):
        for b_i in range(a_i):
            la, lb = nums[a_i], nums[b_i]
            d = T.sub(T.const(init[la]), T.const(init[lb]))
            if d.op == "c":
                cands.append(("diff", lambda v, la=la, lb=lb, d=d: T.eq(T.sub(T.const(v[la]), T.const(v[lb])), d)))
    for la in nums:
        cands.append(("lower", lambda v, la=la, c=T.const(init[la]): T.le(c, T.const(v[la]))))
    if seq is not None:
        cands.append(("idx", lambda v: T.le(T.const(v[(idxcell, "k")]), n) if (idxcell, "k") in v else None))
    if inferred is None:
        consts = set()
        for o in outs:
            for c in o.pc:
                for x in T.subterms(c):
                    if x.op in ("ge0", "gt0", "eq0") and x.args[0].sort == "I" and x.args[0].op == "add":
                        c0 = x.args[0].val[0]
                        if c0.denominator == 1 if isinstance(c0, Fraction) else True:
                            consts |= {abs(int(c0)) + d for d in (-1, 0, 1)}
    if len(consts) <= 24:
        for la in nums:
            for c in sorted(consts):
                if T.const(init[la]).op == "c" and c < 10000:
                    cands.append(("upper", lambda v, la=la, c=c: T.le(T.const(v[la]), T.const(c))))
    for l in W:
        if isinstance(init[l], bool):
            cands.append(("flag", lambda v, l=l: T.eq(T.const(v[l]), T.const(init[l])) if isnum(v[l]) else None))
    extra = I.hooks.get("loop_inv")
    if extra:
        cands += extra(I, W, init)

    def holds(f, vals, pc):
        try:
            t = f(vals)
        except (KeyError, TypeError, Unsupported):
            return False
        if t is None:
            return False
        t = T.const(t)
        from .prove import relevant as rel
        hy = list(pc)
        fs = I.facts([t] + hy)
        return quick(hy + fs, t, 2000)

    if inferred is not None:
        cands = [cands[i] for i in kept]
    else:
        every = cands
        cands = [c for c in cands if holds(c[1], init, I.pc)]
        for rnd in range(12):
            m = mark()
            try:
                vals = havoc(mkv)
                pc0 = list(I.pc)
                for c in cands:
                    I.assume(c[1](vals))
                outs = protect(lambda: I.explore(iteration))
                pcs = list(I.pc)
                bad = set()
                for o in outs:
                    if o.kind != "normal":
                        continue
                    after = {loc: (o.changes[loc][1] if loc in o.changes else vals[loc]) for loc in W}
                    pc = pcs + list(o.pc)
                    if quick(pc + I.facts(pc), T.FALSE, 500):
                        continue
                    for ci, c in enumerate(cands):
                        if ci not in bad and not holds(c[1], after, pc):
                            bad.add(ci)
                I.pc = pc0
            finally:
                undo(m)
            if not bad:
                break
            cands = [c for ci, c in enumerate(cands) if ci not in bad]
        if functional and node is not None:
            I.loopcache[(id(node), start, "inv")] = (toks, consts, [i for i, c in enumerate(every) if any(c is d for d in cands)])
    T.scope[:] = [T.place(("inv",) + start), 0]
    # final: arbitrary iteration under the invariants
    vals = havoc(mkv)
    for c in cands:
        I.assume(c[1](vals))
    I.hook("loop_head", I, W, init, vals, cands)
    pre_pc = list(I.pc)
    outs = I.explore(iteration)
    # aliasing sanity: arrays bound to distinct written locations must be distinct buffers
    for o in outs:
        seen = {}
        for loc in W:
            v = o.changes.get(loc, (None, None))[1]
            if isinstance(v, Arr):
                if v.buf.uid in seen:
                    raise Unsupported("loop-carried array aliasing")
                seen[v.buf.uid] = loc
    I.hook("loop_iteration", I, W, vals, outs)
    return leave(outs)


class LoopC(Unsupported):
    def __init__(self, msg, pname=None):
        Unsupported.__init__(self, msg)
        self.pname = pname
