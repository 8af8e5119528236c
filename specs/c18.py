import ast
from itertools import permutations
from pyvc.values import mark, diff
from .common import *

# header, attribute, kind, default
OPTIONS = (("PDE system", "system", "s", "advection"), ("RK scheme", "rk", "s", ""), ("riemann solver", "riemann", "s", "roe"),
           ("initial condition", "ic", "s", "sinewave"), ("number of outputs", "nout", "i", 10), ("final time", "finaltime", "f", 1),
           ("Courant-Friedrichs-Lewy condition", "cfl", "f", F(1, 2)), ("order", "order", "i", 1), ("limiting", "limiting", "s", ""),
           ("enhancement", "enhance", "s", ""), ("sensor thresholds", "sensor_thresholds", "l", ()))
JUNK = ("\n", "some text\n", "# a comment\n", "0.5\n", "   \n", "cfl 0.3\n", "#\n")
FN = "dg1d.deck.Deck.parser"


def spec(chk):
    chk.tasks([("defaults", lambda: defaults(chk)), ("one entry", lambda: entries(chk)), ("unknown lines", lambda: unknown(chk)),
               ("two entries", lambda: pairs(chk)), ("writer", lambda: writer(chk))])
    chk.assume_note("a header line is '#' followed by the option's name, possibly with blanks around; the value line follows it; string values carry no trailing blanks of their own")
    chk.assume_note("reading a file line by line returns what was written (virtual file system)")


def value(I, kind, tag):
    """(text parts of the value line, check(attribute value) -> obligations)"""
    if kind == "s":
        t = T.var("str" + tag, "S")
        return [("fmt", "s", t)], t
    if kind == "i":
        t = INT("int" + tag)
        return [("fmt", "d", t)], t
    if kind == "f":
        t = R("real" + tag)
        return [("fmt", "", t)], t
    t = T.var("list" + tag, "S")
    return [("fmt", "s", t)], t


def expect(chk, I, name, kind, got, want):
    kw = dict(hyps=list(I.pc), func=FN)
    if kind != "l":
        if isinstance(got, (T.Term, int, str)) and not isinstance(got, bool):
            g = T.const(got)
            if kind == "i":
                chk.require(name + ": is an integer", g.sort == "I", FN)
            if (g.sort == "S") != (kind == "s"):
                return chk.require(name, False, FN, "wrong kind of value")
            return chk.prove_eq(name, g, want, **kw)
        return chk.require(name, False, FN, "wrong kind of value %r" % (got,))
    k = T.fresh("k", "I")
    if isinstance(got, SymSeq):
        n = T.app("ntok", want, sort="I")
        chk.prove_eq(name + ": one number per blank-separated word", got.n, n, **kw)
        h = list(I.pc) + [T.le(0, k), T.lt(k, n)]
        chk.prove_eq(name + ": its numbers", got.item(k), T.app("float_of", T.app("tok", want, k, sort="S")), **dict(kw, hyps=h))
    else:
        chk.require(name, False, FN, "wrong kind of value %r" % (got,))


def arbitrary_state(I, deck):
    for h, a, kind, d in OPTIONS:
        t = {"s": T.var("old_" + a, "S"), "i": INT("old_" + a), "f": R("old_" + a), "l": T.var("old_" + a, "S")}[kind]
        I.setattr(deck, a, t)


def same_state(chk, I, name, deck, but=()):
    for h, a, kind, d in OPTIONS:
        if a in but:
            continue
        got = I.getattr(deck, a)
        t = {"s": T.var("old_" + a, "S"), "i": INT("old_" + a), "f": R("old_" + a), "l": T.var("old_" + a, "S")}[kind]
        chk.require("%s: %s is kept" % (name, a), got is t, FN, "%r" % (got,))


class Run:
    """parse the given lines; with step, the loop starts from an arbitrary state of the deck and of its own variables, as after
    any number of earlier iterations"""
    def __init__(self, I, lines, step):
        self.I = I
        self.ok = False
        I.vfs = Cell()
        hset(I.vfs, "files", {StrVal(["deck"]).key(): {"text": tuple(x for l in lines for x in l), "table": None}})
        self.deck = deck = I.call(cls(I, "deck", "Deck"), [], {})
        self.defaults = {a: I.getattr(deck, a) for h, a, k, d in OPTIONS}
        seen = []

        def head(s, fr, f):
            seen.append(s)
            arbitrary_state(I, deck)
            names = {n.id for b in s.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            names |= {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
            for n in names:
                if fr.d.get(n) is not deck:
                    hset(fr, n, Poison("read before it is assigned in this iteration", n))
            self.mark = mark()
            self.frame = fr
            self.file = f
        if step:
            I.hooks["loop_head"] = head
        I.call(I.getattr(deck, "parser"), ["deck"], {})
        if step:
            if len(seen) != 1:
                raise Unsupported("the parser is not one loop over the lines of the file")
            ch = diff(self.mark)
            allowed = {deck.uid, self.file.cell.uid, self.frame.uid}
            bad = [c for (c, k) in ch if c.uid not in allowed and c.uid < self.frame.uid]
            if bad:
                raise Unsupported("the parser keeps state outside the deck between lines")
        self.pos = self.file.cell.d["pos"] if step else None


def defaults(chk):
    I = chk.interp()

    def go():
        for step in (False,):
            r = Run(I, [], step)
            for h, a, kind, d in OPTIONS:
                for where, got in (("a new deck", r.defaults[a]), ("after an empty file", I.getattr(r.deck, a))):
                    if kind == "l":
                        chk.require("default of %s: %s" % (a, where), isinstance(got, PyList) and len(got.items) == 0, "dg1d.deck.Deck.__init__")
                    elif kind == "s":
                        chk.require("default of %s: %s" % (a, where), got == d, "dg1d.deck.Deck.__init__", repr(got))
                    else:
                        chk.prove_eq("default of %s: %s" % (a, where), got, K(d), func="dg1d.deck.Deck.__init__")
    chk.run(I, go, "defaults")


def entries(chk):
    for h, a, kind, d in OPTIONS:
        for pre, post, tail in (("", "", ()), ("", " ", (("ws",),)), ("  ", "", (("ws",),))):
            I = chk.interp()

            def go():
                txt, want = value(I, kind, "")
                r = Run(I, [[pre + "#" + h + post + "\n"], [StrVal(txt + list(tail) + ["\n"])]], True)
                nm = "entry '%s'%s%s" % (h, " with blanks" if post or pre else "", " and trailing blanks" if tail else "")
                expect(chk, I, nm + ": sets its option", kind, I.getattr(r.deck, a), want)
                same_state(chk, I, nm, r.deck, (a,))
                chk.require(nm + ": uses up exactly its two lines", r.pos == 2, FN)
            chk.run(I, go, "entry " + h)


def unknown(chk):
    for j in (None,) + JUNK:
        I = chk.interp()

        def go():
            if j is None:
                t = T.var("line", "S")
                for h, a, kind, d in OPTIONS:
                    I.assume(T.not_(T.app("contains", t, T.const("#" + h), sort="B")))
                I.hooks["strtest"] = lambda name, s, x: T.app(name, t, T.const(x), sort="B") if isinstance(s, StrVal) and isinstance(x, str) and "\n" not in x else None
                line = [StrVal([("fmt", "s", t), "\n"])]
            else:
                line = [j]
            r = Run(I, [line], True)
            nm = "unknown line %s" % ("of any text" if j is None else repr(j))
            same_state(chk, I, nm, r.deck)
            chk.require(nm + ": only that line is used up", r.pos == 1, FN)
        chk.run(I, go, "unknown")


def pairs(chk):
    """two entries in any order, whole files (bounded complement of the one-entry step)"""
    chk.bound("whole files of two entries enumerated; files of any length follow from the one-entry step, which starts from an arbitrary state")
    for h1, a1, k1, d1 in OPTIONS:
        for h2, a2, k2, d2 in OPTIONS:
            I = chk.interp()

            def go():
                t1, w1 = value(I, k1, "1")
                t2, w2 = value(I, k2, "2")
                r = Run(I, [["\n"], ["#" + h1 + "\n"], [StrVal(t1 + ["\n"])], ["# other\n"], ["#" + h2 + "\n"], [StrVal(t2 + ["\n"])]], False)
                nm = "'%s' then '%s'" % (h1, h2)
                if a1 != a2:
                    expect(chk, I, nm + ": first", k1, I.getattr(r.deck, a1), w1)
                expect(chk, I, nm + ": last one wins" if a1 == a2 else nm + ": second", k2, I.getattr(r.deck, a2), w2)
                for h, a, k, d in OPTIONS:
                    if a not in (a1, a2):
                        got = I.getattr(r.deck, a)
                        chk.require("%s: %s keeps its default" % (nm, a), got is r.defaults[a] or not isinstance(got, Cell) and got == r.defaults[a], FN)
            chk.run(I, go, "pair")


def writer(chk):
    orders = [list(range(11)), list(range(10, -1, -1)), [5, 0, 7, 3], [2, 2, 9], [6], []]
    for o in orders:
        I = chk.interp()

        def go():
            I.vfs = Cell()
            hset(I.vfs, "files", {})
            defs, want = [], {}
            for q, k in enumerate(o):
                h, a, kind, d = OPTIONS[k]
                txt, w = value(I, kind, str(q))
                defs.append((h, I.mkstr(txt) if kind != "s" and kind != "l" else w))
                want[a] = (kind, w)
            name = I.call(fn(I, "deck", "write_deck"), ["/work", PyList(defs)], {})
            chk.require("writer: the file is deck.inp in the given directory", isinstance(name, str) and name == "/work/deck.inp", "dg1d.deck.write_deck", repr(name))
            deck = I.call(cls(I, "deck", "Deck"), [], {})
            dflt = {a: I.getattr(deck, a) for h, a, k, d in OPTIONS}
            I.call(I.getattr(deck, "parser"), [name], {})
            for h, a, kind, d in OPTIONS:
                nm = "writer then parser %s: %s" % (o, a)
                if a in want:
                    expect(chk, I, nm, kind, I.getattr(deck, a), want[a][1])
                else:
                    got = I.getattr(deck, a)
                    chk.require(nm, got is dflt[a] or not isinstance(got, Cell) and got == dflt[a], "dg1d.deck.write_deck")
        chk.run(I, go, "writer")
    chk.bound("deck writer: any number of definitions in principle, the listed orders (all options both ways, subsets, repeats, none) with arbitrary values")
