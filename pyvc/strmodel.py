"""Strings with symbolic pieces, formatting, and a virtual file system (what is written is what is read)."""
import re as _re
import string as _string
from fractions import Fraction
from . import terms as T
from . import values as V
from .values import *


def is_str(x):
    return isinstance(x, (str, StrVal)) or isinstance(x, T.Term) and x.sort == "S"


def parts_of(x):
    if isinstance(x, str):
        return [x] if x else []
    if isinstance(x, StrVal):
        return list(x.parts)
    return [("fmt", "s", x)]


WS = " \t\r\n\f\v"


def has_header(I, s):
    return None


def install(I, d):
    def mk(parts):
        s = StrVal(parts)
        if all(isinstance(p, str) for p in s.parts):
            return "".join(s.parts)
        if len(s.parts) == 1 and isinstance(s.parts[0], tuple) and s.parts[0][1] == "s" and isinstance(s.parts[0][2], T.Term):
            return s.parts[0][2]
        return s

    def opaque_part(p):
        """a formatted piece that contains neither blanks nor separators"""
        return isinstance(p, tuple)

    def split_on(s, seps):
        """split StrVal on single-character separators; formatted pieces contain none of them"""
        out = [[]]
        for p in parts_of(s):
            if isinstance(p, str):
                cur = ""
                for ch in p:
                    if ch in seps:
                        out[-1].append(cur)
                        cur = ""
                        out.append([])
                    else:
                        cur += ch
                out[-1].append(cur)
            else:
                if p[1] == "s" and isinstance(p[2], T.Term) and not I.hooks.get("plain_strings"):
                    raise Unsupported("splitting a symbolic string")
                out[-1].append(p)
        return [mk(x) for x in out]
    d["__split_on__"] = split_on

    def strip_right(s, chars=WS):
        ps = parts_of(s)
        while ps:
            p = ps[-1]
            if isinstance(p, str):
                q = p.rstrip(chars)
                if q:
                    ps[-1] = q
                    break
                ps.pop()
                continue
            if p[0] == "ws":
                ps.pop()
                continue
            break
        return mk(ps)

    def strip_left(s, chars=WS):
        ps = parts_of(s)
        while ps:
            p = ps[0]
            if isinstance(p, str):
                q = p.lstrip(chars)
                if q:
                    ps[0] = q
                    break
                ps.pop(0)
                continue
            if p[0] == "ws":
                ps.pop(0)
                continue
            if p[1] == "s" and isinstance(p[2], T.Term):
                ps[0] = ("fmt", "s", T.app("lstrip", p[2], sort="S"))
            break
        return mk(ps)

    def fmt_template(tpl, args, kw):
        out = []
        auto = 0
        for lit, field, spec, conv in _string.Formatter().parse(tpl):
            if lit:
                out.append(lit)
            if field is None:
                continue
            m = _re.match(r"^(\w*)(.*)$", field)
            base, rest = m.group(1), m.group(2)
            if base == "":
                v = args[auto]
                auto += 1
            elif base.isdigit():
                if int(base) >= len(args):
                    raise PyRaise("IndexError", "format argument")
                v = args[int(base)]
            else:
                if base not in kw:
                    raise PyRaise("KeyError", base)
                v = kw[base]
            for a in _re.findall(r"\.(\w+)|\[(\w+)\]", rest):
                v = I.getattr(v, a[0]) if a[0] else I.getitem(v, int(a[1]) if a[1].isdigit() else a[1])
            if spec and "{" in spec:
                spec = fmt_template(spec, args, kw)
                if not isinstance(spec, str):
                    raise Unsupported("symbolic format spec")
            out.append(I.fmt(v, spec or ""))
        return I.mkstr(out)

    def test(name, s, x):
        """contains / startswith / endswith with possibly symbolic strings"""
        if isinstance(s, str) and isinstance(x, str):
            return {"contains": x in s, "startswith": s.startswith(x), "endswith": s.endswith(x)}[name]
        h = I.hook("strtest", name, s, x)
        if h is not None:
            return h
        if isinstance(x, str) and isinstance(s, T.Term):
            return T.app(name, s, T.const(x), sort="B")
        if isinstance(x, str) and isinstance(s, StrVal):
            lits = [p for p in s.parts if isinstance(p, str)]
            if name == "contains" and any(x in p for p in lits):
                return True
            if name == "startswith" and s.parts and isinstance(s.parts[0], str):
                p = s.parts[0]
                if len(p) >= len(x):
                    return p.startswith(x)
                if not x.startswith(p):
                    return False
            if name == "endswith" and s.parts and isinstance(s.parts[-1], str):
                p = s.parts[-1]
                if len(p) >= len(x):
                    return p.endswith(x)
                if not x.endswith(p):
                    return False
        raise Unsupported("string test on symbolic strings")

    def strmethods(o, name):
        b = lambda f: Builtin(name, f)
        if name == "format":
            if not isinstance(o, str):
                raise Unsupported("format of a symbolic template")
            return b(lambda *a, **k: fmt_template(o, a, k))
        if name in ("rstrip", "lstrip", "strip"):
            def strip(chars=None):
                if isinstance(o, str):
                    return getattr(o, name)(chars)
                ch = chars or WS
                r = o
                if name in ("rstrip", "strip"):
                    r = strip_right(r, ch)
                if name in ("lstrip", "strip"):
                    r = strip_left(r, ch)
                return r
            return b(strip)
        if name == "split":
            def split(sep=None, maxsplit=-1):
                if isinstance(o, str) and (sep is None or isinstance(sep, str)):
                    return PyList(o.split(sep, maxsplit))
                if maxsplit != -1:
                    raise Unsupported("maxsplit on symbolic string")
                if sep is None:
                    h = I.hook("blanksplit", o)
                    if h is not None:
                        return h
                    if isinstance(o, StrVal) and all(isinstance(p, str) or p[1] != "s" or I.hooks.get("plain_strings") for p in o.parts):
                        return PyList([x for x in split_on(o, WS) if not (isinstance(x, str) and x == "")])
                    t = mk(parts_of(o))
                    if isinstance(t, T.Term):
                        return SymSeq(T.app("ntok", t, sort="I"), lambda k: T.app("tok", t, k, sort="S"))
                    ps = parts_of(o)
                    core = [p for p in ps if not (isinstance(p, str) and p.strip(WS) == "") and p[0] != "ws"]
                    if len(core) == 1 and not isinstance(core[0], str) and isinstance(core[0][2], T.Term):
                        t = core[0][2]
                        return SymSeq(T.app("ntok", t, sort="I"), lambda k: T.app("tok", t, k, sort="S"))
                    raise Unsupported("split of symbolic string")
                if len(sep) == 1:
                    return PyList(split_on(o, sep))
                raise Unsupported("split of symbolic string")
            return b(split)
        if name in ("startswith", "endswith"):
            def sw(x):
                if isinstance(x, tuple):
                    return I.builtins["any"].fn(PyList([test(name, o, y) for y in x]))
                return test(name, o, x)
            return b(sw)
        if name == "join":
            def join(xs):
                its = I.tolist(xs)
                out = []
                for i, x in enumerate(its):
                    if i:
                        out.append(o)
                    if not is_str(x):
                        raise PyRaise("TypeError", "join of non-strings")
                    out.append(I.strpart(x) if isinstance(x, T.Term) else x)
                return I.mkstr(out)
            return b(join)
        if isinstance(o, str) and name in ("lower", "upper", "title", "capitalize", "replace", "count", "find", "index", "isdigit", "zfill",
                                           "ljust", "rjust", "center", "splitlines", "partition", "rpartition", "isspace", "rfind", "encode",
                                           "isalpha", "isalnum", "swapcase", "rsplit", "casefold"):
            def f(*a):
                try:
                    r = getattr(o, name)(*a)
                except (ValueError, IndexError) as e:
                    raise PyRaise(type(e).__name__, str(e))
                return PyList(r) if isinstance(r, list) else r
            return b(f)
        if name in ("lower", "upper") and isinstance(o, T.Term):
            return b(lambda: T.app(name, o, sort="S"))
        raise Unsupported("string method %s on a symbolic string" % name)
    d["__strmethods__"] = strmethods
    d["__strcontains__"] = lambda x, s: test("contains", s, x)

    def stritem(s, k):
        if isinstance(s, str):
            if isinstance(k, SliceVal):
                g = lambda x: x if x is None else I.cint(x)
                return s[slice(g(k.lo), g(k.hi), g(k.step))]
            k = I.cint(k)
            if not -len(s) <= k < len(s):
                raise PyRaise("IndexError", "string index out of range")
            return s[k]
        raise Unsupported("index of a symbolic string")
    d["__stritem__"] = stritem

    def strnum(x, kind):
        """int()/float() of a string with one formatted number"""
        ps = [p for p in parts_of(x) if not (isinstance(p, str) and p.strip(WS) == "") and not (isinstance(p, tuple) and p[0] == "ws")]
        if len(ps) != 1 or isinstance(ps[0], str):
            raise Unsupported("number from a composite string")
        _, spec, v = ps[0]
        if isinstance(v, T.Term) and v.sort == "S":
            return T.app(kind + "_of", v, sort="I" if kind == "int" else "R")
        if not isinstance(v, T.Term):
            raise Unsupported("number from string")
        m = _re.match(r"^([<>=^ +#0-9]*?)(?:\.(\d+))?([dDeEfFgG]?)$", spec)
        if not m:
            raise Unsupported("format spec " + spec)
        prec, ty = m.group(2), m.group(3)
        if v.sort == "I" and ty in ("d", "") and prec is None:
            return v if kind == "int" else T.toR(v)
        if kind == "int":
            raise PyRaise("ValueError", "invalid literal for int()")
        if ty in ("e", "E") and prec is not None and int(prec) >= 16:
            return T.toR(v)
        if ty in ("g", "G") and prec is not None and int(prec) >= 17:
            return T.toR(v)
        if ty == "" and prec is None:
            return T.toR(v)       # repr round-trips
        if v.op == "c" and v.val == 0:
            return T.toR(v)
        return T.app("rounded:" + spec, v)
    d["__strnum__"] = strnum

    # ------------------------------------------------------------------ files
    def fkey(name):
        return StrVal([name]).key() if isinstance(name, (str, StrVal)) else ("term", name.id)

    def open_(name, mode="r", **k):
        h = I.hook("open", name, mode)
        if h is not None:
            return h
        if I.vfs is None:
            raise Unsupported("open()")
        key = fkey(name)
        if "w" in mode:
            cell = I.vfs
            files = dict(cell.d["files"])
            files[key] = {"text": (), "table": None}
            hset(cell, "files", files)
            return VFile(I, key, "w")
        if key not in I.vfs.d["files"]:
            raise PyRaise("FileNotFoundError", repr(name))
        return VFile(I, key, "r")
    I.open_ = open_

    def savetxt(fname, X, fmt="%.18e", delimiter=" ", newline="\n", header="", footer="", comments="# ", encoding=None):
        if I.vfs is None:
            raise Unsupported("savetxt")
        if not isinstance(fmt, str) or newline != "\n" or footer != "" or not isinstance(comments, str) or not isinstance(delimiter, str):
            raise Unsupported("savetxt options")
        a = I.np.asarr(X)
        if len(a.shape) == 1:
            a = I.np.view(a, [SliceVal(None, None, None), None])
        n, m = a.shape
        specs = _re.findall(r"%[^%a-zA-Z]*[a-zA-Z]", fmt)
        lines = []
        if not (isinstance(header, str) and header == ""):
            for ln in split_lines(header):
                lines.append(mk([comments] + parts_of(ln)))
        mc = T.const(m)
        if len(specs) == 1:
            delim = delimiter
            sp = specs * (int(mc.val) if mc.op == "c" else 1)
            uniform = specs[0]
        else:
            if mc.op != "c" or len(specs) != int(mc.val):
                raise PyRaise("ValueError", "fmt has wrong number of % formats")
            uniform = None
            seps = _re.split(r"%[^%a-zA-Z]*[a-zA-Z]", fmt)[1:-1]
            if len(set(seps)) != 1:
                raise Unsupported("savetxt separators")
            delim = seps[0]
            sp = specs
        r = a.reader()
        files = dict(I.vfs.d["files"])
        key = fkey(fname)
        if key in files:
            I.hook("overwrite", fname)
        files[key] = {"text": tuple(lines), "table": {"n": n, "m": m, "at": r, "specs": sp, "uniform": uniform, "delim": delim,
                                                       "comments": comments, "dtype": a.dtype}, "name": fname}
        hset(I.vfs, "files", files)
        order = I.vfs.d.get("order", ())
        hset(I.vfs, "order", order + (key,))
    I.savetxt = savetxt

    def loadtxt(fname, dtype=None, comments="#", delimiter=None, converters=None, skiprows=0, usecols=None, unpack=False, ndmin=0, **k):
        if I.vfs is None:
            raise Unsupported("loadtxt")
        key = fkey(fname)
        f = I.vfs.d["files"].get(key)
        if f is None:
            raise PyRaise("FileNotFoundError", repr(fname))
        t = f["table"]
        if t is None:
            raise Unsupported("loadtxt of a text file")
        if skiprows != 0 or converters is not None or dtype is not None and not (isinstance(dtype, Builtin) and dtype.name == "float"):
            raise Unsupported("loadtxt options")
        if comments != "#" or not t["comments"].startswith("#"):
            raise Unsupported("loadtxt comment character")
        if (delimiter is None and t["delim"].strip() != "") or (delimiter is not None and t["delim"].strip() != delimiter.strip()):
            raise PyRaise("ValueError", "could not convert string to float")
        at, specs, uniform = t["at"], t["specs"], t["uniform"]

        def cell(i, j):
            v = T.toR(at((i, j)))
            j = T.const(j)
            if uniform is not None:
                sp = uniform
            elif j.op == "c":
                sp = specs[int(j.val)]
            else:
                raise Unsupported("column of mixed formats")
            return strnum(StrVal([("fmt", sp[1:], v)]), "float")
        n, m = t["n"], T.const(t["m"])
        I.require(T.lt(1, n), "loadtxt reads at least two rows (a single row would be squeezed)") if ndmin < 2 else None
        if usecols is not None:
            cols = [I.cint(usecols)] if isinstance(usecols, int) else [I.cint(c) for c in I.tolist(usecols)]
            for c in cols:
                I.require(T.lt(T.const(c), m), "column exists")
            if len(cols) == 1 and ndmin < 2:
                return I.np.fresh((n,), lambda idx: cell(idx[0], cols[0]))
            a = I.np.table_cols(n, cols, cell)
        else:
            I.require(T.lt(1, m), "loadtxt reads at least two columns") if ndmin < 2 else None
            a = I.np.fresh((n, m), lambda idx: cell(idx[0], idx[1]))
        if unpack:
            return I.np.transpose(a)
        return a
    I.loadtxt = loadtxt

    def table_cols(n, cols, cell):
        def fn(idx):
            j = T.const(idx[1])
            r = cell(idx[0], cols[-1])
            if j.op == "c":
                return cell(idx[0], cols[int(j.val)])
            for q in range(len(cols) - 2, -1, -1):
                r = T.ite(T.eq(j, q), cell(idx[0], cols[q]), r)
            return r
        return I.np.fresh((n, len(cols)), fn)
    I.np.table_cols = table_cols

    def split_lines(s):
        out = [[]]
        for p in parts_of(s):
            if isinstance(p, str):
                seg = p.split("\n")
                out[-1].append(seg[0])
                for x in seg[1:]:
                    out.append([x])
            else:
                out[-1].append(p)
        return [mk(x) for x in out]
    d["__split_lines__"] = split_lines


class VFile:
    """file in the virtual file system"""
    def __init__(self, I, key, mode):
        self.I, self.key, self.mode = I, key, mode
        self.cell = Cell()
        hset(self.cell, "pos", 0)

    stream = True

    def for_loop(self, I, s, fr):
        """line by line; the hook loop_head may replace the state the first iteration starts from by an arbitrary one"""
        I.hook("loop_head", s, fr, self)
        while True:
            ln = self.next_line()
            if ln is None:
                break
            I.assign(s.target, ln, fr)
            r = I.exec_block(s.body, fr)
            if r is None or r[0] in ("continue", "normal"):
                continue
            if r[0] == "break":
                return None
            return r
        return I.exec_block(s.orelse, fr) if s.orelse else None

    def lines(self):
        I = self.I
        f = I.vfs.d["files"][self.key]
        if f["table"] is None:
            s = I.mkstr(list(f["text"]))
            ls = I.builtins["__split_lines__"](s)
            out = [I.mkstr([x, "\n"]) if not isinstance(x, T.Term) else StrVal([("fmt", "s", x), "\n"]) for x in ls[:-1]]
            if not (isinstance(ls[-1], str) and ls[-1] == ""):
                out.append(ls[-1])
            return out, True
        return [I.mkstr([I.strpart(x), "\n"]) for x in f["text"]], False

    def next_line(self):
        ls, complete = self.lines()
        p = self.cell.d["pos"]
        if p >= len(ls):
            if not complete:
                raise Unsupported("reading data lines as text")
            return None
        hset(self.cell, "pos", p + 1)
        return ls[p]

    def py_next(self, *default):
        ln = self.next_line()
        if ln is None:
            if default:
                return default[0]
            raise PyRaise("StopIteration")
        return ln

    def py_getattr(self, n):
        I = self.I
        if n == "write":
            def write(s):
                files = dict(I.vfs.d["files"])
                f = dict(files[self.key])
                f["text"] = f["text"] + (I.strpart(s) if isinstance(s, T.Term) else s,)
                files[self.key] = f
                hset(I.vfs, "files", files)
            return Builtin("write", write)
        if n == "readline":
            def readline():
                ln = self.next_line()
                return "" if ln is None else ln
            return Builtin("readline", readline)
        if n == "close":
            return Builtin("close", lambda: None)
        if n == "writelines":
            return Builtin("writelines", lambda xs: [self.py_getattr("write").fn(x) for x in I.tolist(xs)] and None)
        raise Unsupported("file method " + n)


def re_module(I):
    def flat_alt(p):
        """single-character alternatives of a pattern, or None"""
        m = _re.match(r"^\[([^\]\\^-]+)\]$", p)
        if m:
            return m.group(1)
        alts = p.split("|")
        if all(len(a) == 1 and a not in ".^$*+?()[]{}\\" for a in alts):
            return "".join(alts)
        return None

    def split(p, s, maxsplit=0):
        if isinstance(p, RePat):
            p = p.p
        if isinstance(s, str):
            return PyList(_re.split(p, s, maxsplit))
        seps = flat_alt(p)
        if seps is None or maxsplit:
            raise Unsupported("re.split on a symbolic string")
        return PyList(I.builtins["__split_on__"](s, seps))

    def unsup(*a, **k):
        raise Unsupported("re on a symbolic string")

    def compile_(p, flags=0):
        return RePat(p, split)
    return Module("re", None, {"split": Builtin("split", split), "compile": Builtin("compile", compile_),
                               "match": Builtin("match", unsup), "search": Builtin("search", unsup), "findall": Builtin("findall", unsup),
                               "sub": Builtin("sub", lambda p, r, s: _re.sub(p, r, s) if isinstance(s, str) else unsup())})


class RePat:
    def __init__(self, p, split):
        self.p, self._split = p, split

    def py_getattr(self, n):
        if n == "split":
            return Builtin("split", lambda s, maxsplit=0: self._split(self.p, s, maxsplit))
        raise Unsupported("re pattern method " + n)
