"""Symbolic execution of the parsed source.

One execution covers all inputs and all sizes: integers and array contents are
symbolic, loops are summarised (see `summarise`), function calls either use a
contract registered in `contracts` or execute the callee's body.
"""
from fractions import Fraction
import re
from terms import *
import prove
from prove import Ctx, Split
from rustparse import N, P as Parser, ParseError, lex
from crate import tyname, tyargs, Fn
import sys

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    def __init__(self, msg, node=None):
        self.msg = msg
        self.line = getattr(node, "line", None)
        super().__init__(f"{msg} (line {self.line})")


class NeedFork(Exception):
    def __init__(self, cond):
        self.cond = cond


class Control(Exception):
    pass


class Return(Control):
    def __init__(self, v):
        self.v = v


class Break(Control):
    def __init__(self, lab, v=None):
        self.lab, self.v = lab, v


class ShapeChange(Unsupported):
    pass


class Continue(Control):
    def __init__(self, lab):
        self.lab = lab


class Grows(Exception):
    """a vector of the enclosing scope grows in a loop"""
    def __init__(self, cell, path, like):
        self.cell, self.path, self.like = cell, path, like


class Panic(Exception):
    def __init__(self, what, line):
        self.what, self.line = what, line


# ------------------------------------------------------------------ values
class Unit:
    def __repr__(self):
        return "()"


UNIT = Unit()


class Str:
    def __init__(self, s):
        self.s = s


class SInt:
    """integer of a type other than usize"""

    def __init__(self, p, ty):
        self.p, self.ty = P(p), ty

    def __repr__(self):
        return f"{self.p}:{self.ty}"


class Seq:
    """tuple or array of known length"""

    def __init__(self, xs, kind="tuple"):
        self.xs, self.kind = list(xs), kind

    def __repr__(self):
        return f"{self.kind}{self.xs}"


class MapV:
    """map with entries (guard, key, value): the entry exists if its guard holds; later entries hide earlier ones"""

    def __init__(self, ents=()):
        self.ents = tuple(ents)

    def __repr__(self):
        return f"map{list(self.ents)}"


class Obj:
    def __init__(self, ty, fields):
        self.ty, self.fields = ty, fields

    def __repr__(self):
        return f"{self.ty}{self.fields}"


class EnumV:
    def __init__(self, ty, variant, xs=()):
        self.ty, self.variant, self.xs = ty, variant, list(xs)

    def __repr__(self):
        return f"{self.ty}::{self.variant}{self.xs}"


class Place:
    __slots__ = ("cell", "path")

    def __init__(self, cell, path=()):
        self.cell, self.path = cell, tuple(path)

    def __repr__(self):
        return f"@{self.cell}{self.path}"


class Ref:
    def __init__(self, place):
        self.place = place

    def __repr__(self):
        return f"&{self.place}"


def single(v):
    """rounding to single precision: exact for small dyadic constants, otherwise an unknown value"""
    if isinstance(v, Cx):
        return cx(single(v.re), single(v.im))
    q = v.args[0] if isinstance(v, FConst) else None
    if q is not None:
        d = q.denominator
        if d & (d - 1) == 0 and d <= 1 << 40 and abs(q.numerator) < 1 << 24:
            return v
    return fapp("f32", v)


class View:
    """window into an array (place or value)"""

    def __init__(self, src, dims, f, std=True):
        self.src, self.dims, self.f, self.std = src, tuple(P(d) for d in dims), f, std


class It:
    """iterator with symbolic length"""

    def __init__(self, n, elem, note=None):
        self.n, self.elem = P(n), elem
        self.note = note


class Rng:
    def __init__(self, lo, hi, incl):
        self.lo, self.hi, self.incl = lo, hi, incl


class Clo:
    def __init__(self, node, env, fn):
        self.node, self.env, self.fn = node, env, fn


class Ty:
    """type descriptor"""

    def __init__(self, name, args=()):
        self.name, self.args = name, tuple(args)

    def __repr__(self):
        return f"{self.name}<{self.args}>" if self.args else self.name


class Opaque:
    def __init__(self, kind, *a):
        self.kind, self.a = kind, a

    def __repr__(self):
        return f"{self.kind}{self.a}"


class FnRef:
    def __init__(self, path):
        self.path = path


NONE = EnumV("Option", "None")


def some(v):
    return EnumV("Option", "Some", [v])


INT_BITS = {"usize": (0, 64), "u64": (0, 64), "u32": (0, 32), "u16": (0, 16), "u8": (0, 8), "u128": (0, 128),
            "i8": (1, 8), "i16": (1, 16), "i32": (1, 32), "i64": (1, 64), "i128": (1, 128), "isize": (1, 64)}


class Ob:
    """proof obligation"""

    def __init__(self, kind, cond, pc, where, fn, what=""):
        self.kind, self.cond, self.pc, self.where, self.fn, self.what = kind, cond, pc, where, fn, what

    def name(self):
        return f"{self.fn}:{self.where}:{self.kind}"


def piecewise_sum(d, t):
    """partial sums of an increment that has one value up to some iteration and another one from there on"""
    parts = []
    for m, c in d.terms:
        hit = [(a, pw) for a, pw in m if t in fv(P(a))]
        k = P(c)
        for b, pw in m:
            if t not in fv(P(b)):
                for _ in range(pw):
                    k = k * P(b)
        if not hit:
            parts.append(lambda q, k=k: k * q)
            continue
        if len(hit) != 1 or hit[0][1] != 1 or not isinstance(hit[0][0], IIte):
            return None
        g, x, y = hit[0][0].args
        if not isinstance(g, CLe) or t in fv(P(x)) or t in fv(P(y)):
            return None
        l = g.args[0].lin(t)
        if not l or l[0] not in (1, -1) or t in fv(l[1]):
            return None
        s, o = l
        if s == 1:  # t <= -o: the first 1 - o iterations
            parts.append(lambda q, k=k, x=P(x), y=P(y), o=o: k * (y * q + (x - y) * imin(imax(1 - o, 0), q)))
        else:  # t >= o: all but the first o iterations
            parts.append(lambda q, k=k, x=P(x), y=P(y), o=o: k * (x * q + (y - x) * imin(imax(o, 0), q)))

    def closed(q):
        q = P(q)
        r = P(0)
        for f in parts:
            r = r + f(q)
        return r

    return closed


def lin_poly(p, s):
    """(k, r) with p = k*s + r, k and r free of s"""
    k, r = P(0), P(0)
    for m, c in p.terms:
        if not any(s in fv(P(a)) for a, _ in m):
            r = r + mk(Poly, ((m, c),))
            continue
        if dict(m).get(s) != 1 or any(s in fv(P(a)) for a, _ in m if a is not s):
            return None
        x = P(c)
        for a, pw in m:
            if a is not s:
                for _ in range(pw):
                    x = x * P(a)
        k = k + x
    return k, r


def has_unsafe(fn):
    r = getattr(fn, "_unsafe", None)
    if r is None:
        r = _find_unsafe(fn.node)
        fn._unsafe = r
    return r


def _find_unsafe(x):
    if isinstance(x, (list, tuple)):
        return any(_find_unsafe(y) for y in x)
    if isinstance(x, dict):
        return any(_find_unsafe(y) for y in x.values())
    if not hasattr(x, "k") or not isinstance(getattr(x, "a", None), dict):
        return False
    return x.k == "unsafe" or any(_find_unsafe(y) for y in x.a.values())


class Frame:
    """decision vector for path enumeration"""

    def __init__(self):
        self.dec, self.pos = [], 0


class Interp:
    def __init__(self, crate, contracts=None, size_bound=None):
        self.crate = crate
        self.contracts = contracts or {}
        self.store = {}
        self.ncell = 0
        self.pc = ()
        self.obs = []
        self.bound = []
        self.frames = []
        self.fnstack = []
        self.quiet = 0
        self.loops = []
        self.lanes_log = None
        self.mpi_log = []
        self.calls = set()  # functions executed
        self.externs = set()  # external operations assumed
        self.hooks = {}
        self.asserts = []
        self.divisors = []
        self.watch = {}
        self.runtime = ()

    # --------------------------------------------------------- basic state
    def new(self, v):
        self.ncell += 1
        self.store[self.ncell] = v
        return self.ncell

    def ctx(self):
        return Ctx().add(*self.pc)

    def known(self, c):
        if isinstance(c, CConst):
            return c.args[0]
        return self.ctx().decide(c)

    def ob(self, kind, cond, node, what=""):
        if self.quiet or cond is TRUE:
            if self.runtime and kind in self.runtime and cond is not TRUE:
                self.pc = self.pc + (cond,)
            return
        line = getattr(node, "line", None)
        fn = self.fnstack[-1].path if self.fnstack else "?"
        if self.runtime and kind == "arith" and self.fnstack and has_unsafe(self.fnstack[-1]):
            # without overflow checks a wrapped value would reach an unchecked access
            kind = "uarith"
        self.obs.append(Ob(kind, cond, self.pc, line, fn, what))
        if self.runtime and (kind in self.runtime or kind == "uarith"):
            # the check is made at run time: execution continues only if it passes
            if self.known(neg(cond)):
                raise Panic(what, line)
            self.pc = self.pc + (cond,)

    def require(self, kind, cond, node, what=""):
        """a run-time check of the library: panics unless cond, so cond holds afterwards"""
        if self.known(cond):
            return
        if self.known(neg(cond)):
            raise Panic(what, getattr(node, "line", None))
        self.ob(kind, cond, node, what)
        self.pc = self.pc + (cond,)

    def where(self):
        return self.fnstack[-1].path if self.fnstack else "?"

    # ---------------------------------------------------------- places
    def read_place(self, pl):
        v = self.store[pl.cell]
        for s in pl.path:
            v = self.project(v, s)
        return v

    def project(self, v, s):
        if isinstance(v, Ref):
            v = self.read_place(v.place)
        if s[0] == "f":
            if isinstance(v, Obj):
                if s[1] not in v.fields:
                    raise Unsupported(f"field {s[1]} of {v.ty}")
                return v.fields[s[1]]
            if isinstance(v, Seq):
                return v.xs[int(s[1])]
            if isinstance(v, EnumV):
                return v.xs[int(s[1])]
            if isinstance(v, Cx) or isinstance(v, SCALAR):
                v = tocx(v)
                return v.re if s[1] == "re" else v.im
            raise Unsupported(f"field {s[1]} of {type(v).__name__}")
        if isinstance(v, ARRAY):
            return aread(v, s[1])
        if isinstance(v, View):
            return self.view_read(v, s[1])
        if isinstance(v, Seq):
            return self.seq_get(v, s[1][0])
        raise Unsupported(f"index into {type(v).__name__}")

    def seq_get(self, v, i):
        c = P(i).const()
        if c is not None:
            if not 0 <= c < len(v.xs):
                raise Unsupported("constant index out of range")
            return v.xs[c]
        out = v.xs[-1]
        for k in range(len(v.xs) - 2, -1, -1):
            out = self.merge_val(eq(i, k), v.xs[k], out)
        return out

    def write_place(self, pl, val):
        if pl.cell in self.watch:
            self.watch[pl.cell].append((self.pc, self.where()))
        self.store[pl.cell] = self._upd(self.store[pl.cell], list(pl.path), val)

    def _upd(self, v, path, val):
        if not path:
            return val
        s = path[0]
        if isinstance(v, Ref):
            self.write_place(Place(v.place.cell, v.place.path + tuple(path)), val)
            return v
        if s[0] == "f":
            if isinstance(v, Obj):
                f = dict(v.fields)
                f[s[1]] = self._upd(f.get(s[1]), path[1:], val)
                return Obj(v.ty, f)
            if isinstance(v, Seq):
                xs = list(v.xs)
                xs[int(s[1])] = self._upd(xs[int(s[1])], path[1:], val)
                return Seq(xs, v.kind)
            if isinstance(v, EnumV):
                xs = list(v.xs)
                xs[int(s[1])] = self._upd(xs[int(s[1])], path[1:], val)
                return EnumV(v.ty, v.variant, xs)
            if isinstance(v, Cx) or isinstance(v, SCALAR):
                v = tocx(v)
                val = self.scalar(val)
                return cx(val, v.im) if s[1] == "re" else cx(v.re, val)
            raise Unsupported(f"write to field {s[1]} of {type(v).__name__}")
        if isinstance(v, ARRAY):
            if len(path) > 1:
                val = self._upd(aread(v, s[1]), path[1:], val)
            return self.arr_store(v, s[1], val)
        if isinstance(v, View):
            self.view_write(v, s[1], val)
            return v
        if isinstance(v, Seq):
            c = s[1][0].const()
            xs = list(v.xs)
            if c is None:
                for k in range(len(xs)):
                    xs[k] = self.merge_val(eq(s[1][0], k), self._upd(xs[k], path[1:], val), xs[k])
            else:
                xs[c] = self._upd(xs[c], path[1:], val)
            return Seq(xs, v.kind)
        raise Unsupported(f"write into {type(v).__name__}")

    def arr_store(self, a, idx, val):
        val = self.elem(val)
        s = asort(a)
        if isinstance(val, Cx) and s == "F":
            a = self.acx(a)
        if s == "F" and isinstance(val, Poly):
            val = fint(val)
        if s == "I" and not isinstance(val, Poly):
            raise Unsupported("sort of stored value")
        return astore(a, idx, val)

    def acx(self, a):
        if asort(a) == "C":
            return a
        if isinstance(a, AConst):
            return mk(AConst, tocx(a.args[0]), a.args[1])
        d = adims(a)
        bs = tuple(mk(ISym, fresh("c")) for _ in d)
        return mk(ALam, bs, tocx(aread(a, [P(b) for b in bs])), d)

    def elem(self, v):
        v = self.deref(v)
        if isinstance(v, SInt):
            return v.p
        if isinstance(v, (Poly, Cx)) or isinstance(v, SCALAR) or isinstance(v, COND):
            return v
        raise Unsupported(f"array element {type(v).__name__}")

    # views -----------------------------------------------------------
    def view_base(self, v):
        if isinstance(v.src, Place):
            return self.read_place(v.src)
        return v.src

    def view_read(self, v, idx):
        b = self.view_base(v)
        j = v.f(tuple(P(i) for i in idx))
        if isinstance(b, View):
            return self.view_read(b, j)
        if isinstance(b, Ref):
            return self.read_place(Place(b.place.cell, b.place.path + (("i", j),)))
        if isinstance(b, Seq):
            r = self.seq_get(b, j[0])
            for k in j[1:]:
                r = self.project(r, ("i", (k,)))
            return r
        return aread(b, j)

    def view_write(self, v, idx, val):
        if not isinstance(v.src, Place):
            raise Unsupported("write through immutable view")
        self.write_place(Place(v.src.cell, v.src.path + (("i", v.f(tuple(P(i) for i in idx))),)), val)

    def view_elem(self, v, idx):
        """reference to an element of a view"""
        if isinstance(v.src, Place):
            b = self.read_place(v.src)
            j = v.f(tuple(P(i) for i in idx))
            if isinstance(b, View):
                return self.view_elem(b, j)
            return Ref(Place(v.src.cell, v.src.path + (("i", j),)))
        return Ref(Place(self.new(self.view_read(v, idx))))

    def as_view(self, v, node=None):
        """array-like value -> View"""
        pl = None
        while isinstance(v, Ref):
            pl = v.place
            v = self.read_place(pl)
        if isinstance(v, View):
            return v
        if isinstance(v, ARRAY):
            d = adims(v)
            return View(pl if pl is not None else v, d, lambda i: i)
        if isinstance(v, Seq) and v.kind != "tuple":
            return View(pl if pl is not None else v, (P(len(v.xs)),), lambda i: i)
        if isinstance(v, Obj) and v.ty == "GVec":
            src = v.fields["data"] if pl is None else Place(pl.cell, pl.path + (("f", "data"),))
            return View(src, (v.fields["len"],), lambda i: i)
        raise Unsupported(f"not an array: {type(v).__name__}", node)

    def grown(self, v, like):
        """a vector as a growing vector: length and contents, so that a loop can push to it"""
        if isinstance(v, Seq):
            xs = [self.elem(x) for x in v.xs]
            n = P(len(xs))
            rd = None
        else:
            xs, n = [], adims(v)[0]
            rd = v
        srt = asort(like) if isinstance(like, ARRAY) else vsort(self.elem(like.xs[-1]))
        unset = {"F": fsym("unset"), "C": cx(fsym("unset"), fsym("unset")), "I": isym("unset")}.get(srt)
        if unset is None:
            raise Unsupported("elements of a growing vector")
        cap = P(mk(ISym, fresh("cap")))
        if rd is None:
            a = mk(AConst, unset, (cap,))
            for k, x in enumerate(xs):
                a = self.arr_store(a, (P(k),), x)
        else:
            b = mk(ISym, fresh("g"))
            a = mk(ALam, (b,), aread(rd, (P(b),)), (cap,))
        return Obj("GVec", {"len": n, "data": a})

    def settle(self, v):
        """growing vector -> array"""
        b = mk(ISym, fresh("g"))
        return mk(ALam, (b,), aread(v.fields["data"], (P(b),)), (self.int_(v.fields["len"]),))

    def push(self, pl, x, node=None):
        v = self.read_place(pl)
        x = self.deref(x)
        if isinstance(v, Seq):
            self.write_place(pl, Seq(v.xs + [x], "vec"))
        elif isinstance(v, Obj) and v.ty == "GVec":
            n = self.int_(v.fields["len"])
            self.write_place(Place(pl.cell, pl.path + (("f", "data"),)), self.arr_store(v.fields["data"], (n,), x))
            self.write_place(Place(pl.cell, pl.path + (("f", "len"),)), n + 1)
        elif isinstance(v, ARRAY) and len(adims(v)) == 1:
            n = adims(v)[0]
            b = mk(ISym, fresh("g"))
            w = self.elem(x)
            self.write_place(pl, mk(ALam, (b,), self.merge_val(lt(P(b), n), aread(v, (P(b),)), w), (n + 1,)))
        else:
            raise Unsupported(f"push on {type(v).__name__}", node)

    def snapshot(self, v):
        """array node with the current contents of a view"""
        v = self.as_view(v)
        b = self.view_base(v)
        if isinstance(b, View):
            b = self.snapshot(b)
        d = tuple(v.dims)
        bs = tuple(P(mk(ISym, fresh("v"))) for _ in d)
        j = v.f(bs)
        if isinstance(b, ARRAY) and tuple(j) == bs and self.same_dims(adims(b), d):
            return b
        val = self.elem(self.view_read(v, bs))
        return mk(ALam, tuple(x.terms[0][0][0][0] for x in bs), val, d)

    def same_dims(self, a, b):
        return len(a) == len(b) and all(x is y or P(x) == P(y) or self.known(eq(x, y)) is True for x, y in zip(a, b))

    def deref(self, v):
        while isinstance(v, Ref):
            v = self.read_place(v.place)
        return v

    # ---------------------------------------------------------- scalars
    def int_(self, v, node=None):
        v = self.deref(v)
        if isinstance(v, Poly):
            return v
        if isinstance(v, SInt):
            return v.p
        if isinstance(v, COND):
            return iite(v, 1, 0)
        raise Unsupported(f"integer expected, got {type(v).__name__}", node)

    def scalar(self, v, node=None):
        v = self.deref(v)
        if isinstance(v, SCALAR):
            return v
        if isinstance(v, Poly):
            return fint(v)
        if isinstance(v, Cx):
            raise Unsupported("complex where a real is expected", node)
        raise Unsupported(f"scalar expected, got {type(v).__name__}", node)

    def cond(self, v, node=None):
        v = self.deref(v)
        if isinstance(v, COND):
            return v
        raise Unsupported(f"condition expected, got {type(v).__name__}", node)

    # ---------------------------------------------------------- merging
    def merge_val(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, Poly) and isinstance(b, Poly):
            return iite(c, a, b)
        if isinstance(a, SInt) and isinstance(b, SInt):
            return SInt(iite(c, a.p, b.p), a.ty)
        if isinstance(a, SInt) and isinstance(b, Poly):
            return SInt(iite(c, a.p, b), a.ty)
        if isinstance(b, SInt) and isinstance(a, Poly):
            return SInt(iite(c, a, b.p), b.ty)
        if (isinstance(a, SCALAR) or isinstance(a, Cx)) and (isinstance(b, SCALAR) or isinstance(b, Cx)):
            return vite(c, a, b)
        if isinstance(a, COND) and isinstance(b, COND):
            return vite(c, a, b)
        if isinstance(a, ARRAY) and isinstance(b, ARRAY):
            if asort(a) != asort(b):
                a, b = self.acx(a), self.acx(b)
            da, db = adims(a), adims(b)
            if len(da) == len(db) and all(x is y for x, y in zip(da, db)):
                return aite(c, a, b)
            raise NeedFork(c)
        if isinstance(a, Obj) and isinstance(b, Obj) and a.ty == b.ty:
            return Obj(a.ty, {k: self.merge_val(c, a.fields[k], b.fields[k]) for k in a.fields})
        if isinstance(a, Seq) and isinstance(b, Seq) and len(a.xs) == len(b.xs):
            return Seq([self.merge_val(c, x, y) for x, y in zip(a.xs, b.xs)], a.kind)
        if isinstance(a, EnumV) and isinstance(b, EnumV) and a.ty == b.ty and a.variant == b.variant:
            return EnumV(a.ty, a.variant, [self.merge_val(c, x, y) for x, y in zip(a.xs, b.xs)])
        if isinstance(a, Unit) and isinstance(b, Unit):
            return a
        if isinstance(a, MapV) and isinstance(b, MapV):
            k = 0
            while k < min(len(a.ents), len(b.ents)) and a.ents[k] is b.ents[k]:
                k += 1
            return MapV(a.ents[:k] + tuple((conj(c, g), x, v) for g, x, v in a.ents[k:])
                        + tuple((conj(neg(c), g), x, v) for g, x, v in b.ents[k:]))
        if isinstance(a, Ref) and isinstance(b, Ref) and a.place.cell == b.place.cell and a.place.path == b.place.path:
            return a
        if isinstance(a, Opaque) and isinstance(b, Opaque) and a.kind == b.kind and a.a == b.a:
            return a
        if isinstance(a, Str) and isinstance(b, Str):
            return a
        raise NeedFork(c)

    def merge_store(self, c, s1, s2, base):
        out = {}
        for k in base:
            a, b = s1[k], s2[k]
            out[k] = a if a is b else self.merge_val(c, a, b)
        return out

    def choose(self, c):
        """fork: pick a side of a symbolic condition"""
        if not self.frames:
            # the innermost function being executed is run once per path (exec_fn)
            raise NeedFork(c)
        f = self.frames[-1]
        if f.pos < len(f.dec):
            d = f.dec[f.pos]
        else:
            d = True
            f.dec.append(True)
        f.pos += 1
        g = c if d else neg(c)
        f.path.append(g)
        self.pc = self.pc + (g,)
        return d

    def choose_known(self, c):
        d = self.known(c)
        return self.choose(c) if d is None else d

    def enumerate(self, run):
        """run() under every decision vector; list of (pc, result, store, exc)"""
        store0, pc0, nobs = dict(self.store), self.pc, len(self.obs)
        f = Frame()
        out, guards = [], []
        while True:
            self.store, self.pc = dict(store0), pc0
            f.pos = 0
            f.path = []
            self.frames.append(f)
            exc, res = None, None
            try:
                res = run()
            except (Control, Panic) as e:
                exc = e
            finally:
                self.frames.pop()
            out.append((self.pc, res, self.store, exc))
            guards.append(tuple(f.path))
            del f.dec[f.pos:]
            while f.dec and f.dec[-1] is False:
                f.dec.pop()
            if not f.dec:
                break
            f.dec[-1] = False
            if len(out) > 64:
                raise Unsupported("too many paths")
        self.pc = pc0
        # drop obligations recorded twice by re-execution
        ded, keep = set(), []
        for o in self.obs[nobs:]:
            k = (o.kind, o.cond, o.pc, o.where, o.fn)
            if k not in ded:
                ded.add(k)
                keep.append(o)
        self.obs[nobs:] = keep
        self.guards = guards
        return out

    # ------------------------------------------------------------ functions
    def call(self, fn, selfv, args, tenv=None, node=None):
        """call with contract if there is one, else execute the body"""
        c = self.contracts.get(fn.path) or self.contracts.get(self.short(fn))
        if c is not None:
            self.calls.add("contract:" + fn.path)
            return c(self, fn, selfv, args, tenv or {}, node)
        return self.exec_fn(fn, selfv, args, tenv)

    def short(self, fn):
        if fn.impl is not None:
            return f"{tyname(fn.impl.ty)}::{fn.name}"
        if fn.trait is not None:
            return f"{fn.trait.name}::{fn.name}"
        return fn.name

    def exec_fn(self, fn, selfv, args, tenv=None):
        """execute a body; a control flow that depends on symbolic conditions is run once per path and the
        results are merged (the callers see one result and one store)"""
        if self.frames:
            return self.exec_fn0(fn, selfv, args, tenv)
        store0, pc0, nobs, ndiv, nlog = dict(self.store), self.pc, len(self.obs), len(self.divisors), len(self.mpi_log)
        nas = len(self.asserts)
        try:
            return self.exec_fn0(fn, selfv, args, tenv)
        except NeedFork:
            self.store, self.pc = dict(store0), pc0
            del self.obs[nobs:]
            del self.divisors[ndiv:]
            del self.mpi_log[nlog:]
            del self.asserts[nas:]
        return self.merged(lambda: self.exec_fn0(fn, selfv, args, tenv))

    def merged(self, run):
        """run once per path; one result and one store"""
        store0, pc0, nlog = dict(self.store), self.pc, len(self.mpi_log)
        out = self.enumerate(run)
        guards = self.guards
        if len(out) > 1 and len(self.mpi_log) > nlog:
            raise Unsupported("communication under symbolic control flow")
        live, last = [], None
        for (pc, res, st, exc), g in zip(out, guards):
            g = conj(*g)
            if exc is None:
                live.append((g, pc[len(pc0):], res, st))
            elif isinstance(exc, Panic):
                self.pc = pc0
                self.panic_ob(g, exc)
                last = exc
            else:
                raise Unsupported("control leaves the function")
        if not live:
            raise last
        g, pcs, r, st = live[-1]
        learned = [imp(g, q) for q in pcs]
        for g, pcs, r2, st2 in reversed(live[:-1]):
            r = self.merge_val(g, r2, r)
            st = self.merge_store(g, st2, st, store0)
            learned += [imp(g, q) for q in pcs]
        if last is not None:
            learned.append(disj(*[g for g, _, _, _ in live]))
        self.store, self.pc = (st if len(live) > 1 else live[0][3]), pc0 + tuple(dict.fromkeys(q for q in learned if q is not TRUE))
        return r

    def exec_fn0(self, fn, selfv, args, tenv=None):
        if len(self.fnstack) > 40:
            raise Unsupported("call depth")
        nd = fn.node
        if nd.body is None:
            raise Unsupported(f"no body: {fn.path}")
        self.calls.add(fn.path)
        env = [{}]
        tenv = dict(tenv or {})
        if nd.selfp is not None:
            v = selfv
            if nd.selfp[0] == "val":
                v = self.deref(v)
            elif not isinstance(v, (Ref, View)):
                v = Ref(Place(self.new(v)))
            env[0]["self"] = self.new(v)
        if selfv is not None and "Self" not in tenv:
            o = self.deref(selfv)
            if isinstance(o, (Obj, EnumV)):
                tenv["Self"] = Ty(o.ty)
        if fn.impl is not None and "Self" not in tenv:
            tenv["Self"] = self.ty(fn.impl.ty, tenv)
        if len(args) != len(nd.params):
            raise Unsupported(f"arity of {fn.path}", nd)
        # const generics: from the length of an array argument
        for (pat, ty), a in zip(nd.params, args):
            t = ty
            while t is not None and t.k == "tref":
                t = t.ty
            if t is not None and t.k == "tarray" and t.n.k == "path" and len(t.n.segs) == 1 and t.n.segs[0][0] not in tenv:
                v = self.deref(a)
                if isinstance(v, Seq):
                    tenv[t.n.segs[0][0]] = P(len(v.xs))
                elif isinstance(v, View):
                    tenv[t.n.segs[0][0]] = v.dims[0]
        saved = getattr(self, "env", None), getattr(self, "tenv", None)
        self.env, self.tenv = env, tenv
        self.fnstack.append(fn)
        try:
            for (pat, ty), a in zip(nd.params, args):
                self.bind(pat, self.coerce(a, ty))
            try:
                r = self.block(nd.body)
            except Return as e:
                r = e.v
            return self.coerce(r, nd.ret) if nd.ret is not None else r
        finally:
            self.fnstack.pop()
            self.env, self.tenv = saved

    def coerce(self, v, ty):
        """give literals the type of their context"""
        if ty is None:
            return v
        n = tyname(ty) if ty.k == "tpath" else None
        if n in INT_BITS and n != "usize" and isinstance(v, Poly):
            return SInt(v, n)
        if n in ("f64", "f32") and isinstance(v, Poly):
            return fint(v)
        return v

    # ------------------------------------------------------------ types
    def ty(self, t, tenv=None):
        tenv = tenv if tenv is not None else self.tenv
        if t is None:
            return Ty("_")
        if t.k == "tref":
            return self.ty(t.ty, tenv)
        if t.k == "tpath":
            n = t.segs[-1][0]
            if t.qself is not None:
                q = self.ty(t.qself, tenv)
                return Ty(f"{q.name}::{n}")
            if len(t.segs) == 1 and n in tenv and not t.segs[-1][1]:
                return tenv[n]
            if len(t.segs) >= 2 and t.segs[-2][0] in ("Self",) and n in tenv:
                return tenv[n]
            if len(t.segs) >= 2 and t.segs[-2][0] == "Self":
                a = self.assoc_ty(n)
                if a is not None:
                    return self.ty(a, tenv)
            return Ty(n, [self.ty(a[1], tenv) for a in t.segs[-1][1] if a[0] == "type"])
        if t.k == "tslice":
            return Ty("[]", [self.ty(t.ty, tenv)])
        if t.k == "tarray":
            return Ty("[;]", [self.ty(t.ty, tenv)])
        if t.k == "ttuple":
            return Ty("()", [self.ty(x, tenv) for x in t.ts])
        return Ty("_")

    def assoc_ty(self, n):
        fn = self.fnstack[-1] if self.fnstack else None
        if fn is not None and fn.impl is not None:
            for it in fn.impl.a.get("items_x", ()):
                if it.k == "type" and it.name == n:
                    return it.ty
        return None

    def zero_of(self, ty):
        if ty.name == "Complex":
            return cx(ZERO, ZERO)
        if ty.name in INT_BITS:
            return P(0) if ty.name == "usize" else SInt(0, ty.name)
        return ZERO

    # ------------------------------------------------------------ binding
    def lookup(self, name):
        for s in reversed(self.env):
            if name in s:
                return s[name]
        return None

    def bind(self, pat, v):
        k = pat.k
        if k == "pident":
            if pat.sub is not None:
                self.bind(pat.sub, v)
            if pat.byref:
                if not isinstance(v, Ref):
                    v = Ref(Place(self.new(v)))
                self.env[-1][pat.name] = self.new(v)
            else:
                self.env[-1][pat.name] = self.new(v)
            return
        if k in ("pwild", "prest", "pconst", "prange") or k == "ppath":
            return
        if k == "pref":
            return self.bind(pat.p, self.deref1(v))
        if k == "ptuple" or k == "pslice":
            pl = None
            w = v
            while isinstance(w, Ref):
                pl = w.place
                w = self.read_place(pl)
            if isinstance(w, Seq):
                ps = pat.ps
                xs = [Ref(Place(pl.cell, pl.path + (("f", str(i)),))) if pl is not None else x for i, x in enumerate(w.xs)]
                ri = [i for i, p in enumerate(ps) if self.is_rest(p)]
                if ri:
                    i = ri[0]
                    tail = len(ps) - i - 1
                    if ps[i].k == "pident":
                        vw = self.as_view(v, pat)
                        self.env[-1][ps[i].name] = self.new(self.slice_range(vw, Rng(P(i), P(len(xs) - tail), False), pat, False))
                    pairs = list(zip(ps[:i], xs)) + list(zip(ps[i + 1:], xs[len(xs) - tail:]))
                else:
                    if len(ps) != len(xs):
                        raise Unsupported("tuple pattern", pat)
                    pairs = list(zip(ps, xs))
                for p, x in pairs:
                    self.bind(p, x)
                return
            if k == "pslice" and isinstance(w, (View,) + ARRAY):
                vw = self.as_view(v, pat)
                ps, n = pat.ps, vw.dims[0]
                ri = [i for i, p in enumerate(ps) if self.is_rest(p)]
                for i, p in enumerate(ps):
                    if ri and i == ri[0]:
                        if p.k == "pident":
                            self.env[-1][p.name] = self.new(self.slice_range(vw, Rng(P(i), n - (len(ps) - 1 - i), False), pat, False))
                        continue
                    self.bind(p, self.view_elem(vw, (P(i) if not ri or i < ri[0] else n - (len(ps) - i),)))
                return
            raise Unsupported(f"tuple pattern on {type(w).__name__}", pat)
        if k == "pstruct":
            w = self.deref(v)
            if isinstance(w, Obj):
                pl = v.place if isinstance(v, Ref) else None
                for n, p in pat.fs:
                    self.bind(p, Ref(Place(pl.cell, pl.path + (("f", n),))) if pl is not None else w.fields[n])
                return
        if k == "ptstruct":
            w = self.deref(v)
            if isinstance(w, (EnumV, Obj)):
                pl = v.place if isinstance(v, Ref) else None
                for i, p in enumerate(pat.ps):
                    if p.k == "prest":
                        break
                    x = w.xs[i] if isinstance(w, EnumV) else w.fields[str(i)]
                    self.bind(p, Ref(Place(pl.cell, pl.path + (("f", str(i)),))) if pl is not None else x)
                return
        raise Unsupported(f"pattern {k}", pat)

    def deref1(self, v):
        if isinstance(v, Ref):
            return self.read_place(v.place)
        return v

    def is_rest(self, p):
        return p.k == "prest" or p.k == "pident" and p.a.get("sub") is not None and p.sub.k == "prest"

    def test_pat(self, pat, v):
        """condition under which pattern matches"""
        k = pat.k
        if k in ("pident", "pwild", "prest"):
            if k == "pident" and pat.sub is not None:
                return self.test_pat(pat.sub, v)
            return TRUE
        if k == "pref":
            return self.test_pat(pat.p, self.deref1(v))
        if k == "por":
            return disj(*[self.test_pat(p, v) for p in pat.ps])
        if k == "pconst":
            e = self.expr(pat.e)
            return self.cond(self.binop("==", self.deref(v), e, pat))
        if k == "prange":
            x = self.int_(v)
            c = le(self.int_(self.expr(pat.lo)), x)
            if pat.hi is not None:
                h = self.int_(self.expr(pat.hi))
                c = conj(c, le(x, h) if pat.incl else lt(x, h))
            return c
        if k in ("ptuple", "pslice"):
            w = self.deref(v)
            ri = [i for i, p in enumerate(pat.ps) if self.is_rest(p)]
            m = len(pat.ps)
            if isinstance(w, Seq):
                if len(w.xs) != m if not ri else len(w.xs) < m - 1:
                    return FALSE
                tail = w.xs[len(w.xs) - (m - 1 - ri[0]):] if ri else []
                head = pat.ps[:ri[0]] if ri else pat.ps
                return conj(*[self.test_pat(p, x) for p, x in zip(head, w.xs)],
                            *[self.test_pat(p, x) for p, x in zip(pat.ps[ri[0] + 1:] if ri else [], tail)])
            if k == "pslice" and isinstance(w, (View,) + ARRAY):
                n = self.as_view(v, pat).dims[0]
                if all(self.is_rest(p) or p.k in ("pident", "pwild") and p.a.get("sub") is None for p in pat.ps):
                    return le(m - 1, n) if ri else eq(n, m)
        if k in ("ppath", "ptstruct", "pstruct"):
            w = self.deref(v)
            name = pat.path.segs[-1][0]
            if isinstance(w, EnumV):
                if w.variant != name:
                    if k == "ppath" and len(pat.path.segs) == 1 and name in self.crate.consts:
                        pass
                    else:
                        return FALSE
                ps = pat.ps if k == "ptstruct" else []
                return conj(*[self.test_pat(p, x) for p, x in zip(ps, w.xs) if p.k != "prest"])
            if isinstance(w, Obj):
                return TRUE
            if isinstance(w, (Poly, SInt)) and k == "ppath":
                return self.cond(self.binop("==", w, self.expr(pat.path), pat))
        raise Unsupported(f"pattern test {k} on {type(self.deref(v)).__name__}", pat)

    # ------------------------------------------------------------ blocks
    def block(self, b):
        self.env.append({})
        try:
            for s in b.stmts:
                self.stmt(s)
            if b.tail is not None:
                return self.expr(b.tail)
            return UNIT
        finally:
            self.env.pop()

    def stmt(self, s):
        if s.k == "let":
            if s.e is None:
                if s.pat.k == "pident":
                    self.env[-1][s.pat.name] = self.new(None)
                    return
                raise Unsupported("let without value", s)
            v = self.expr(s.e)
            if s.els is not None:
                c = self.test_pat(s.pat, v)
                d = self.known(c)
                if d is None:
                    d = self.choose(c)
                if not d:
                    self.block(s.els)
                    return
            if s.ty is not None:
                v = self.coerce(v, s.ty)
                v = self.coerce_deep(v, s.ty)
            if s.pat.k == "pident" and s.pat.mut and isinstance(v, (It, list, Rng)):
                import iterstate
                v = iterstate.wrap(self, v, s)
            self.bind(s.pat, v)
        elif s.k == "sexpr":
            self.expr(s.e)
        elif s.k == "sitem":
            it = s.item
            if it.k == "fn":
                self.env[-1][it.name] = self.new(Fn(it, self.where() + "::" + it.name, mod=self.fnstack[-1].mod if self.fnstack else ""))
            elif it.k == "const":
                self.env[-1][it.name] = self.new(self.coerce(self.expr(it.e), it.ty))
            elif it.k == "use":
                pass
            elif it.k == "struct" and it.name not in self.crate.structs:
                self.crate.structs[it.name] = it
            elif it.k == "struct" and self.crate.structs[it.name] is it:
                pass
            else:
                raise Unsupported(f"item {it.k} in block", s)
        else:
            raise Unsupported(f"statement {s.k}", s)

    def coerce_deep(self, v, ty):
        return v

    # ------------------------------------------------------------ expressions
    def expr(self, e):
        m = getattr(self, "e_" + e.k, None)
        if m is None:
            raise Unsupported(f"expression {e.k}", e)
        return m(e)

    def e_paren(self, e):
        return self.expr(e.e)

    def e_block(self, e):
        return self.block(e)

    def e_unsafe(self, e):
        return self.block(e.b)

    def e_lit(self, e):
        if e.kind == "bool":
            return B(e.v == "true")
        if e.kind in ("str", "char"):
            return Str(e.v)
        s = e.v.replace("_", "")
        m = re.match(r"^(0x[0-9a-fA-F]+|0b[01]+|0o[0-7]+|[0-9]+)(usize|u8|u16|u32|u64|u128|i8|i16|i32|i64|i128|isize)?$", s)
        if m:
            v = P(int(m.group(1), 0) if m.group(1)[:2] in ("0x", "0b", "0o") else int(m.group(1)))
            t = m.group(2)
            return SInt(v, t) if t and t != "usize" else v
        s = re.sub(r"(f32|f64)$", "", s)
        if s.endswith("."):
            s += "0"
        return fc(Fraction(s))

    def e_path(self, e):
        segs = e.segs
        if len(segs) == 1 and e.qself is None:
            n = segs[0][0]
            c = self.lookup(n)
            if c is not None:
                v = self.store[c]
                if isinstance(v, Fn):
                    return v
                if v is None:
                    raise Unsupported(f"use of unset {n}", e)
                return v
            if n == "None":
                return NONE
            if isinstance(self.tenv.get(n), Poly):
                return self.tenv[n]
            if n in self.crate.consts:
                return self.const(n)
            if n in ("PI",):
                return fsym("pi")
        last = segs[-1][0]
        if last in ("PI",):
            return fsym("pi")
        if len(segs) >= 2:
            tn = segs[-2][0]
            if tn == "Self":
                tn = self.tenv.get("Self", Ty("Self")).name
            if tn in self.crate.enums and any(v[0] == last and v[1] == "unit" for v in self.crate.enums[tn].variants):
                return EnumV(tn, last)
            if tn in INT_BITS and last == "MAX":
                sg, b = INT_BITS[tn]
                v = P(2 ** (b - sg) - 1)
                return v if tn == "usize" else SInt(v, tn)
            if last == "NAN" or last == "INFINITY":
                return fsym(last)
        if last in self.crate.consts:
            return self.const(last)
        if last == "None":
            return NONE
        st = self.crate.structs.get(last)
        if st is not None and st.a.get("kind") == "unit":
            return Obj(last, {})
        if len(segs) >= 2 and segs[-2][0] == "Ordering":
            return EnumV("Ordering", last, [])
        return FnRef(e)

    def const(self, n):
        it = self.crate.consts[n]
        return self.coerce(self.expr(it.e), it.ty)

    def e_tuple(self, e):
        if not e.es:
            return UNIT
        return Seq([self.rval(x) for x in e.es])

    def e_array(self, e):
        return Seq([self.rval(x) for x in e.es], "array")

    def rval(self, x):
        v = self.expr(x)
        return v

    def e_repeat(self, e):
        n = self.int_(self.expr(e.n), e)
        v = self.deref(self.expr(e.e))
        c = n.const()
        if c is not None and c <= 8:
            return Seq([v] * c, "array")
        return self.make_array(v, (n,), e)

    def make_array(self, v, dims, node=None):
        v = self.deref(v)
        if isinstance(v, SInt):
            v = v.p
        if isinstance(v, Seq):
            # array of fixed-size rows of integers or scalars
            bs = (mk(ISym, fresh("v")), mk(ISym, fresh("v")))
            val = self.elem(v.xs[-1]) if v.xs else ZERO
            for k in range(len(v.xs) - 2, -1, -1):
                val = vite(eq(P(bs[1]), k), self.elem(v.xs[k]), val)
            if len(set(map(id, v.xs))) == 1:
                return mk(AConst, self.elem(v.xs[0]), tuple(P(d) for d in dims) + (P(len(v.xs)),))
            return mk(ALam, bs, val, tuple(P(d) for d in dims) + (P(len(v.xs)),))
        return mk(AConst, self.elem(v), tuple(P(d) for d in dims))

    def e_cast(self, e):
        v = self.deref(self.expr(e.e))
        t = self.ty(e.ty).name
        t = {"Count": "i32", "Rank": "i32", "c_int": "i32", "Address": "isize"}.get(t, t)
        if t in ("f64", "f32"):
            v = fint(self.int_(v)) if isinstance(v, (Poly, SInt)) else self.scalar(v)
            return v if t == "f64" else single(v)
        if t in INT_BITS:
            if isinstance(v, COND):
                p = iite(v, 1, 0)
            elif isinstance(v, (Poly, SInt)):
                p = self.int_(v)
            else:
                raise Unsupported("cast to integer", e)
            sg, b = INT_BITS[t]
            lo, hi = (-(2 ** (b - 1)), 2 ** (b - 1) - 1) if sg else (0, 2 ** b - 1)
            return self.fit(p, t, e, "cast")
        if isinstance(v, SCALAR) or isinstance(v, Cx):
            return v
        raise Unsupported(f"cast to {t}", e)

    def e_unary(self, e):
        v = self.deref(self.expr(e.e))
        if e.op == "!":
            if isinstance(v, COND):
                return neg(v)
            if isinstance(v, Poly) and v.const() is not None:
                return P(2 ** 64 - 1 - v.const())
            if isinstance(v, SInt) and INT_BITS[v.ty][0]:
                return SInt(-v.p - 1, v.ty)
            raise Unsupported("bitwise not", e)
        if isinstance(v, Poly):
            return -v if v.const() is not None else SInt(-v, "isize")
        if isinstance(v, SInt):
            return SInt(-v.p, v.ty)
        if isinstance(v, Cx):
            return cx(fneg(v.re), fneg(v.im))
        if isinstance(v, SCALAR):
            return fneg(v)
        if isinstance(v, (View, *ARRAY)):
            return self.amap(v, lambda x: fneg(x) if not isinstance(x, Cx) else cx(fneg(x.re), fneg(x.im)))
        raise Unsupported("negation", e)

    def e_deref(self, e):
        v = self.expr(e.e)
        if isinstance(v, Ref):
            return self.read_place(v.place)
        return v  # auto-copied reference or view

    def e_ref(self, e):
        inner = e.e
        while inner.k == "paren":
            inner = inner.e
        if inner.k == "index":
            return self.index(inner, want_ref=True)
        pl = self.place(inner)
        if pl is not None:
            v = self.read_place(pl)
            if isinstance(v, (Ref, View)) and inner.k != "path":
                return v
            if isinstance(v, View):
                return v
            return Ref(pl)
        v = self.expr(inner)
        if isinstance(v, (Ref, View)):
            return v
        return Ref(Place(self.new(v)))

    def place(self, e):
        """place denoted by an expression, or None for a temporary"""
        while e.k == "paren":
            e = e.e
        if e.k == "path" and len(e.segs) == 1 and e.qself is None:
            c = self.lookup(e.segs[0][0])
            return Place(c) if c is not None else None
        if e.k == "field":
            pl = self.place(e.e)
            if pl is None:
                v = self.expr(e.e)
                if isinstance(v, Ref):
                    pl = v.place
                else:
                    pl = Place(self.new(v))
            while True:
                v = self.read_place(pl)
                if isinstance(v, Ref):
                    pl = v.place
                    continue
                break
            return Place(pl.cell, pl.path + (("f", e.name),))
        if e.k == "deref":
            v = self.expr(e.e)
            if isinstance(v, Ref):
                return v.place
            if isinstance(v, View):
                return Place(self.new(v))
            return None
        if e.k == "index":
            r = self.index(e, want_ref=True)
            return r.place if isinstance(r, Ref) else Place(self.new(r))
        if e.k == "mcall":
            v = self.expr(e)
            return v.place if isinstance(v, Ref) else Place(self.new(v))
        if e.k == "unsafe":
            if not e.b.stmts and e.b.tail is not None:
                return self.place(e.b.tail)
        return None

    def e_field(self, e):
        pl = self.place(e)
        return self.read_place(pl)

    def e_index(self, e):
        r = self.index(e, want_ref=True)
        return self.read_place(r.place) if isinstance(r, Ref) else r

    def index(self, e, want_ref=False):
        base = self.recv(e.e)
        ix = self.expr(e.ix)
        b = self.deref(base)
        if isinstance(self.deref(ix), Rng):
            return self.slice_range(self.as_view(base, e), self.deref(ix), e)
        if isinstance(ix, Opaque) and ix.kind == "s!":
            return self.nd_slice(self.as_view(base, e), ix, e)
        if isinstance(b, MapV):
            from builtins_rs import m_map
            return m_map(self, base, b, "index", [ix], e)
        idx = self.indices(ix, e)
        return self.index_at(base, b, idx, e, "index")

    def indices(self, ix, e):
        ix = self.deref(ix)
        if isinstance(ix, Seq):
            return tuple(self.int_(x, e) for x in ix.xs)
        return (self.int_(ix, e),)

    def index_at(self, base, b, idx, e, kind):
        if isinstance(b, Seq):
            self.ob(kind, conj(le(0, idx[0]), lt(idx[0], len(b.xs))), e, "index in range")
            pl = base.place if isinstance(base, Ref) else Place(self.new(b))
            return Ref(self.chase(Place(pl.cell, pl.path + (("i", idx),))))
        v = self.as_view(base, e)
        if len(v.dims) > len(idx):
            # row of an array of rows
            self.ob(kind, conj(*[conj(le(0, i), lt(i, d)) for i, d in zip(idx, v.dims)]), e, "index in range")
            k = len(idx)
            return View(v.src, v.dims[k:], lambda j, f=v.f, idx=idx: f(tuple(idx) + tuple(j)))
        if len(v.dims) != len(idx):
            raise Unsupported("number of indices", e)
        self.ob(kind, conj(*[conj(le(0, i), lt(i, d)) for i, d in zip(idx, v.dims)]), e, "index in range")
        return self.view_elem(v, idx)

    def chase(self, pl):
        return pl

    def slice_range(self, v, r, e, checked=True):
        n = v.dims[0]
        lo = self.int_(r.lo, e) if r.lo is not None else P(0)
        hi = self.int_(r.hi, e) if r.hi is not None else n
        if r.incl:
            hi = hi + 1
        if checked:
            self.ob("slice", conj(le(0, lo), le(lo, hi), le(hi, n)), e, "slice range")
        return View(v.src, (hi - lo,) + v.dims[1:], lambda i, f=v.f, lo=lo: f((i[0] + lo,) + tuple(i[1:])), v.std)

    def from_end(self, v, n, e):
        """a bound of s![]: negative values count from the end"""
        v = self.deref(v)
        x = self.int_(v, e)
        if x.const() is not None:
            return n + x if x.const() < 0 else x
        return iite(lt(x, 0), n + x, x) if isinstance(v, SInt) and self.known(le(0, x)) is not True else x

    def nd_slice(self, v, s, e):
        dims, maps = [], []
        parts = s.a[0]
        if len(parts) != len(v.dims):
            raise Unsupported("s! arity", e)
        for p, n in zip(parts, v.dims):
            step = 1
            if isinstance(p, Opaque) and p.kind == "step":
                p, step = p.a
            if isinstance(p, Rng):
                lo = self.from_end(p.lo, n, e) if p.lo is not None else P(0)
                hi = self.from_end(p.hi, n, e) if p.hi is not None else n
                if p.incl:
                    hi = hi + 1
                self.ob("slice", conj(le(0, lo), le(lo, hi), le(hi, n)), e, "slice range")
                if step == 1:
                    maps.append(("r", lo))
                    dims.append(hi - lo)
                else:
                    maps.append(("s", (lo if step > 0 else hi - 1, step)))
                    dims.append(idiv(hi - lo + (abs(step) - 1), abs(step)))
            else:
                i = self.from_end(p, n, e)
                self.ob("slice", conj(le(0, i), lt(i, n)), e, "slice index")
                maps.append(("i", i))

        def f(j, maps=maps, g=v.f):
            out, k = [], 0
            for m, x in maps:
                if m == "r":
                    out.append(j[k] + x)
                    k += 1
                elif m == "s":
                    out.append(x[0] + j[k] * x[1])
                    k += 1
                else:
                    out.append(x)
            return g(tuple(out))

        return View(v.src, tuple(dims), f, False)

    def e_assign(self, e):
        if e.l.k == "path" and e.l.segs[-1][0] == "_":
            self.expr(e.r)
            return UNIT
        if e.op == "=":
            v = self.expr(e.r)
            if e.l.k == "tuple":
                w = self.deref(v)
                for l, x in zip(e.l.es, w.xs):
                    self.write_place(self.place(l), x)
                return UNIT
            pl = self.place(e.l)
            self.assign(pl, v, e)
            return UNIT
        # compound assignment
        pl = self.place(e.l)
        if pl is None:
            raise Unsupported("assignment target", e)
        r = self.expr(e.r)
        cur = self.read_place(pl)
        while isinstance(cur, Ref):
            pl = cur.place
            cur = self.read_place(pl)
        if isinstance(cur, (View, *ARRAY)):
            v = self.as_view(Ref(pl))
            rv = self.deref(r)
            op = e.op[:-1]
            if isinstance(rv, (View, *ARRAY)):
                w = self.snapshot(r)
                new = self.amap2(self.snapshot(v), w, lambda a, b: self.binop(op, a, b, e))
            else:
                new = self.amap(v, lambda a: self.binop(op, a, rv, e))
            self.assign_view(v, new)
            return UNIT
        self.write_place(pl, self.binop(e.op[:-1], cur, self.deref(r), e))
        return UNIT

    def assign(self, pl, v, e):
        if pl is None:
            raise Unsupported("assignment target", e)
        v = v if isinstance(v, (Ref, View)) and e.l.k == "path" else self.deref(v)
        # row assignment into an array of rows
        if pl.path == () and isinstance(self.store[pl.cell], View) and e.l.k in ("index", "deref"):
            w = self.store[pl.cell]
            if isinstance(v, (Seq, View, *ARRAY)):
                vv = self.as_view(v)
                for k in range(len(vv.xs) if isinstance(vv, Seq) else int(vv.dims[0].const() if vv.dims[0].const() is not None else -1)):
                    self.view_write(w, (P(k),), self.view_read(vv, (P(k),)))
                if isinstance(vv, View) and vv.dims[0].const() is None:
                    raise Unsupported("row assignment", e)
                return
        cur = self.store.get(pl.cell)
        self.write_place(pl, v)

    def assign_view(self, v, arr):
        """overwrite the whole window v with array contents arr"""
        if not isinstance(v.src, Place):
            raise Unsupported("write through immutable view")
        if getattr(v, "flat_of", None) is not None:
            from builtins_rs import reshape
            return self.assign_view(v.flat_of, reshape(self, arr, v.flat_of.dims))
        bs = tuple(P(mk(ISym, fresh("v"))) for _ in v.dims)
        j = v.f(bs)
        base = self.read_place(v.src)
        if isinstance(base, ARRAY) and tuple(j) == bs and self.same_dims(adims(base), v.dims):
            if asort(base) == "C" and asort(arr) == "F":
                arr = self.acx(arr)
            self.write_place(v.src, arr)
            return
        # element-wise through a loop
        if len(v.dims) == 1:
            self.for_each(It(v.dims[0], lambda t: t), lambda t: self.view_write(v, (t,), aread(arr, (t,))), None)
            return
        raise Unsupported("assignment to a window")

    def amap(self, v, f):
        w = self.as_view(v)
        bs = tuple(P(mk(ISym, fresh("v"))) for _ in w.dims)
        snap = self.snapshot(w)
        syms = tuple(x.terms[0][0][0][0] for x in bs)
        self.bound += list(syms)
        pc = self.pc
        self.pc = pc + tuple(c for b, d in zip(bs, w.dims) for c in (le(0, b), lt(b, d)))
        try:
            val = self.elem(self.merged(lambda: f(aread(snap, bs))))
        finally:
            self.pc = pc
            del self.bound[-len(syms):]
        if isinstance(val, Poly) and asort(snap) != "I":
            val = fint(val)
        return mk(ALam, syms, val, w.dims)

    def amap2(self, a, b, f):
        d = adims(a)
        bs = tuple(P(mk(ISym, fresh("v"))) for _ in d)
        syms = tuple(x.terms[0][0][0][0] for x in bs)
        db = adims(b)
        if len(db) != len(d):
            raise Unsupported("broadcast")
        self.ob("shape", conj(*[eq(x, y) for x, y in zip(d, db)]), None, "equal shapes")
        return mk(ALam, syms, self.elem(f(aread(a, bs), aread(b, bs))), d)

    # ------------------------------------------------------------ operators
    def e_bin(self, e):
        if e.op in ("&&", "||"):
            l = self.cond(self.expr(e.l), e)
            if e.op == "&&":
                if l is FALSE:
                    return FALSE
                pc = self.pc
                self.pc = pc + (l,)
                try:
                    r = self.cond(self.expr(e.r), e)
                finally:
                    self.pc = pc
                return conj(l, r)
            if l is TRUE:
                return TRUE
            pc = self.pc
            self.pc = pc + (neg(l),)
            try:
                r = self.cond(self.expr(e.r), e)
            finally:
                self.pc = pc
            return disj(l, r)
        a = self.deref(self.expr(e.l))
        b = self.deref(self.expr(e.r))
        return self.binop(e.op, a, b, e)

    def binop(self, op, a, b, e):
        if isinstance(a, (Poly, SInt)) and isinstance(b, (Poly, SInt)):
            return self.int_op(op, a, b, e)
        if op in ("==", "!="):
            r = self.equal(a, b, e)
            return r if op == "==" else neg(r)
        if isinstance(a, (View, *ARRAY)) or isinstance(b, (View, *ARRAY)):
            if op in ("+", "-", "*", "/"):
                if isinstance(a, (View, *ARRAY)) and isinstance(b, (View, *ARRAY)):
                    return self.amap2(self.snapshot(a), self.snapshot(b), lambda x, y: self.binop(op, x, y, e))
                if isinstance(a, (View, *ARRAY)):
                    return self.amap(a, lambda x: self.binop(op, x, b, e))
                return self.amap(b, lambda x: self.binop(op, a, x, e))
        if isinstance(a, COND) and isinstance(b, COND) and op in ("&", "|", "^"):
            if op == "&":
                return conj(a, b)
            if op == "|":
                return disj(a, b)
        if isinstance(a, SInt):
            a = a.p
        if isinstance(b, SInt):
            b = b.p
        if isinstance(a, Poly):
            a = fint(a)
        if isinstance(b, Poly):
            b = fint(b)
        if isinstance(a, Cx) or isinstance(b, Cx):
            if not (isinstance(a, (Cx, *SCALAR)) and isinstance(b, (Cx, *SCALAR))):
                raise Unsupported("complex operands", e)
            x, y = tocx(a), tocx(b)
            if op == "+":
                return cx(fadd(x.re, y.re), fadd(x.im, y.im))
            if op == "-":
                return cx(fsub(x.re, y.re), fsub(x.im, y.im))
            if op == "*":
                return cx(fsub(fmul(x.re, y.re), fmul(x.im, y.im)), fadd(fmul(x.re, y.im), fmul(x.im, y.re)))
            if op == "/":
                if not isinstance(b, Cx):
                    self.nonzero(b, e)
                    return cx(fdiv(x.re, b), fdiv(x.im, b))
                d = fadd(fmul(y.re, y.re), fmul(y.im, y.im))
                self.nonzero(d, e)
                return cx(fdiv(fadd(fmul(x.re, y.re), fmul(x.im, y.im)), d), fdiv(fsub(fmul(x.im, y.re), fmul(x.re, y.im)), d))
            raise Unsupported(f"complex {op}", e)
        if isinstance(a, SCALAR) and isinstance(b, SCALAR):
            if op == "+":
                return fadd(a, b)
            if op == "-":
                return fsub(a, b)
            if op == "*":
                return fmul(a, b)
            if op == "/":
                self.nonzero(b, e)
                return fdiv(a, b)
            if op in ("<", ">", "<=", ">="):
                if isinstance(a, FConst) and isinstance(b, FConst):
                    x, y = a.args[0], b.args[0]
                    return B({"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[op])
                if isinstance(a, (FInt, FConst)) and isinstance(b, (FInt, FConst)):
                    x = a.args[0] if isinstance(a, FInt) else a.args[0]
                    y = b.args[0]
                    if all(isinstance(z, Poly) or z.denominator == 1 for z in (x, y)):
                        x = x if isinstance(x, Poly) else P(int(x))
                        y = y if isinstance(y, Poly) else P(int(y))
                        return {"<": lt(x, y), ">": lt(y, x), "<=": le(x, y), ">=": le(y, x)}[op]
                if op in (">", ">="):
                    a, b, op = b, a, {">": "<", ">=": "<="}[op]
                return mk(CSym, "real" + op, (a, b))
        raise Unsupported(f"operator {op} on {type(a).__name__}, {type(b).__name__}", e)

    def nonzero(self, b, e):
        if isinstance(b, FConst):
            if b.args[0] == 0:
                self.ob("div0", FALSE, e, "division by zero")
            return
        if not self.quiet:
            self.divisors.append((b, self.pc, getattr(e, "line", None), self.where()))

    def equal(self, a, b, e):
        if isinstance(a, EnumV) and isinstance(b, EnumV):
            if a.variant != b.variant:
                return FALSE
            return conj(*[self.equal(x, y, e) for x, y in zip(a.xs, b.xs)])
        if isinstance(a, (Poly, SInt)) and isinstance(b, (Poly, SInt)):
            return eq(self.int_(a), self.int_(b))
        if isinstance(a, Seq) and isinstance(b, Seq):
            if len(a.xs) != len(b.xs):
                return FALSE
            return conj(*[self.equal(self.deref(x), self.deref(y), e) for x, y in zip(a.xs, b.xs)])
        if isinstance(a, Seq) and isinstance(b, View) and b.dims[0].const() == len(a.xs):
            return conj(*[self.equal(self.deref(x), self.view_read(b, (P(i),)), e) for i, x in enumerate(a.xs)])
        if isinstance(b, Seq) and isinstance(a, View):
            return self.equal(b, a, e)
        if isinstance(a, COND) and isinstance(b, COND):
            return disj(conj(a, b), conj(neg(a), neg(b)))
        if isinstance(a, Str) and isinstance(b, Str):
            return B(a.s == b.s)
        if isinstance(a, FConst) and isinstance(b, FConst):
            return B(a.args[0] == b.args[0])
        if isinstance(a, SCALAR) and isinstance(b, SCALAR):
            return TRUE if a is b else mk(CSym, "real==", (a, b))
        raise Unsupported(f"== on {type(a).__name__}, {type(b).__name__}", e)

    def fit(self, p, t, e, kind):
        """the value of type t congruent to p modulo 2^bits"""
        w = (lambda q: q) if t == "usize" else (lambda q: SInt(q, t))
        sg, b = INT_BITS[t]
        lo, hi = (-(2 ** (b - 1)), 2 ** (b - 1) - 1) if sg else (0, 2 ** b - 1)
        if p.const() is not None:
            return w(P((p.const() - lo) % (1 << b) + lo))
        c = conj(le(lo, p), le(p, hi))
        if not sg and b < 64 and not self.known(c) and not prove.prove_cond(c, prove.Ctx().add(*self.pc))[0]:
            return w(imod(p, 1 << b))
        self.ob(kind, c, e, f"value kept by {kind} to {t}")
        return w(p)

    def high_mask(self, z, bits):
        """2^k when z is the constant with all bits from k on set (as in !1)"""
        c = z.const()
        if c is not None and c > 0:
            low = 2 ** bits - c
            if low > 1 and low & (low - 1) == 0:
                return low
        return None

    def int_op(self, op, a, b, e):
        ty = a.ty if isinstance(a, SInt) else (b.ty if isinstance(b, SInt) else "usize")
        x, y = self.int_(a), self.int_(b)
        wrap = (lambda p: SInt(p, ty)) if ty != "usize" else (lambda p: p)
        sg, bits = INT_BITS[ty]
        if op == "+":
            r = x + y
        elif op == "-":
            r = x - y
        elif op == "*":
            r = x * y
        elif op in ("/", "%"):
            self.ob("div0", neg(eq(y, 0)), e, "integer division by zero")
            if sg:
                self.ob("sign", conj(le(0, x), le(1, y)), e, "signed division of non-negative operands")
            r = idiv(x, y) if op == "/" else imod(x, y)
            return wrap(r)
        elif op == "<":
            return lt(x, y)
        elif op == "<=":
            return le(x, y)
        elif op == ">":
            return lt(y, x)
        elif op == ">=":
            return le(y, x)
        elif op == "==":
            return eq(x, y)
        elif op == "!=":
            return neg(eq(x, y))
        elif op in ("<<", ">>") and y.const() is not None:
            k = y.const()
            return wrap(x * (1 << k) if op == "<<" else idiv(x, 1 << k))
        elif op == "&" and any(z.const() is not None and z.const() >= 0 and z.const() & (z.const() + 1) == 0 for z in (x, y)):
            if y.const() is None or y.const() < 0 or y.const() & (y.const() + 1):
                x, y = y, x
            if x.const() is not None:
                return wrap(P(x.const() & y.const()))
            return wrap(imod(x, y.const() + 1))
        elif op == "&" and any(self.high_mask(z, bits) is not None for z in (x, y)):
            if self.high_mask(y, bits) is None:
                x, y = y, x
            return wrap(x - imod(x, self.high_mask(y, bits)))
        elif op in ("|", "^", "&") and any(self.known(conj(le(0, z), le(z, 1))) is True for z in (x, y)):
            if self.known(conj(le(0, y), le(y, 1))) is not True:
                x, y = y, x
            odd = imod(x, 2)
            if op == "&":
                return wrap(iite(eq(y, 0), P(0), odd))
            return wrap(iite(eq(y, 0), x, x + 1 - odd if op == "|" else x + 1 - odd * 2))
        elif op in ("&", "|", "^") and x.const() is not None and y.const() is not None and x.const() >= 0 and y.const() >= 0:
            return wrap(P({"&": x.const() & y.const(), "|": x.const() | y.const(), "^": x.const() ^ y.const()}[op]))
        else:
            raise Unsupported(f"integer {op}", e)
        if r.const() is not None:
            if not sg and r.const() < 0:
                self.ob("arith", FALSE, e, "unsigned underflow")
            return wrap(r)
        if not sg and op == "-":
            self.ob("arith", le(0, r), e, f"no underflow: {x} - {y}")
        if bits < 64 or op == "*" and x.const() is None and y.const() is None or (op == "*" and any(sum(p for _, p in m) > 1 for m, _ in r.terms)) or (op in "+-" and any(sum(p for _, p in m) > 1 for m, _ in r.terms)):
            if sg:
                self.ob("arith", conj(le(-(2 ** (bits - 1)), r), le(r, 2 ** (bits - 1) - 1)), e, f"no overflow in {ty}")
            else:
                self.ob("arith", le(r, 2 ** bits - 1), e, f"no overflow in {ty}")
        return wrap(r)

    # ------------------------------------------------------------ control
    def e_if(self, e):
        if e.c.k == "letcond":
            v = self.expr_scrut(e.c.e)
            c = self.test_pat(e.c.pat, v)

            def then():
                self.env.append({})
                try:
                    self.bind(e.c.pat, v)
                    return self.block(e.b)
                finally:
                    self.env.pop()
        else:
            c = self.cond(self.expr(e.c), e)

            def then():
                return self.block(e.b)

        def other():
            return self.expr(e.els) if e.els is not None else UNIT

        return self.branch(c, then, other, e)

    def expr_scrut(self, x):
        pl = self.place(x) if x.k in ("path", "field", "deref", "index") else None
        if pl is not None:
            v = self.read_place(pl)
            return v if isinstance(v, (Ref, View)) else Ref(pl)
        return self.expr(x)

    def branch(self, c, then, other, e):
        d = self.known(c)
        if d is True:
            return then()
        if d is False:
            return other()
        store0, pc0, nobs, ndiv = dict(self.store), self.pc, len(self.obs), len(self.divisors)
        env0 = [dict(s) for s in self.env]
        try:
            self.pc = pc0 + (c,)
            p1 = p2 = None
            v1 = v2 = None
            try:
                v1 = then()
            except Panic as p:
                p1 = p
            s1, pc1 = self.store, self.pc
            self.store, self.pc = dict(store0), pc0 + (neg(c),)
            for s, s0 in zip(self.env, env0):
                s.clear()
                s.update(s0)
            try:
                v2 = other()
            except Panic as p:
                p2 = p
            s2, pc2 = self.store, self.pc
            self.pc = pc0
            if p1 is not None and p2 is not None:
                self.panic_ob(TRUE, p1)
                raise p1
            if p1 is not None:
                self.panic_ob(c, p1)
                self.store, self.pc = s2, pc2
                return v2
            if p2 is not None:
                self.panic_ob(neg(c), p2)
                self.store, self.pc = s1, pc1
                return v1
            # conditions learned inside a branch hold only there
            x1 = [q for q in pc1[len(pc0) + 1:]]
            x2 = [q for q in pc2[len(pc0) + 1:]]
            self.store = self.merge_store(c, s1, s2, store0)
            extra = [imp(c, q) for q in x1] + [imp(neg(c), q) for q in x2]
            self.pc = pc0 + tuple(q for q in extra if q is not TRUE)
            return self.merge_val(c, v1, v2)
        except (Control, NeedFork):
            self.store, self.pc = dict(store0), pc0
            for s, s0 in zip(self.env, env0):
                s.clear()
                s.update(s0)
            del self.obs[nobs:]
            del self.divisors[ndiv:]
            if self.choose(c):
                return then()
            return other()

    def panic_ob(self, c, p):
        """the code panics when c holds"""
        if not self.quiet:
            self.obs.append(Ob("panic", neg(c), self.pc, p.line, self.where(), p.what))
            self.asserts.append((neg(c), self.pc, p.line, self.where(), p.what))

    def e_match(self, e):
        v = self.expr_scrut(e.e)
        return self.match_arms(v, e.arms, 0, e)

    def match_arms(self, v, arms, i, e):
        if i == len(arms):
            raise Panic("no arm matches", e.line)
        pat, guard, body = arms[i]
        c = self.test_pat(pat, v)

        def run():
            self.env.append({})
            try:
                self.bind_or(pat, v)
                return self.expr(body)
            finally:
                self.env.pop()

        if guard is not None:
            self.env.append({})
            try:
                self.bind_or(pat, v)
                g = self.cond(self.expr(guard), e)
            finally:
                self.env.pop()
            c = conj(c, g)
        if c is FALSE:
            return self.match_arms(v, arms, i + 1, e)
        if i == len(arms) - 1 and guard is None:
            return run()
        return self.branch(c, run, lambda: self.match_arms(v, arms, i + 1, e), e)

    def bind_or(self, pat, v):
        if pat.k == "por":
            return
        if pat.k in ("pconst", "ppath", "prange"):
            return
        self.bind(pat, v)

    def e_return(self, e):
        raise Return(self.expr(e.e) if e.e is not None else UNIT)

    def e_break(self, e):
        raise Break(e.lab, self.expr(e.e) if e.e is not None else None)

    def e_continue(self, e):
        raise Continue(e.lab)

    def e_closure(self, e):
        return Clo(e, list(self.env), self.fnstack[-1] if self.fnstack else None)

    def call_clo(self, c, args):
        if isinstance(c, FnRef):
            return self.call_path(c.path, args, c.path)
        if isinstance(c, Fn):
            return self.call(c, None, args)
        if not isinstance(c, Clo):
            raise Unsupported("call of " + type(c).__name__)
        saved = self.env
        self.env = list(c.env) + [{}]
        try:
            if len(args) != len(c.node.ps):
                raise Unsupported("closure arity", c.node)
            for (p, ty), a in zip(c.node.ps, args):
                self.bind(p, self.coerce(a, ty))
            try:
                return self.expr(c.node.body)
            except Return as r:
                return r.v
        finally:
            self.env = saved

    def e_try(self, e):
        v = self.deref(self.expr(e.e))
        if isinstance(v, EnumV) and v.variant in ("Some", "Ok"):
            return v.xs[0]
        if isinstance(v, EnumV):
            raise Return(v)
        raise Unsupported("?", e)

    def e_range(self, e):
        lo = self.expr(e.lo) if e.lo is not None else None
        hi = self.expr(e.hi) if e.hi is not None else None
        return Rng(self.deref(lo) if lo is not None else None, self.deref(hi) if hi is not None else None, e.incl)

    def e_slit(self, e):
        n = e.path.segs[-1][0]
        if len(e.path.segs) >= 2 and e.path.segs[-2][0] in self.crate.enums:
            raise Unsupported("struct variant", e)
        if n == "Self":
            n = self.tenv["Self"].name
        f = {k: self.own(self.expr(v)) for k, v in e.fs}
        if e.base is not None:
            b = self.deref(self.expr(e.base))
            for k, v in b.fields.items():
                f.setdefault(k, v)
        if n == "Complex":
            return cx(self.scalar(f["re"]), self.scalar(f["im"]))
        return Obj(n, f)

    def own(self, v):
        return v

    # ------------------------------------------------------------ loops
    def e_for(self, e):
        it = self.iter(self.expr(e.e), e)

        def body(x):
            self.env.append({})
            try:
                self.bind(e.pat, x)
                self.block(e.b)
            finally:
                self.env.pop()

        if isinstance(it, list):
            for x in it:
                try:
                    body(x)
                except Continue as c:
                    if c.lab not in (None, e.a.get("label")):
                        raise
                except Break as c:
                    if c.lab not in (None, e.a.get("label")):
                        raise
                    break
            return UNIT
        if not self.for_break(it, e):
            self.for_each(it, body, e)
        return UNIT

    def for_break(self, it, e):
        """for p in it { if c { break } B }: the iterations before c holds"""
        st = e.b.stmts
        if not st or st[0].k != "sexpr" or st[0].e.k != "if" or st[0].e.els is not None or st[0].e.c.k == "letcond":
            return False
        f = st[0].e
        xs = list(f.b.stmts) + ([N("sexpr", f.line, e=f.b.tail, semi=True)] if f.b.tail is not None else [])
        if len(xs) != 1 or xs[0].k != "sexpr" or xs[0].e.k != "break" or xs[0].e.e is not None or xs[0].e.lab not in (None, e.a.get("label")):
            return False
        if getattr(it, "stages", None) or getattr(it, "nd", None):
            return False
        N_ = mk(ISym, fresh("T"))
        rest = N(e.b.k, e.line, **{**e.b.a, "stmts": st[1:]})
        inb = [] if it.note == "inf" else [it.n]

        def cond():
            before = dict(self.store)
            c = neg(self.cond(self.expr(f.c), f))
            if any(self.store[k] is not x for k, x in before.items()):
                raise Unsupported("condition with an effect", e)
            return c

        def body(t):
            self.pc = self.pc + tuple(lt(t, n) for n in inb)
            self.env.append({})
            try:
                self.bind(e.pat, it.elem(t))
                self.pc = self.pc + (cond(),)
                self.block(rest)
            finally:
                self.env.pop()

        def solve(T, closed, modified, store0):
            qs = mk(ISym, fresh("q"))
            q = P(qs)
            saved, spc = self.store, self.pc
            self.store = dict(store0)
            self.quiet += 1
            self.bound.append(qs)
            self.env.append({})
            try:
                for (c, p), key in modified.items():
                    if (c, p) in closed:
                        self.write_place(Place(c, p), closed[(c, p)](q))
                self.pc = self.pc + (le(0, q),) + tuple(lt(q, n) for n in inb)
                self.bind(e.pat, it.elem(q))
                c = cond()
            finally:
                self.env.pop()
                self.bound.pop()
                self.quiet -= 1
                self.store, self.pc = saved, spc
            if isinstance(c, CNot) and isinstance(c.args[0], CEq):
                l = c.args[0].args[0].lin(qs)
                if l and l[0] in (1, -1) and qs not in fv(l[1]):
                    r = l[1] * -l[0]
                    # a root below zero is never met
                    k = r if self.known(le(0, r)) else (iite(le(0, r), r, inb[0]) if inb else None)
                    if k is None:
                        raise Unsupported("loop without an end", e)
                    return imin(inb[0], k) if inb else k
            k = self.solve_count(c, qs, e)
            return imin(inb[0], k) if inb else k

        solve.once = True
        self.for_each(It(P(N_), lambda t: t), body, e, while_cond=solve)
        return True

    def iter(self, v, node):
        """iterator value: It or python list"""
        if isinstance(v, list):
            return v
        if isinstance(v, Opaque) and v.kind == "lanes":
            from builtins_rs import m_opaque
            return self.iter(m_opaque(self, v, v, "into_iter", [], node), node)
        if isinstance(v, It):
            c = v.n.const()
            if c is not None and 0 <= c <= 6:
                return [v.elem(P(i)) for i in range(c)]
            return v
        if isinstance(v, Rng):
            ty = None
            for q in (v.lo, v.hi):
                if isinstance(q, SInt):
                    ty = q.ty
            lo = self.int_(v.lo, node) if v.lo is not None else P(0)
            w = (lambda p: SInt(p, ty)) if ty else (lambda p: p)
            if v.hi is None:
                return It(P(mk(ISym, "infinity")), lambda t: w(lo + t), "inf")
            hi = self.int_(v.hi, node)
            if v.incl:
                hi = hi + 1
            n = self.clip(hi - lo)
            c = n.const()
            if c is not None and 0 <= c <= 6:
                return [w(lo + i) for i in range(c)]
            return It(n, lambda t: w(lo + t))
        if isinstance(v, EnumV) and v.ty == "Option":
            return [] if v.variant == "None" else [v.xs[0]]
        pl = None
        w = v
        while isinstance(w, Ref):
            pl = w.place
            w = self.read_place(pl)
        if isinstance(w, It):
            return self.iter(w, node)
        if isinstance(w, Obj) and w.ty == "#Iter":
            import iterstate
            if v is w:
                return self.iter(iterstate.remaining(self, w), node)
            return self.iter(iterstate.consume(self, v, node), node)
        if isinstance(w, Seq):
            return [Ref(Place(pl.cell, pl.path + (("f", str(i)),))) if pl is not None else x for i, x in enumerate(w.xs)]
        if isinstance(w, (View, *ARRAY)):
            vv = self.as_view(v, node)
            if len(vv.dims) == 1:
                return self.iter(It(vv.dims[0], lambda t: self.view_elem(vv, (t,))), node)
            if len(vv.dims) == 2 and vv.dims[1].const() is not None:
                # vector of fixed-size rows
                return self.iter(It(vv.dims[0], lambda t: View(vv.src, vv.dims[1:], lambda j, t=t: vv.f((t,) + tuple(j)))), node)
        raise Unsupported(f"iteration over {type(w).__name__}", node)

    def clip(self, n):
        c = n.const()
        if c is not None:
            return P(max(c, 0))
        if self.known(le(0, n)):
            return n
        return imax(0, n)

    def leaves(self, v, path=()):
        """modifiable leaves of a value: path -> leaf"""
        if isinstance(v, Obj):
            out = {}
            for k, x in v.fields.items():
                out.update(self.leaves(x, path + (("f", k),)))
            return out
        if isinstance(v, (Seq, EnumV)):
            out = {}
            for i, x in enumerate(v.xs):
                out.update(self.leaves(x, path + (("f", str(i)),)))
            return out
        return {path: v}

    def growing(self, a, b, c, path):
        """raise Grows for a vector that becomes longer in one iteration"""
        if a is b:
            return
        va = isinstance(a, Seq) and a.kind == "vec" or isinstance(a, ARRAY) and len(adims(a)) == 1
        if va and isinstance(b, Seq) and b.kind == "vec" and isinstance(a, Seq) and len(a.xs) < len(b.xs):
            raise Grows(c, path, b)
        if va and isinstance(b, ARRAY) and len(adims(b)) == 1 and (
                isinstance(a, Seq) or not self.same_dims(adims(a), adims(b))):
            raise Grows(c, path, b)
        if isinstance(a, ARRAY) and isinstance(b, ARRAY) and not self.same_dims(adims(a), adims(b)):
            raise Unsupported("shape of an array changes in a loop")
        if isinstance(a, Obj) and isinstance(b, Obj):
            for k in a.fields:
                self.growing(a.fields[k], b.fields.get(k), c, path + (("f", k),))
        elif isinstance(a, (Seq, EnumV)) and isinstance(b, (Seq, EnumV)) and len(a.xs) == len(b.xs):
            for i, (x, y) in enumerate(zip(a.xs, b.xs)):
                self.growing(x, y, c, path + (("f", str(i)),))

    def diff(self, s0, s1):
        """leaves of pre-existing cells that changed"""
        out = {}
        for c, a in s0.items():
            b = s1.get(c)
            if a is b:
                continue
            self.growing(a, b, c, ())
            la, lb = self.leaves(a), self.leaves(b)
            if set(la) != set(lb):
                raise ShapeChange("shape of a variable changes in a loop")
            for p in la:
                x, y = la[p], lb[p]
                if x is y:
                    continue
                if isinstance(x, SInt) and isinstance(y, SInt) and x.p is y.p:
                    continue
                if isinstance(x, Ref) and isinstance(y, Ref) and x.place.cell == y.place.cell and x.place.path == y.place.path:
                    continue
                if isinstance(x, (Opaque, View, Str, Clo, It, Unit, type(None))) and type(x) is type(y):
                    if x is not y and isinstance(x, (View, It)):
                        raise Unsupported("reference variable changes in a loop")
                    continue
                if x is None:
                    # variable declared before the loop, assigned inside
                    out[(c, p)] = (x, y)
                    continue
                out[(c, p)] = (x, y)
        return out

    def run_body(self, body, x, label=None):
        """execute body once on all paths; merge into one store"""
        store0 = dict(self.store)
        base = list(store0)

        def run():
            try:
                body(x)
            except Continue as c:
                if c.lab not in (None, label):
                    raise Unsupported("labelled continue")

        pc0 = self.pc
        res = self.enumerate(run)
        live = []
        for pc, _, st, exc in res:
            if isinstance(exc, Panic):
                c = conj(*pc[len(pc0):])
                self.panic_ob(c, exc)
                continue
            if exc is not None:
                raise Unsupported(f"{type(exc).__name__.lower()} out of a loop")
            live.append((pc, st))
        if not live:
            raise Panic("every path of the loop body panics", None)
        acc = live[-1][1]
        for pc, st in reversed(live[:-1]):
            c = conj(*pc[len(pc0):])
            acc = self.merge_store(c, st, acc, base)
        if len(live) == 1:
            extra = live[0][0][len(pc0):]
        else:
            extra = ()
        return {k: acc[k] for k in base}, extra

    def nested(self, dims, f, node, pre=()):
        """elements of an n-dimensional array in logical order: nested loops"""
        if len(pre) == len(dims):
            return f(pre)
        return self.for_each(It(dims[len(pre)], lambda t: t), lambda t: self.nested(dims, f, node, pre + (P(t),)), node)

    def for_each(self, it, body, node, while_cond=None):
        """summarise a loop of symbolic length"""
        saved = dict(self.store), self.pc, len(self.obs), len(self.divisors), len(self.asserts), len(self.loops)
        try:
            return self.for_each1(it, body, node, while_cond)
        except ShapeChange:
            if while_cond is not None or getattr(it, "stages", None) or getattr(it, "nd", None) or it.note == "inf" or self.known(le(it.n, 0)):
                raise
            self.store, self.pc = saved[0], saved[1]
            for l, k in zip((self.obs, self.divisors, self.asserts, self.loops), saved[2:]):
                del l[k:]
        # for example an Option that becomes Some: the first iteration is executed apart

        def go():
            try:
                body(it.elem(P(0)))
            except Continue as c:
                if c.lab not in (None, node.a.get("label") if isinstance(node, N) else None):
                    raise
            self.for_each1(It(it.n - 1, lambda t: it.elem(t + 1), it.note), body, node)
        if self.choose_known(le(1, it.n)):
            go()

    def for_each1(self, it, body, node, while_cond=None):
        stages = getattr(it, "stages", None)
        if stages:
            src = It(it.n, it.elem, it.note)
            if hasattr(it, "nd"):
                src.nd = it.nd
            inner = body

            def body(x, k=0):
                if k == len(stages):
                    return inner(x)
                kind, f = stages[k]
                if kind == "map":
                    return body(self.call_clo(f, [x]), k + 1)
                if kind == "deref":
                    return body(self.deref(x), k + 1)
                if kind == "filter_map":
                    o = self.deref(self.call_clo(f, [x]))
                    return body(o.xs[0], k + 1) if o.variant == "Some" else UNIT
                return self.branch(self.cond(self.call_clo(f, [x]), node), lambda: body(x, k + 1), lambda: UNIT, node)

            return self.for_each(src, lambda x: body(x), node, while_cond)
        nd = getattr(it, "nd", None)
        if nd is not None:
            return self.nested(nd[0], lambda ix: body(nd[1](ix)), node)
        tsym = mk(ISym, fresh("t"))
        t = P(tsym)
        n = it.n
        if it.note == "inf":
            raise Unsupported("infinite iteration", node)
        store0, pc0 = dict(self.store), self.pc
        if self.known(le(n, 0)):
            return
        T = Template(f"loop@{getattr(node, 'line', '?')}", tsym, tuple(self.bound))
        T.length = n
        T.pc = pc0
        T.line = (self.where(), getattr(node, "line", None))
        params = tuple(P(b) for b in T.params)
        closed = {}  # leaf -> (init, step)
        modified = {}
        promoted = {}  # array of which the loop rewrites one fixed cell: that cell is a scalar of the loop
        grows = []
        obs0, div0, as0 = len(self.obs), len(self.divisors), len(self.asserts)
        for attempt in range(12):
            # start of iteration t
            self.store = dict(store0)
            del self.obs[obs0:]
            del self.divisors[div0:]
            del self.asserts[as0:]
            self.pc = pc0 + (le(0, t), lt(t, n))
            for (c, p), key in modified.items():
                lf = T.leaves.get(key)
                if (c, p) in closed:
                    v = closed[(c, p)](t)
                elif lf.kind == "hist":
                    v = self.hist_value(T, key, params, t, lf)
                else:
                    v = mk(AState, T, key, params, t)
                if (c, p) in promoted:
                    v = self.arr_store(*promoted[(c, p)], v)
                self.write_place(Place(c, p), v)
            start = dict(self.store)
            self.bound.append(tsym)
            try:
                end, extra = self.run_body(body, it.elem(t), node.a.get("label") if isinstance(node, N) else None)
            finally:
                self.bound.pop()
            try:
                d = self.diff(start, end)
            except Grows as g:
                pl = Place(g.cell, g.path)
                self.store = dict(store0)
                self.write_place(pl, self.grown(self.read_place(pl), g.like))
                store0 = dict(self.store)
                grows.append(pl)
                for k in [k for k in modified if k[0] == g.cell and k[1][:len(g.path)] == g.path]:
                    del T.leaves[modified.pop(k)]
                    closed.pop(k, None)
                    promoted.pop(k, None)
                continue
            new = [k for k in d if k not in modified]
            if new:
                for c, p in new:
                    key = f"v{c}" + "".join("." + str(s[1]) for s in p)
                    modified[(c, p)] = key
                    prev = self.leaf_at(store0, c, p)
                    if isinstance(prev, ARRAY):
                        T.leaves[key] = Leaf("cells", prev, None, asort(prev))
                    elif prev is None:
                        T.leaves[key] = Leaf("hist", None, None, None)
                        T.leaves[key].init_from = d[(c, p)][1]
                        y = d[(c, p)][1]
                        # value before the loop is never read (definite assignment): any value will do
                        if isinstance(y, SCALAR):
                            T.leaves[key].prev, T.leaves[key].sort = fsym("unset"), "F"
                        elif isinstance(y, Cx):
                            T.leaves[key].prev, T.leaves[key].sort = cx(fsym("unset"), fsym("unset")), "C"
                        elif isinstance(y, Poly):
                            T.leaves[key].prev, T.leaves[key].sort = isym("unset"), "I"
                        else:
                            raise Unsupported("uninitialised variable assigned in a loop", node)
                    elif isinstance(prev, (SCALAR + (Cx, Poly, SInt))) or isinstance(prev, COND):
                        w = d[(c, p)][1]
                        if isinstance(w, Cx) and not isinstance(prev, Cx):
                            prev = tocx(prev)
                        T.leaves[key] = Leaf("hist", prev.p if isinstance(prev, SInt) else prev, None, vsort(prev.p if isinstance(prev, SInt) else prev))
                        T.leaves[key].ity = prev.ty if isinstance(prev, SInt) else None
                    else:
                        raise Unsupported(f"loop modifies a {type(prev).__name__}", node)
                continue
            # all modified leaves known
            again = False
            for (c, p), key in modified.items():
                v0 = self.leaf_at(start, c, p)
                v1 = self.leaf_at(end, c, p)
                lf = T.leaves[key]
                if (c, p) in promoted:
                    arr, idx = promoted[(c, p)]
                    if not isinstance(v1, ARRAY) or not self.only_cell(v1, arr, idx):
                        raise Unsupported("writes of a loop to several cells", node)
                    v0, v1 = aread(v0, idx), aread(v1, idx)
                if isinstance(lf.prev, ARRAY):
                    if (c, p) in closed:
                        continue
                    if not isinstance(v1, ARRAY):
                        raise Unsupported("array replaced in a loop", node)
                    run = self.running_sum(lf, v0, v1, tsym, n, T) if lf.sort == "I" else None
                    if run is not None:
                        closed[(c, p)] = run
                        again = True
                        continue
                    if asort(v1) != lf.sort:
                        if asort(v1) == "C":
                            lf.prev, lf.sort = self.acx(lf.prev), "C"
                            store0 = dict(store0)
                            self.store = store0
                            again = True
                            continue
                        raise Unsupported("sort of array changes in a loop", node)
                    idx = self.one_cell(v1, T, key)
                    if idx is not None and idx != "none":
                        x0 = aread(lf.prev, idx)
                        promoted[(c, p)] = (lf.prev, idx)
                        T.leaves[key] = Leaf("hist", x0, None, lf.sort)
                        again = True
                        continue
                    lf.body = v1
                elif (c, p) not in closed:
                    a = v0.p if isinstance(v0, SInt) else v0
                    b = v1.p if isinstance(v1, SInt) else v1
                    if isinstance(b, Cx) and lf.sort == "F":
                        lf.prev, lf.sort = tocx(lf.prev), "C"
                        again = True
                        continue
                    # linear induction variable?
                    if isinstance(a, Poly) and isinstance(b, Poly):
                        dlt = b - a
                        sat = self.saturates(lf.prev, a, b, T)
                        if sat is not None:
                            ity = v1.ty if isinstance(v1, SInt) else None
                            closed[(c, p)] = lambda q, sat=sat, ity=ity: SInt(sat(q), ity) if ity else sat(q)
                            again = True
                            continue
                        if tsym not in fv(dlt) and not self.mentions(dlt, T):
                            ity = v1.ty if isinstance(v1, SInt) else None
                            ini = lf.prev
                            closed[(c, p)] = (lambda q, ini=ini, dlt=dlt, ity=ity: (SInt(ini + dlt * q, ity) if ity else ini + dlt * q))
                            again = True
                            continue
                        sm = self.sum_of(dlt, tsym, n) if not self.mentions(dlt, T) else None
                        if sm is not None:
                            ity = v1.ty if isinstance(v1, SInt) else None
                            ini = lf.prev
                            closed[(c, p)] = (lambda q, ini=ini, sm=sm, ity=ity: (SInt(ini + sm(q), ity) if ity else ini + sm(q)))
                            again = True
                            continue
                    elif isinstance(a, SCALAR) and isinstance(b, SCALAR):
                        dlt = self.fdelta(a, b)
                        if dlt is not None and tsym not in fv(dlt) and not self.mentions(dlt, T):
                            ini = lf.prev
                            closed[(c, p)] = lambda q, ini=ini, dlt=dlt: fadd(ini, fmul(fint(q), dlt))
                            again = True
                            continue
                    other = self.alternates(lf.prev, a, b, T)
                    if other is not None:
                        ity = v1.ty if isinstance(v1, SInt) else None
                        ini = lf.prev

                        def alt(q, ini=ini, other=other, ity=ity):
                            w = self.merge_val(eq(imod(q, 2), 0), ini, other)
                            return SInt(w, ity) if ity else w

                        closed[(c, p)] = alt
                        again = True
                        continue
                    lf.body = b
            if again:
                if while_cond is not None:
                    n = while_cond(T, closed, modified, store0)
                    T.length = n
                continue
            if getattr(while_cond, "once", False):
                while_cond.once = False
                n = while_cond(T, closed, modified, store0)
                T.length = n
                continue
            break
        else:
            raise Unsupported("loop does not stabilise", node)
        # classify arrays
        for (c, p), key in modified.items():
            lf = T.leaves[key]
            if (c, p) in closed or lf.kind != "cells":
                continue
            k = self.find_sites(T, key, lf, n)
            if k != "cells":
                lf.kind = k
        for k, key in modified.items():
            T.leaves[key].closed = k in closed
        self.loops.append(T)
        T.close()
        params = tuple(p if i in T.used_any else P(0) for i, p in enumerate(params))
        # state after the loop
        self.store = dict(store0)
        self.pc = pc0
        for (c, p), key in modified.items():
            lf = T.leaves[key]
            if (c, p) in closed:
                nn = n if self.known(le(0, n)) else imax(0, n)
                v = closed[(c, p)](nn)
            elif lf.kind == "hist":
                v = self.hist_value(T, key, params, n, lf)
            else:
                v = mk(ALoop, T, key, params)
            if (c, p) in promoted:
                v = self.arr_store(*promoted[(c, p)], v)
            self.write_place(Place(c, p), v)
        for pl in grows:
            self.write_place(pl, self.settle(self.read_place(pl)))
        # facts that hold in every iteration are not exported

    def running_sum(self, lf, v0, v1, tsym, n, T):
        """a[t + o] = a[t + o - 1] + (something that the loop does not change), once per iteration"""
        if not isinstance(v1, AStore) or v1.args[0] is not v0 or len(v1.args[1]) != 1:
            return None
        ini = lf.prev
        idx, val = v1.args[1][0], v1.args[2]
        l = idx.lin(tsym) if isinstance(idx, Poly) else None
        if not l or l[0] != 1 or tsym in fv(l[1]) or self.mentions(l[1], T) or self.mentions(ini, T):
            return None
        o = l[1]
        dlt = P(val) - aread(v0, (idx - 1,))
        if self.mentions(dlt, T) or not self.known(le(1, o)):
            return None
        sm = self.sum_of(dlt, tsym, n)
        if sm is None:
            return None
        bs = mk(ISym, fresh("b"))
        b = P(bs)

        def closed(q):
            body = iite(conj(le(o, b), lt(b, o + q)), aread(ini, (o - 1,)) + sm(b - o + 1), aread(ini, (b,)))
            return mk(ALam, (bs,), body, adims(ini))

        return closed

    def hist_value(self, T, key, params, t, lf):
        a = mk(ALoop, T, key, params)
        v = aread(a, (t,))
        ity = getattr(lf, "ity", None)
        return SInt(v, ity) if ity else v

    def one_cell(self, a, T, key):
        """index of the only cell that array term a changes in the state of loop T, if it is the same in all
        iterations; "none" if nothing is written; None otherwise"""
        idx = "none"
        while True:
            if isinstance(a, AState):
                return idx if a.args[0] is T and a.args[1] == key else None
            if isinstance(a, AStore):
                k = a.args[1]
                if idx == "none":
                    if any(T.tsym in fv(i) or self.mentions(i, T) for i in k):
                        return None
                    idx = k
                elif not all(i is j for i, j in zip(idx, k)):
                    return None
                a = a.args[0]
                continue
            if isinstance(a, AIte):
                x, y = self.one_cell(a.args[1], T, key), self.one_cell(a.args[2], T, key)
                if x is None or y is None:
                    return None
                ks = [k for k in (idx, x, y) if k != "none"]
                if any(k is not ks[0] and not all(i is j for i, j in zip(k, ks[0])) for k in ks):
                    return None
                return ks[0] if ks else "none"
            return None

    def only_cell(self, a, base, idx):
        """a differs from base at idx at most"""
        while True:
            if a is base:
                return True
            if isinstance(a, AStore) and all(i is j for i, j in zip(a.args[1], idx)):
                a = a.args[0]
                continue
            if isinstance(a, AIte):
                return self.only_cell(a.args[1], base, idx) and self.only_cell(a.args[2], base, idx)
            return False

    def saturates(self, ini, a, b, T):
        """x -> min(x + d, N), or x -> x + 1 as long as x < N: the closed form, or None"""
        def fixed(x):
            return T.tsym not in fv(x) and not self.mentions(x, T)

        d = b - a
        ats = [x for x in d.atoms() if isinstance(x, IIte)]
        if len(ats) != 1:
            return None
        at = ats[0]
        if P(at) is b:
            for y, N_ in ((P(at.args[1]), P(at.args[2])), (P(at.args[2]), P(at.args[1]))):
                k = y - a
                if fixed(k) and fixed(N_) and imin(y, N_) in (b, imin(N_, y)) and b in (imin(y, N_), imin(N_, y)):
                    if self.known(conj(le(1, k), le(ini, N_))):
                        return lambda q: imin(ini + k * q, N_)
        c, y, z = at.args
        inc = None
        if P(at) is d and P(y).const() == 1 and P(z).const() == 0 or P(at) is b and (P(y) - a).const() == 1 and P(z) is a:
            inc = c
        elif P(at) is d and P(y).const() == 0 and P(z).const() == 1 or P(at) is b and (P(z) - a).const() == 1 and P(y) is a:
            inc = neg(c)
        if isinstance(inc, CLe):
            N_ = a + 1 - inc.args[0]
            if fixed(N_) and self.known(le(ini, N_)):
                return lambda q: imin(ini + q, N_)
        return None

    def alternates(self, ini, a, b, T):
        """x -> b(x) swaps ini with another value: that value"""
        def f(x):
            if isinstance(a, COND):
                return neg(x) if b is neg(a) else None
            if isinstance(a, Poly):
                c = a + b
                return None if bad(c) else c - x
            if isinstance(a, Cx):
                b2 = tocx(b)
                x = tocx(x)
                m = {a.re: x.re, a.im: x.im}
                return cx(prove.replace(b2.re, m), prove.replace(b2.im, m))
            return prove.replace(b, {a: x}) if isinstance(b, SCALAR) else None

        def bad(x):
            if isinstance(x, Cx):
                return bad(x.re) or bad(x.im)
            return T.tsym in fv(x) or self.mentions(x, T)

        if isinstance(a, Poly) and not isinstance(b, Poly) or isinstance(a, Cx) and not (
                isinstance(a.re, FRead) and isinstance(a.im, FRead)) or isinstance(a, SCALAR) and not isinstance(a, FRead):
            return None
        y = f(ini)
        if y is None or bad(y):
            return None
        z = f(y)
        same = z is ini or isinstance(z, Cx) and isinstance(ini, Cx) and z.re is ini.re and z.im is ini.im
        return y if same else None

    sums = ()  # f(increment, counter, length) -> closed form of the partial sums, or None
    owners = ()  # f(conditions, counter): the only iteration that satisfies them

    def sum_of(self, dlt, tsym, n):
        for f in self.sums:
            r = f(dlt, tsym, n)
            if r is not None:
                return r
        return piecewise_sum(dlt, tsym)

    def fdelta(self, a, b):
        if isinstance(b, FAdd):
            xs = list(b.args[0])
            if a in xs:
                xs.remove(a)
                return fadd(*xs)
        return None

    def mentions(self, x, T):
        """does the term read the state of loop T?"""
        seen, st = set(), [x]
        while st:
            y = st.pop()
            if isinstance(y, tuple):
                st.extend(y)
                continue
            if y is T:
                return True
            if not isinstance(y, Node) or y in seen:
                continue
            seen.add(y)
            st.extend(y.args)
        return False

    def leaf_at(self, store, c, p):
        v = store[c]
        for s in p:
            if isinstance(v, Obj):
                v = v.fields[s[1]]
            else:
                v = v.xs[int(s[1])]
        return v

    # write sites --------------------------------------------------------
    def find_sites(self, T, key, lf, n):
        d = adims(lf.prev)
        es = tuple(mk(ISym, fresh("e")) for _ in d)
        lf.esyms = es
        try:
            sites = self.sites(lf.body, tuple(P(e) for e in es), T, key, TRUE)
        except Unsupported:
            return "iter"
        if not sites:
            lf.sites = []
            return "cells"
        # merge sites with the same iteration
        by = {}
        for c, t in sites:
            by.setdefault(t, []).append(c)
        sites = [(disj(*cs), t) for t, cs in by.items()]
        # single assignment: two sites of one cell belong to the same iteration
        if any(T.tsym in fv(t1) or T.tsym in fv(c1) for c1, t1 in sites):
            return "iter"
        lf.sites = sites
        for i, (c1, t1) in enumerate(sites):
            for c2, t2 in sites[:i]:
                both = conj(c1, c2, le(0, t1), lt(t1, n), le(0, t2), lt(t2, n))
                if not self.ctx().add(both).entails(eq(t1, t2)):
                    if len(sites) <= 4:
                        return "multi"
                    lf.sites = None
                    return "iter"
        return "cells"

    def sites(self, a, e, T, key, guard):
        """[(condition on e, iteration)] of cells written by array term a (one iteration)"""
        out = []
        while True:
            if isinstance(a, AState) and a.args[0] is T and a.args[1] == key:
                return out
            if isinstance(a, AStore):
                out.append(self.solve_site(conj(guard, *[eq(i, j) for i, j in zip(a.args[1], e)]), T))
                a = a.args[0]
                continue
            if isinstance(a, AIte):
                out += self.sites(a.args[1], e, T, key, conj(guard, a.args[0]))
                out += self.sites(a.args[2], e, T, key, conj(guard, neg(a.args[0])))
                return out
            if isinstance(a, ALoop):
                T2, k2, args = a.args
                l2 = T2.leaves[k2]
                if l2.kind not in ("cells", "multi"):
                    raise Unsupported("inner loop")
                env = dict(zip(T2.params, args))
                env.update(zip(l2.esyms, e))
                for c, t in l2.sites:
                    c, t = subst(c, env), subst(t, env)
                    ln = subst(T2.length, env)
                    out.append(self.solve_site(conj(guard, c, le(0, t), lt(t, ln)), T))
                a = subst(l2.prev, dict(zip(T2.params, args)))
                continue
            raise Unsupported("whole array assignment in a loop")

    def solve_site(self, c, T):
        """solve the condition for the iteration counter"""
        parts = list(c.args[0]) if isinstance(c, CAnd) else [c]
        s = T.tsym
        best = None
        for q in parts:
            if isinstance(q, CEq):
                l = q.args[0].lin(s)
                if l and l[0] and s not in fv(l[1]):
                    if best is None or abs(l[0]) < abs(best[0]):
                        best = (l[0], l[1], q)
        if best is None:
            r = self.solve_flat(parts, s) or self.solve_blocks(parts, s) or self.solve_row(parts, s, T)
            for f in self.owners:
                r = r or f(parts, s, T)
            r = r or self.solve_shift(parts, s, T) or self.solve_pinned(parts, s, T)
            if r is not None:
                return r
            x = self.expand_minmax(parts)
            if x is not None:
                return self.solve_site(conj(*x), T)
            raise Unsupported("write index does not determine the iteration")
        co, rest, q = best
        # co*t + rest == 0
        num = -rest if co > 0 else rest
        co = abs(co)
        if co == 1:
            t = num
            cs = [x for x in parts if x is not q]
        else:
            t = idiv(num, co)
            cs = [x for x in parts if x is not q] + [eq(imod(num, co), 0)]
        return conj(*[subst(x, {s: t}) for x in cs]), t

    def solve_shift(self, parts, s, T):
        """(t + c) mod d == e with t < d determines t"""
        for q in parts:
            if not isinstance(q, CEq):
                continue
            for at in q.args[0].atoms():
                if not isinstance(at, IMod) or s not in fv(at.args[0]) or s in fv(at.args[1]):
                    continue
                co = dict(q.args[0].terms).get(((at, 1),), 0)
                rest = q.args[0] - P(at) * co
                if co not in (1, -1) or s in fv(rest):
                    continue
                e, d = -rest * co, P(at.args[1])
                l = P(at.args[0]).lin(s)
                if not l or l[0] != 1 or s in fv(l[1]):
                    continue
                if not self.known(conj(le(0, l[1]), le(l[1], d), le(T.length, d))):
                    continue
                t = iite(le(l[1], e), e - l[1], e - l[1] + d)
                cs = [subst(x, {s: t}) for x in parts if x is not q]
                return conj(le(0, e), lt(e, d), *cs), t
        return None

    def solve_pinned(self, parts, s, T):
        """inequalities that leave one iteration"""
        cand = [P(0), T.length - 1]
        for q in parts:
            l = q.args[0].lin(s) if isinstance(q, CLe) else None
            if l and l[0] in (1, -1) and s not in fv(l[1]):
                cand.append(-l[1] * l[0])
        if len(cand) > 6 or len(cand) == 2 and not any(isinstance(q, (COr, CNot)) and s in fv(q) for q in parts):
            return None
        ctx = self.ctx().add(le(0, P(s)), lt(P(s), T.length), *parts)
        for t in dict.fromkeys(cand):
            if s not in fv(t) and not self.mentions(t, T) and ctx.entails(eq(P(s), t)):
                return conj(*[subst(x, {s: t}) for x in parts]), t
        return None

    def solve_flat(self, parts, s):
        """t / d == a and t mod d == b determine t = a*d + b (0 <= b < d)"""
        dv, md = {}, {}
        for q in parts:
            if not isinstance(q, CEq):
                continue
            for kind, tab in ((IDiv, dv), (IMod, md)):
                for at in q.args[0].atoms():
                    if isinstance(at, kind) and at.args[0] is P(s) and s not in fv(at.args[1]):
                        co = dict(q.args[0].terms).get(((at, 1),), 0)
                        rest = q.args[0] - P(at) * co
                        if co in (1, -1) and s not in fv(rest):
                            tab[at.args[1]] = (q, -rest * co)
        for d in dv:
            if d in md:
                (q1, a), (q2, b) = dv[d], md[d]
                t = a * d + b
                cs = [subst(x, {s: t}) for x in parts if x is not q1 and x is not q2]
                return conj(le(0, b), lt(b, d), le(0, a), *cs), t
        return None

    def solve_row(self, parts, s, T):
        """t*k + i == e with 0 <= i < k determines t = e / k (and i = e mod k)"""
        for q in parts:
            l = lin_poly(q.args[0], s) if isinstance(q, CEq) else None
            if l is None or l[0].const() in (0, 1, -1):
                continue
            for k, r in (l, (-l[0], -l[1])):
                i = P(0)
                for m, c in r.terms:
                    if any(set(fv(P(a))) & set(self.bound) for a, _ in m):
                        i = i + mk(Poly, ((m, c),))
                if not self.known(conj(le(0, i), lt(i, k))):
                    continue
                e = i - r
                t = idiv(e, k)
                cs = [subst(x, {s: t}) for x in parts if x is not q]
                return conj(le(0, e), eq(i, imod(e, k)), *cs), t
        return None

    def solve_blocks(self, parts, s):
        """t*k <= a < t*k + w with w <= k determine t = a / k"""
        lo, hi = [], []
        for q in parts:
            if isinstance(q, CLe):
                l = lin_poly(q.args[0], s)
                if l is not None and l[0].const() != 0:
                    lo.append(l)
                    hi.append((-l[0], l[1]))
        for k, r1 in lo:
            for k2, r2 in hi:
                if k is not k2 or k.const() in (1, -1):
                    continue
                w = 1 - r1 - r2
                if not self.known(conj(le(1, k), le(w, k))):
                    continue
                a = -r1
                t = idiv(a, k)
                return conj(le(0, a), *[subst(x, {s: t}) for x in parts]), t
        return None

    def e_while(self, e):
        if e.c.k == "letcond":
            import iterstate
            if iterstate.while_let(self, e):
                return UNIT
            raise Unsupported("while let", e)
        N_ = mk(ISym, fresh("T"))
        # the condition as a function of the state at the start of an iteration
        state = {}

        def evalcond():
            before = dict(self.store)
            r = self.cond(self.expr(e.c), e)
            if any(self.store[k] is not x for k, x in before.items()):
                raise Unsupported("loop condition with an effect", e)
            return r

        def solve(T, closed, modified, store0):
            # condition at iteration q with closed forms
            q = P(mk(ISym, fresh("q")))
            saved, spc = self.store, self.pc
            self.store = dict(store0)
            self.quiet += 1
            try:
                for (c, p), key in modified.items():
                    if (c, p) in closed:
                        self.write_place(Place(c, p), closed[(c, p)](q))
                cc = evalcond()
            finally:
                self.quiet -= 1
                self.store, self.pc = saved, spc
            qs = q.terms[0][0][0][0]
            self.reach = state["reach"] = []
            return self.solve_count(cc, qs, e)

        c0 = evalcond()
        if self.known(c0) is False:
            return UNIT

        def body(_):
            c = evalcond()
            self.pc = self.pc + (c,)
            self.block(e.b)

        self.for_each(It(P(N_), lambda t: t), body, e, while_cond=solve)
        for c in state.get("reach", ()):
            self.ob("terminates", c, e, "the loop variable reaches its bound")
        return UNIT

    reach = []

    def solve_count(self, c, qs, e):
        """number of iterations of `while c` where c is linear in qs and stays false once false"""
        if isinstance(c, CLe):
            l = c.args[0].lin(qs)
            if l and l[0] > 0 and qs not in fv(l[1]):
                # l0*q + r <= 0   <=>  q <= floor(-r/l0)
                return imax(0, idiv(-l[1], l[0]) + 1) if l[0] != 1 else self.clip(1 - l[1])
        if isinstance(c, CNot) and isinstance(c.args[0], CEq):
            # l0*q + r != 0 with l0 = +-1: stops at the root, which has to be reached
            l = c.args[0].args[0].lin(qs)
            if l and l[0] in (1, -1) and qs not in fv(l[1]):
                r = l[1] * -l[0]
                self.reach.append(le(0, r))
                return r
        if isinstance(c, CAnd):
            # each part stays false once false
            inv = [x for x in c.args[0] if qs not in fv(x)]
            ks = [self.solve_count(x, qs, e) for x in c.args[0] if qs in fv(x)]
            if ks:
                k = ks[0]
                for x in ks[1:]:
                    k = imin(k, x)
                return iite(conj(*inv), k, 0) if inv else k
        x = self.expand_minmax([c])
        if x is not None:
            return self.solve_count(conj(*x), qs, e)
        raise Unsupported("while condition", e)

    def expand_minmax(self, parts):
        """inequalities over minima and maxima as inequalities over their operands"""
        out, changed = [], False
        for i, q in enumerate(parts):
            ats = [a for a in q.args[0].atoms() if isinstance(a, IIte)] if isinstance(q, CLe) else []
            if not ats:
                out.append(q)
                continue
            at = ats[0]
            k = dict(q.args[0].terms).get(((at, 1),), 0)
            rest = q.args[0] - P(at) * k
            if not k or at in rest.atoms():
                out.append(q)
                continue
            c, a, b = at.args
            a, b = P(a), P(b)
            qa, qb = le(rest + a * k, 0), le(rest + b * k, 0)
            small = a if c is le(a, b) else (b if c is le(b, a) else None)
            if small is None:
                out.append(q)
                continue
            both = (k > 0) == (imax(a, b) is P(at))
            changed = True
            if both:
                out += [qa, qb]
            else:
                ctx = self.ctx().add(*[p for j, p in enumerate(parts) if j != i])
                for u, w in ((qa, qb), (qb, qa)):
                    if u is FALSE or ctx.entails(neg(u)):
                        out.append(w)
                        break
                else:
                    out.append(disj(qa, qb))
        if not changed:
            return None
        r = conj(*out)
        return list(r.args[0]) if isinstance(r, CAnd) else [r]

    def e_loop(self, e):
        """loop { A; if c { S; break } B }  =  A; while !c { B; A } S"""
        if e.b.tail is not None:
            stmts = list(e.b.stmts) + [N("sexpr", e.line, e=e.b.tail, semi=True)]
        else:
            stmts = list(e.b.stmts)
        import iterstate
        at = []
        for i, s in enumerate(stmts):
            names = iterstate.names_in(s)
            if "break" in names or "continue" in names:
                at.append(i)
        if len(at) != 1 or stmts[at[0]].k != "sexpr" or stmts[at[0]].e.k != "if" or stmts[at[0]].e.c.k == "letcond":
            raise Unsupported("loop", e)
        i, f = at[0], stmts[at[0]].e

        def split(b):
            """(statements before the break) of a block that ends in break, or None"""
            xs = list(b.stmts) + ([N("sexpr", b.line, e=b.tail, semi=True)] if b.tail is not None else [])
            if not xs or xs[-1].k != "sexpr" or xs[-1].e.k != "break":
                return None
            br = xs[-1].e
            if br.e is not None or br.lab not in (None, e.a.get("label")):
                return None
            return xs[:-1] if not {"break", "continue"} & iterstate.names_in(xs[:-1]) else None

        els = f.els
        S, go = split(f.b), None
        if S is not None:
            go = N("unary", f.line, op="!", e=N("paren", f.line, e=f.c))
            rest = [els] if els is not None else []
        else:
            if els is None or els.k != "block":
                raise Unsupported("loop", e)
            S = split(els)
            if S is None:
                raise Unsupported("loop", e)
            go = f.c
            rest = [f.b]
        if any({"break", "continue"} & iterstate.names_in(x) for x in rest):
            raise Unsupported("loop", e)
        A = stmts[:i]
        B = [N("sexpr", f.line, e=x, semi=True) for x in rest] + stmts[i + 1:]
        pre = A
        if any(s.k == "let" for s in A):
            if all(s.k == "let" for s in A):
                # definitions in front of the test are part of the test and of the body
                go, B, A, pre = N("block", e.line, stmts=A, tail=go), A + B, [], []
            else:
                own = set()
                for s in A:
                    if s.k == "let":
                        own |= iterstate.idents(s.pat)
                if B or own & iterstate.idents(go):
                    raise Unsupported("loop", e)
                pre = A = [N("sexpr", e.line, e=N("block", e.line, stmts=A, tail=None), semi=True)]
        self.env.append({})
        try:
            for s in pre:
                self.stmt(s)
            b = N(e.b.k, e.line, **{**e.b.a, "stmts": B + A, "tail": None})
            self.e_while(N("while", e.line, c=go, b=b, label=e.a.get("label")))
            for s in S:
                self.stmt(s)
        finally:
            self.env.pop()
        return UNIT

    # ------------------------------------------------------------ macros
    def macro_args(self, toks):
        p = Parser(toks, "macro")
        out = []
        while not p.eof():
            out.append(p.expr())
            if not p.take(","):
                break
        return out

    def debug_only(self, c, n):
        """debug_assert panics in a debug build only; which build runs is unknown"""
        return disj(c, neg(eq(P(mk(ISym, "debug_assertions")), 1))) if n.startswith("debug") else c

    def e_macro(self, e):
        n = e.path[-1]
        if n in ("assert", "debug_assert"):
            p = Parser(e.toks, "macro")
            c = self.cond(self.expr(p.expr()), e)
            self.assert_(self.debug_only(c, n), e, n)
            return UNIT
        if n in ("assert_eq", "assert_ne", "debug_assert_eq", "debug_assert_ne"):
            p = Parser(e.toks, "macro")
            a = p.expr()
            p.eat(",")
            b = p.expr()
            c = self.cond(self.binop("==", self.deref(self.expr(a)), self.deref(self.expr(b)), e))
            self.assert_(self.debug_only(c if n.endswith("eq") else neg(c), n), e, n)
            return UNIT
        if n in ("panic", "todo", "unimplemented", "unreachable"):
            raise Panic(n, e.line)
        if n == "vec":
            p = Parser(e.toks, "macro")
            if p.eof():
                return mk(AConst, ZERO, (P(0),))
            x = p.expr()
            if p.take(";"):
                k = p.expr()
                v = self.expr(x)
                return self.make_array(v, (self.int_(self.expr(k), e),), e)
            xs = [x]
            while p.take(","):
                if p.eof():
                    break
                xs.append(p.expr())
            return Seq([self.expr(y) for y in xs], "vec")
        if n in ("println", "print", "eprintln", "write", "writeln", "eprint", "dbg"):
            return UNIT
        if n == "format":
            return Str("")
        if n == "s":
            p = Parser(e.toks, "macro")
            parts = []
            while not p.eof():
                x = self.deref(self.expr(p.expr()))
                if p.take(";"):
                    k = self.int_(self.expr(p.expr())).const()
                    if not k or not isinstance(x, Rng):
                        raise Unsupported("slice step", e)
                    x = Opaque("step", x, k)
                parts.append(x)
                if not p.take(","):
                    break
            return Opaque("s!", parts)
        if n == "array":
            p = Parser(e.toks, "macro")
            xs = []
            while not p.eof():
                xs.append(self.expr(p.expr()))
                if not p.take(","):
                    break
            import more_rs
            return more_rs.rows(self, Seq(xs, "vec"), e)
        if n in ("azip", "par_azip"):
            import more_rs
            return more_rs.azip(self, e, n)
        m = self.crate.macros.get(n)
        if m is not None:
            toks = m.expand(e.toks, "macro")
            p = Parser([*lex("{"), *toks, *lex("}")], "macro")
            return self.block(p.block())
        if n in ("matches",):
            p = Parser(e.toks, "macro")
            x = p.expr()
            p.eat(",")
            pat = p.pattern()
            return self.test_pat(pat, self.expr_scrut(x))
        raise Unsupported(f"macro {n}!", e)

    def assert_(self, c, e, n):
        if self.known(c):
            return
        if n.startswith("debug_") is False and not self.quiet:
            self.asserts.append((c, self.pc, e.line, self.where(), "assertion"))
        if c is FALSE:
            raise Panic("assertion", e.line)
        if self.known(neg(c)):
            raise Panic("assertion", e.line)
        self.ob("assert", c, e, "assertion holds")
        self.pc = self.pc + (c,)

    # ------------------------------------------------------------ calls
    def e_call(self, e):
        f = e.f
        while f.k == "paren":
            f = f.e
        if f.k == "path":
            if len(f.segs) == 1 and f.qself is None:
                c = self.lookup(f.segs[0][0])
                if c is not None:
                    v = self.deref(self.store[c])
                    args = [self.expr(a) for a in e.args]
                    return self.call_clo(v, args)
            args = [self.expr(a) for a in e.args]
            return self.call_path(f, args, e)
        v = self.deref(self.expr(f))
        return self.call_clo(v, [self.expr(a) for a in e.args])

    def call_path(self, f, args, e):
        from builtins_rs import call_path
        return call_path(self, f, args, e)

    def recv(self, x):
        """receiver of a method or index: reference to the place if there is one"""
        y = x
        while y.k == "paren":
            y = y.e
        if y.k in ("path", "field", "index"):
            if y.k == "path" and (len(y.segs) > 1 or self.lookup(y.segs[0][0]) is None):
                return self.expr(y)
            pl = self.place(y)
            if pl is None:
                return self.expr(y)
            v = self.read_place(pl)
            return v if isinstance(v, (Ref, View)) else Ref(pl)
        if y.k == "deref":
            pl = self.place(y)
            if pl is not None:
                v = self.read_place(pl)
                return v if isinstance(v, (Ref, View)) else Ref(pl)
        return self.expr(y)

    def e_mcall(self, e):
        from builtins_rs import call_method
        if e.name in ("unwrap", "expect"):
            y = e.e
            while y.k == "paren":
                y = y.e
            if y.k == "mcall" and y.name in ("next", "next_back", "nth"):
                import iterstate
                r = iterstate.unwrap_step(self, e)
                if r is not None:
                    return r[0]
        r = self.recv(e.e)
        return call_method(self, r, e)

    # type environment of a method call on an object
    def method_tenv(self, fn, o, targs=()):
        tenv = {}
        if fn.impl is not None:
            gens = [g[0] for g in fn.impl.generics]
            # bind the type parameters of the implementation from runtime types of fields
            st = self.crate.structs.get(tyname(fn.impl.ty))
            if st is not None and isinstance(o, Obj):
                sg = [g[0] for g in st.generics]
                ia = tyargs(fn.impl.ty)
                for fname, fty in st.fields:
                    fn_ = tyname(fty)
                    if fn_ in sg and fname in o.fields:
                        k = sg.index(fn_)
                        if k < len(ia):
                            an = tyname(ia[k])
                            rt = self.rt_type(o.fields[fname])
                            if an in gens and rt is not None:
                                tenv[an] = rt
        for (g, kind, _), a in zip([g for g in fn.node.generics], targs):
            tenv[g] = a
        return tenv

    def rt_type(self, v):
        v = self.deref(v)
        if isinstance(v, (Obj, EnumV)):
            return Ty(v.ty)
        return None
