"""Terms of the verification conditions.

Integers (usize, i128, ..) are polynomials over integer atoms with exact
coefficients; scalars of the generic element types are expressions over an
arbitrary field of characteristic zero; complex numbers are pairs of those;
arrays are immutable nodes that are read lazily (see prove.py for reading).
All nodes are interned, so structural equality is identity.
"""
from fractions import Fraction

_tab = {}
_uid = [0]


def mk(cls, *args):
    key = (cls, args)
    o = _tab.get(key)
    if o is None:
        o = object.__new__(cls)
        _uid[0] += 1
        o.uid = _uid[0]
        o.args = args
        _tab[key] = o
    return o


class Node:
    __slots__ = ("uid", "args", "_fv")

    def __hash__(self):
        return self.uid

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.uid < o.uid

    def __repr__(self):
        return show(self)


# ---------------------------------------------------------------- integers
class ISym(Node):  # name
    __slots__ = ()


class IDiv(Node):  # poly, poly (floor division, operands non-negative by obligation)
    __slots__ = ()


class IMod(Node):
    __slots__ = ()


class IRead(Node):  # array, idx tuple
    __slots__ = ()


class IIte(Node):  # cond, poly, poly
    __slots__ = ()


class IApp(Node):  # name, args
    __slots__ = ()


class Poly(Node):
    """args = (tuple of (monomial, coeff)), monomial = tuple of (atom, power)"""

    __slots__ = ()

    @property
    def terms(self):
        return self.args[0]

    def const(self):
        t = self.args[0]
        if not t:
            return 0
        if len(t) == 1 and t[0][0] == ():
            return t[0][1]
        return None

    def __add__(a, b):
        b = P(b)
        d = dict(a.args[0])
        for m, c in b.args[0]:
            d[m] = d.get(m, 0) + c
        return _poly(d)

    def __neg__(a):
        return _poly({m: -c for m, c in a.args[0]})

    def __sub__(a, b):
        return a + (-P(b))

    def __rsub__(a, b):
        return P(b) + (-a)

    __radd__ = __add__

    def __mul__(a, b):
        b = P(b)
        d = {}
        for m, c in a.args[0]:
            for m2, c2 in b.args[0]:
                k = _mmul(m, m2)
                d[k] = d.get(k, 0) + c * c2
        return _poly(d)

    __rmul__ = __mul__

    def atoms(self):
        for m, _ in self.args[0]:
            for a, _p in m:
                yield a

    def lin(self, sym):
        """(coeff, rest) if linear in atom `sym` with constant coefficient, else None"""
        co, rest = 0, {}
        for m, c in self.args[0]:
            if any(a is sym for a, _ in m):
                if m == ((sym, 1),):
                    co += c
                else:
                    return None
            else:
                rest[m] = c
        return co, _poly(rest)


def _mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for a, p in n:
        d[a] = d.get(a, 0) + p
    return tuple(sorted(d.items(), key=lambda x: x[0].uid))


def _poly(d):
    return mk(Poly, tuple(sorted(((m, c) for m, c in d.items() if c != 0), key=lambda x: tuple((a.uid, p) for a, p in x[0]))))


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, int) and not isinstance(x, bool):
        return _poly({(): x})
    if isinstance(x, Fraction):
        return _poly({(): x if x.denominator != 1 else x.numerator})
    if isinstance(x, (ISym, IDiv, IMod, IRead, IIte, IApp)):
        return _poly({((x, 1),): 1})
    raise TypeError(f"not an integer term: {x!r}")


def isym(name):
    return P(mk(ISym, name))


_fresh = [0]


def fresh(name):
    _fresh[0] += 1
    return f"{name}#{_fresh[0]}"


def idiv(a, b):
    a, b = P(a), P(b)
    ca, cb = a.const(), b.const()
    if cb == 1:
        return a
    if ca is not None and cb:
        return P(ca // cb)
    if cb:
        # pull out the multiples of cb
        q, r = {}, {}
        for m, c in a.terms:
            q[m], r[m] = c // cb, c % cb
        if any(v for v in q.values()):
            qq, rr = _poly(q), _poly(r)
            return qq + idiv(rr, b) if rr is not a else P(mk(IDiv, a, b))
    return P(mk(IDiv, a, b))


def imod(a, b):
    a, b = P(a), P(b)
    ca, cb = a.const(), b.const()
    if cb == 1:
        return P(0)
    if ca is not None and cb:
        return P(ca % cb)
    if cb:
        r = _poly({m: c % cb for m, c in a.terms})
        if r.const() is not None:
            return P(r.const() % cb)
        return P(mk(IMod, r, b))
    return P(mk(IMod, a, b))


# --------------------------------------------------------------- conditions
class CConst(Node):
    __slots__ = ()


class CLe(Node):  # poly <= 0
    __slots__ = ()


class CEq(Node):  # poly == 0
    __slots__ = ()


class CAnd(Node):
    __slots__ = ()


class COr(Node):
    __slots__ = ()


class CNot(Node):
    __slots__ = ()


class CSym(Node):  # opaque proposition: name, args
    __slots__ = ()


TRUE = mk(CConst, True)
FALSE = mk(CConst, False)


def B(x):
    return x if isinstance(x, Node) else (TRUE if x else FALSE)


def le(a, b):
    d = P(a) - P(b)
    c = d.const()
    if c is not None:
        return B(c <= 0)
    return mk(CLe, d)


def lt(a, b):
    return le(P(a) + 1, b)


def eq(a, b):
    d = P(a) - P(b)
    c = d.const()
    if c is not None:
        return B(c == 0)
    if d.terms[0][1] < 0:
        d = -d
    return mk(CEq, d)


def conj(*cs):
    out = []
    for c in cs:
        if c is FALSE:
            return FALSE
        if c is TRUE:
            continue
        for x in c.args[0] if isinstance(c, CAnd) else (c,):
            if x not in out:
                out.append(x)
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else mk(CAnd, tuple(out))


def disj(*cs):
    out = []
    for c in cs:
        if c is TRUE:
            return TRUE
        if c is FALSE:
            continue
        for x in c.args[0] if isinstance(c, COr) else (c,):
            if x not in out:
                out.append(x)
    if not out:
        return FALSE
    if 2 <= len(out) <= 6:
        # (c & A) | (!c & A) is A
        for i in range(len(out)):
            for j in range(len(out)):
                if i != j:
                    a = complementary(out[i], out[j])
                    if a is not None:
                        return disj(*[x for k, x in enumerate(out) if k not in (i, j)], conj(*a))
    return out[0] if len(out) == 1 else mk(COr, tuple(out))


def complementary(x, y):
    """the A of x = c & A, y = !c & A"""
    xs = x.args[0] if isinstance(x, CAnd) else (x,)
    ys = y.args[0] if isinstance(y, CAnd) else (y,)
    d = [q for q in ys if q not in xs]
    if len(d) != 1 or len(ys) > len(xs):
        return None
    n = neg(d[0])
    ns = n.args[0] if isinstance(n, CAnd) else (n,)
    if len(xs) != len(ys) - 1 + len(ns) or any(q not in xs for q in ns) or any(q in ys for q in ns):
        return None
    return [q for q in ys if q is not d[0]]


def neg(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if isinstance(c, CNot):
        return c.args[0]
    if isinstance(c, CLe):
        return mk(CLe, 1 - c.args[0])
    return mk(CNot, c)


def imp(a, b):
    return disj(neg(a), b)


def iite(c, a, b):
    a, b = P(a), P(b)
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    return P(mk(IIte, c, a, b))


def imin(a, b):
    return iite(le(a, b), a, b)


def imax(a, b):
    return iite(le(a, b), b, a)


# ------------------------------------------------------------------ scalars
class FConst(Node):
    __slots__ = ()


class FInt(Node):  # integer polynomial as a scalar
    __slots__ = ()


class FSym(Node):
    __slots__ = ()


class FAdd(Node):  # tuple
    __slots__ = ()


class FMul(Node):
    __slots__ = ()


class FDiv(Node):
    __slots__ = ()


class FIte(Node):
    __slots__ = ()


class FRead(Node):  # array, idx tuple, component ('' | 're' | 'im')
    __slots__ = ()


class FApp(Node):  # name, args (scalars, polys, arrays)
    __slots__ = ()


SCALAR = (FConst, FInt, FSym, FAdd, FMul, FDiv, FIte, FRead, FApp)


def fc(x):
    return mk(FConst, Fraction(x))


def fint(p):
    c = P(p).const()
    return fc(c) if c is not None else mk(FInt, P(p))


ZERO, ONE = fc(0), fc(1)


def fadd(*xs):
    k, out = Fraction(0), []
    for x in xs:
        for y in x.args[0] if isinstance(x, FAdd) else (x,):
            if isinstance(y, FConst):
                k += y.args[0]
            else:
                out.append(y)
    if k:
        out.append(fc(k))
    if not out:
        return ZERO
    return out[0] if len(out) == 1 else mk(FAdd, tuple(out))


def fmul(*xs):
    k, out = Fraction(1), []
    for x in xs:
        for y in x.args[0] if isinstance(x, FMul) else (x,):
            if isinstance(y, FConst):
                k *= y.args[0]
            else:
                out.append(y)
    if k == 0:
        return ZERO
    if k != 1 or not out:
        out.insert(0, fc(k))
    return out[0] if len(out) == 1 else mk(FMul, tuple(out))


def fneg(x):
    return fmul(fc(-1), x)


def fsub(a, b):
    return fadd(a, fneg(b))


def fdiv(a, b):
    if isinstance(b, FConst) and b.args[0] != 0:
        return fmul(a, fc(1 / b.args[0]))
    return mk(FDiv, a, b)


def fite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    return mk(FIte, c, a, b)


def fsym(n):
    return mk(FSym, n)


def fapp(n, *a):
    return mk(FApp, n, tuple(a))


class Cx(Node):  # re, im
    __slots__ = ()

    @property
    def re(self):
        return self.args[0]

    @property
    def im(self):
        return self.args[1]


def cx(a, b):
    return mk(Cx, a, b)


def vite(c, a, b):
    """if-then-else on any scalar-like value"""
    if a is b or c is TRUE:
        return a
    if c is FALSE:
        return b
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = tocx(a), tocx(b)
        return cx(fite(c, a.re, b.re), fite(c, a.im, b.im))
    if isinstance(a, Poly) and isinstance(b, Poly):
        return iite(c, a, b)
    if isinstance(a, SCALAR) and isinstance(b, SCALAR):
        return fite(c, a, b)
    if isinstance(a, COND) and isinstance(b, COND):
        return disj(conj(c, a), conj(neg(c), b))
    raise TypeError("ite of different sorts")


COND = (CConst, CLe, CEq, CAnd, COr, CNot, CSym)


def tocx(a):
    return a if isinstance(a, Cx) else cx(a, ZERO)


# ------------------------------------------------------------------- arrays
class ABase(Node):  # name, sort, dims      opaque array
    __slots__ = ()


class AConst(Node):  # value, dims
    __slots__ = ()


class AStore(Node):  # prev, idx, value
    __slots__ = ()


class AIte(Node):  # cond, a, b
    __slots__ = ()


class ALam(Node):  # bound syms (tuple of ISym), body value, dims
    __slots__ = ()


class ALoop(Node):  # template, leaf key, args (polys): contents after the loop
    __slots__ = ()


class AState(Node):  # template, leaf key, args, t: contents before iteration t
    __slots__ = ()


class AApp(Node):  # name, args, dims, sort: result of an external operation
    __slots__ = ()


ARRAY = (ABase, AConst, AStore, AIte, ALam, ALoop, AState, AApp)


class Template:
    """A summarised loop.  tsym: iteration counter; length; params: the enclosing
    bound symbols; leaves: key -> Leaf."""

    def __init__(self, name, tsym, params):
        _uid[0] += 1
        self.uid = _uid[0]
        self.name, self.tsym, self.params = name, tsym, params
        self.length = None
        self.leaves = {}
        self.line = None

    def uses(self, excl=frozenset()):
        """positions of the parameters the states (and: the length, the sites) depend on,
        other than through the states of the loops in excl"""
        ex = excl | {self}
        body, rest = set(), fvx(self.length, ex)
        for lf in self.leaves.values():
            if lf.closed:
                continue
            body |= fvx(lf.body, ex) | fvx(lf.prev, ex)
            for c, t in lf.sites or ():
                rest |= fvx(c, ex) | fvx(t, ex)
        ub = {i for i, p in enumerate(self.params) if p in body}
        return ub, {i for i, p in enumerate(self.params) if p in body or p in rest}

    def close(self):
        self.used_body, self.used_any = self.uses()

    used_body = used_any = None

    def canon(self, args):
        """arguments without those the states of the loop do not depend on"""
        if self.used_body is None:
            return args
        return tuple(a if i in self.used_body else P(0) for i, a in enumerate(args))

    def __repr__(self):
        return f"L{self.uid}"

    def __hash__(self):
        return self.uid

    def __eq__(self, o):
        return self is o


class Leaf:
    """One modified variable of a loop.

    kind 'cells'  : array whose cells are written in at most one iteration; `sites` maps a
                    symbolic cell (esyms) to (condition, iteration)
    kind 'hist'   : scalar whose value before iteration t is History[t]
    kind 'iter'   : array rewritten by every iteration (opaque sequence of arrays)
    """

    def __init__(self, kind, prev, body, sort):
        self.kind, self.prev, self.body, self.sort = kind, prev, body, sort
        self.sites = None
        self.esyms = None
        self.closed = False  # the variable has a closed form: no state of the loop is read


def adims(a):
    if isinstance(a, (ABase, AApp, AConst, ALam)):
        return {ABase: lambda: a.args[2], AApp: lambda: a.args[2], AConst: lambda: a.args[1], ALam: lambda: a.args[2]}[type(a)]()
    if isinstance(a, AStore):
        return adims(a.args[0])
    if isinstance(a, AIte):
        return adims(a.args[1])
    if isinstance(a, (ALoop, AState)):
        T, key, args = a.args[0], a.args[1], a.args[2]
        lf = T.leaves[key]
        if lf.kind == "hist":
            return (T.length + 1,)
        return tuple(subst(d, dict(zip(T.params, args))) for d in adims(lf.prev))
    raise TypeError(type(a))


def asort(a):
    if isinstance(a, ABase):
        return a.args[1]
    if isinstance(a, AApp):
        return a.args[3]
    if isinstance(a, AConst):
        return vsort(a.args[0])
    if isinstance(a, AStore):
        return asort(a.args[0])
    if isinstance(a, AIte):
        return asort(a.args[1])
    if isinstance(a, ALam):
        return vsort(a.args[1])
    return a.args[0].leaves[a.args[1]].sort


def vsort(v):
    if isinstance(v, Cx):
        return "C"
    if isinstance(v, Poly):
        return "I"
    if isinstance(v, COND):
        return "B"
    return "F"


def astore(prev, idx, v):
    if asort(prev) == "C":
        v = tocx(v)
    return mk(AStore, prev, tuple(P(i) for i in idx), v)


def aite(c, a, b):
    if a is b or c is TRUE:
        return a
    if c is FALSE:
        return b
    return mk(AIte, c, a, b)


def aread(a, idx):
    """symbolic read; only trivially decidable cases are simplified"""
    idx = tuple(P(i) for i in idx)
    while True:
        if isinstance(a, AConst):
            return a.args[0]
        if isinstance(a, ALam):
            return subst(a.args[1], dict(zip(a.args[0], idx)))
        if isinstance(a, AStore):
            same = all(i is j for i, j in zip(idx, a.args[1]))
            if same:
                return a.args[2]
            if any((i - j).const() not in (None, 0) for i, j in zip(idx, a.args[1])):
                a = a.args[0]
                continue
        break
    s = asort(a)
    if s == "C":
        return cx(mk(FRead, a, idx, "re"), mk(FRead, a, idx, "im"))
    if s == "I":
        return P(mk(IRead, a, idx))
    if s == "B":
        return mk(CSym, "read", (a, idx))
    return mk(FRead, a, idx, "")


# ------------------------------------------------------------- substitution
def subst(x, env, memo=None):
    """replace integer symbols (ISym -> Poly)"""
    if not env:
        return x
    if memo is None:
        memo = {}
    return _subst(x, env, memo)


def fv(x):
    """free integer symbols"""
    try:
        return x._fv
    except AttributeError:
        pass
    s = set()
    if isinstance(x, ISym):
        s.add(x)
    elif isinstance(x, Poly):
        for m, _ in x.args[0]:
            for a, _p in m:
                s |= fv(a)
    elif isinstance(x, ALam):
        s |= fv(x.args[1])
        for d in x.args[2]:
            s |= fv(d)
        s -= set(x.args[0])
    else:
        for a in x.args:
            s |= _fva(a)
    r = frozenset(s)
    x._fv = r
    return r


def fvx(x, excl):
    """free symbols of x, not looking at the arguments of the states of the loops in excl"""
    out, seen, st = set(), set(), [x]
    while st:
        y = st.pop()
        if isinstance(y, tuple):
            st.extend(y)
            continue
        if not isinstance(y, Node) or y in seen:
            continue
        seen.add(y)
        if isinstance(y, ISym):
            out.add(y)
        elif isinstance(y, (ALoop, AState)):
            T = y.args[0]
            st.extend(y.args[3:])
            if T not in excl:
                u = T.uses(excl)[1]
                st.extend(a for i, a in enumerate(y.args[2]) if i in u)
        elif isinstance(y, ALam):
            out |= fvx(y.args[1], excl) - set(y.args[0])
            st.extend(y.args[2])
        else:
            st.extend(y.args)
    return out


def _fva(a):
    if isinstance(a, Node):
        return fv(a)
    if isinstance(a, tuple):
        s = set()
        for b in a:
            s |= _fva(b)
        return s
    return frozenset()


def _subst(x, env, memo):
    if isinstance(x, tuple):
        return tuple(_subst(y, env, memo) for y in x)
    if not isinstance(x, Node):
        return x
    r = memo.get(x)
    if r is not None:
        return r
    if not any(s in env for s in fv(x)):
        memo[x] = x
        return x
    if isinstance(x, Poly):
        r = P(0)
        for m, c in x.args[0]:
            t = P(c)
            for a, p in m:
                b = _subst(a, env, memo)
                b = P(b)
                for _ in range(p):
                    t = t * b
            r = r + t
    elif isinstance(x, ISym):
        r = P(env.get(x, x))
    elif isinstance(x, IDiv):
        r = idiv(_subst(x.args[0], env, memo), _subst(x.args[1], env, memo))
    elif isinstance(x, IMod):
        r = imod(_subst(x.args[0], env, memo), _subst(x.args[1], env, memo))
    elif isinstance(x, IRead):
        r = aread(_subst(x.args[0], env, memo), _subst(x.args[1], env, memo))
    elif isinstance(x, FRead):
        v = aread(_subst(x.args[0], env, memo), _subst(x.args[1], env, memo))
        r = v if x.args[2] == "" else (v.re if x.args[2] == "re" else v.im)
    elif isinstance(x, IIte):
        r = iite(*[_subst(a, env, memo) for a in x.args])
    elif isinstance(x, CLe):
        r = le(_subst(x.args[0], env, memo), 0)
    elif isinstance(x, CEq):
        r = eq(_subst(x.args[0], env, memo), 0)
    elif isinstance(x, CAnd):
        r = conj(*[_subst(a, env, memo) for a in x.args[0]])
    elif isinstance(x, COr):
        r = disj(*[_subst(a, env, memo) for a in x.args[0]])
    elif isinstance(x, CNot):
        r = neg(_subst(x.args[0], env, memo))
    elif isinstance(x, FInt):
        r = fint(_subst(x.args[0], env, memo))
    elif isinstance(x, FAdd):
        r = fadd(*[_subst(a, env, memo) for a in x.args[0]])
    elif isinstance(x, FMul):
        r = fmul(*[_subst(a, env, memo) for a in x.args[0]])
    elif isinstance(x, FDiv):
        r = fdiv(*[_subst(a, env, memo) for a in x.args])
    elif isinstance(x, FIte):
        r = fite(*[_subst(a, env, memo) for a in x.args])
    elif isinstance(x, ALam):
        env2 = {k: v for k, v in env.items() if k not in x.args[0]}
        # bound symbols are globally fresh, so capture cannot happen
        r = mk(ALam, x.args[0], subst(x.args[1], env2), subst(x.args[2], env2) if False else tuple(subst(d, env2) for d in x.args[2]))
    elif isinstance(x, AStore):
        r = mk(AStore, _subst(x.args[0], env, memo), _subst(x.args[1], env, memo), _subst(x.args[2], env, memo))
    elif isinstance(x, AIte):
        r = aite(*[_subst(a, env, memo) for a in x.args])
    else:
        r = mk(type(x), *[_subst(a, env, memo) for a in x.args])
    memo[x] = r
    return r


# ------------------------------------------------------------------ printing
def show(x, d=0):
    if d > 12:
        return "..."
    s = lambda y: show(y, d + 1)
    if isinstance(x, tuple):
        return "(" + ",".join(s(y) for y in x) + ")"
    if not isinstance(x, Node):
        return str(x)
    a = x.args
    if isinstance(x, ISym):
        return a[0]
    if isinstance(x, Poly):
        if not a[0]:
            return "0"
        out = []
        for m, c in a[0]:
            f = "*".join(s(t) + (f"^{p}" if p > 1 else "") for t, p in m)
            out.append((f"{c}*{f}" if c not in (1, -1) else ("-" if c == -1 else "") + f) if f else str(c))
        return "(" + "+".join(out).replace("+-", "-") + ")" if len(out) > 1 else out[0]
    if isinstance(x, (IRead, FRead)):
        return f"{s(a[0])}{[s(i) for i in a[1]]}" + (("." + a[2]) if isinstance(x, FRead) and a[2] else "")
    if isinstance(x, FConst):
        return str(a[0])
    if isinstance(x, FInt):
        return s(a[0])
    if isinstance(x, FSym):
        return a[0]
    if isinstance(x, FAdd):
        return "(" + " + ".join(s(y) for y in a[0]) + ")"
    if isinstance(x, FMul):
        return "*".join(s(y) for y in a[0])
    if isinstance(x, FDiv):
        return f"({s(a[0])} / {s(a[1])})"
    if isinstance(x, (FIte, IIte, AIte)):
        return f"if({s(a[0])}; {s(a[1])}; {s(a[2])})"
    if isinstance(x, (FApp, IApp, CSym)):
        return f"{a[0]}{s(a[1])}" if len(a) > 1 else str(a[0])
    if isinstance(x, ABase):
        return a[0]
    if isinstance(x, AConst):
        return f"const({s(a[0])})"
    if isinstance(x, AStore):
        return f"{s(a[0])}[{s(a[1])}:={s(a[2])}]"
    if isinstance(x, ALoop):
        return f"{a[0]}.{a[1]}{s(a[2]) if a[2] else ''}"
    if isinstance(x, AState):
        return f"{a[0]}.{a[1]}@{s(a[3])}"
    if isinstance(x, CLe):
        return f"{s(a[0])}<=0"
    if isinstance(x, CEq):
        return f"{s(a[0])}==0"
    if isinstance(x, CAnd):
        return " & ".join(s(y) for y in a[0])
    if isinstance(x, COr):
        return "(" + " | ".join(s(y) for y in a[0]) + ")"
    if isinstance(x, CNot):
        return f"!({s(a[0])})"
    if isinstance(x, CConst):
        return str(a[0])
    if isinstance(x, Cx):
        return f"<{s(a[0])}, {s(a[1])}>"
    return f"{type(x).__name__}{[s(y) for y in a]}"
