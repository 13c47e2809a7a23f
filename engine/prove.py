"""Discharging obligations.

Integer conditions go to Z3.  Scalar equations are decided leaf by leaf: all
case guards are resolved under the path condition (Z3), loop equations are
unfolded, and the remaining rational identity is decided by exact polynomial
arithmetic over the integers.
"""
import random
import math
import time
import z3
from terms import *

PRIME = (1 << 61) - 1
STATS = {"z3_calls": 0, "z3_time": 0.0, "leaves": 0, "unfold": 0, "exact": 0, "sz": 0, "splits": 0}


class Split(Exception):
    def __init__(self, cond):
        self.cond = cond


class Undecided(Exception):
    pass


class Deadline(Exception):
    pass


_deadline = [None]


def set_deadline(sec):
    _deadline[0] = None if sec is None else time.time() + sec


def tick():
    if _deadline[0] is not None and time.time() > _deadline[0]:
        raise Deadline()


# -------------------------------------------------------------------- Z3
_z3i = {}
_z3c = {}


def zint(p):
    """polynomial -> z3 term"""
    r = _z3i.get(p)
    if r is not None:
        return r
    if isinstance(p, Poly):
        ts = []
        for m, c in p.terms:
            f = None
            for a, pw in m:
                za = zint(a)
                for _ in range(pw):
                    f = za if f is None else f * za
            if f is None:
                ts.append(z3.IntVal(int(c)))
            else:
                ts.append(f if c == 1 else z3.IntVal(int(c)) * f)
        r = z3.Sum(*ts) if len(ts) > 1 else (ts[0] if ts else z3.IntVal(0))
    elif isinstance(p, ISym):
        r = z3.Int(p.args[0])
    elif isinstance(p, IDiv):
        r = zint(p.args[0]) / zint(p.args[1])
    elif isinstance(p, IMod):
        r = zint(p.args[0]) % zint(p.args[1])
    elif isinstance(p, IIte):
        r = z3.If(zcond(p.args[0]), zint(p.args[1]), zint(p.args[2]))
    elif isinstance(p, IRead):
        s = step_read(p.args[0], p.args[1])
        if s is None:
            name = f"rd{p.args[0].uid}"
            f = z3.Function(name, *([z3.IntSort()] * len(p.args[1])), z3.IntSort())
            r = f(*[zint(i) for i in p.args[1]])
        else:
            r = zread(s)
    elif isinstance(p, IApp):
        if p.args[1] and all(isinstance(x, Poly) for x in p.args[1]):
            f = z3.Function("app_" + p.args[0], *([z3.IntSort()] * len(p.args[1])), z3.IntSort())
            r = f(*[zint(i) for i in p.args[1]])
        else:
            r = z3.Int(f"app_{p.args[0]}_{p.uid}")
    else:
        raise TypeError(type(p))
    _z3i[p] = r
    return r


def zread(s):
    # s: ('val', poly) | ('ite', cond, lazy, lazy) | ('atom', poly)
    if s[0] == "val":
        return zint(P(s[1]))
    if s[0] == "atom":
        p = s[1]
        key = ("latom", p)
        if key not in _z3i:
            f = z3.Function(f"la{p.args[0].uid}", *([z3.IntSort()] * len(p.args[1])), z3.IntSort())
            _z3i[key] = f(*[zint(i) for i in p.args[1]])
        return _z3i[key]
    return z3.If(zcond(s[1]), zread(s[2]()), zread(s[3]()))


def zcond(c):
    r = _z3c.get(c)
    if r is not None:
        return r
    if isinstance(c, CConst):
        r = z3.BoolVal(c.args[0])
    elif isinstance(c, CLe):
        r = zint(c.args[0]) <= 0
    elif isinstance(c, CEq):
        r = zint(c.args[0]) == 0
    elif isinstance(c, CAnd):
        r = z3.And(*[zcond(x) for x in c.args[0]])
    elif isinstance(c, COr):
        r = z3.Or(*[zcond(x) for x in c.args[0]])
    elif isinstance(c, CNot):
        r = z3.Not(zcond(c.args[0]))
    elif isinstance(c, CSym):
        r = z3.Bool(f"{c.args[0]}_{c.uid}")
    else:
        raise TypeError(type(c))
    _z3c[c] = r
    return r


# ------------------------------------------------------- reading loop arrays
def site_inst(T, key, args, idx):
    """[(written condition, iteration)] of cell idx"""
    lf = T.leaves[key]
    env = dict(zip(T.params, args))
    env.update(zip(lf.esyms, idx))
    return [(subst(c, env), subst(t, env)) for c, t in lf.sites]


def tlen(T, args):
    return subst(T.length, dict(zip(T.params, args)))


def step_read(a, idx):
    """one step of reading array node `a` at idx.
    None: irreducible;  ('val',v): value;  ('ite',c,f,g): case distinction;
    ('atom',node): cell assigned by a loop"""
    if isinstance(a, AStore):
        c = conj(*[eq(i, j) for i, j in zip(idx, a.args[1])])
        return ("ite", c, lambda: ("val", a.args[2]), lambda: _rd(a.args[0], idx))
    if isinstance(a, AIte):
        return ("ite", a.args[0], lambda: _rd(a.args[1], idx), lambda: _rd(a.args[2], idx))
    if isinstance(a, (AConst, ALam)):
        return ("val", aread(a, idx))
    if isinstance(a, (ALoop, AState)):
        T, key, args = a.args[:3]
        lf = T.leaves[key]
        if lf.closed:
            raise RuntimeError(f"state of the closed variable {key} is read")
        env = dict(zip(T.params, args))
        if lf.kind == "hist":
            return ("ite", eq(idx[0], 0), lambda: ("val", subst(lf.prev, env)), lambda: ("atom", atom_of(mk(ALoop, T, key, T.canon(args)), idx, lf)))
        n = tlen(T, args)
        if lf.kind == "iter":
            t = a.args[3] if isinstance(a, AState) else n
            b = mk(AState, T, key, T.canon(args), t)
            return ("ite", le(t, 0), lambda: _rd(subst(lf.prev, env), idx), lambda: ("atom", atom_of(b, idx, lf)))
        hi = a.args[3] if isinstance(a, AState) else n
        if lf.kind == "multi":
            # the latest of the iterations that write the cell
            ss = [(conj(c, le(0, t), lt(t, hi), lt(t, n)), t) for c, t in site_inst(T, key, args, idx)]
            ac = T.canon(args)

            def latest(k):
                if k == len(ss):
                    return _rd(subst(lf.prev, env), idx)
                c, t = ss[k]
                last = conj(c, *[disj(neg(d), le(u, t)) for j, (d, u) in enumerate(ss) if j != k])
                return ("ite", last, lambda: ("atom", atom_of(mk(AState, T, key, ac, P(t) + 1), idx, lf)), lambda: latest(k + 1))

            return latest(0)
        cs = [conj(c, le(0, t), lt(t, hi), lt(t, n)) for c, t in site_inst(T, key, args, idx)]
        fin = mk(ALoop, T, key, args)
        return ("ite", disj(*cs), lambda: ("atom", atom_of(fin, idx, lf)), lambda: _rd(subst(lf.prev, env), idx))
    return None


def atom_of(a, idx, lf):
    if lf.sort == "I":
        return mk(IRead, a, tuple(idx))
    if lf.sort == "B":
        return mk(CSym, "read", (a, tuple(idx)))
    return mk(FRead, a, tuple(idx), "*")


def _rd(a, idx):
    s = step_read(a, idx)
    return s if s is not None else ("base", a, idx)


# patch zread for 'base'
_zread0 = zread


def zread(s):  # noqa: F811
    if s[0] == "base":
        f = z3.Function(f"rd{s[1].uid}", *([z3.IntSort()] * len(s[2])), z3.IntSort())
        return f(*[zint(i) for i in s[2]])
    if s[0] == "ite":
        return z3.If(zcond(s[1]), zread(s[2]()), zread(s[3]()))
    return _zread0(s)


# ------------------------------------------- facts about applied integer functions
# name -> f(app): conditions that hold for the application (contracts proved elsewhere)
AXIOMS = {}
# f(app1, app2): conditions that relate two applications
AXIOMS2 = []
# name -> f(args, ctx): a simpler equal polynomial, or None
INORM = {}


_apps = {}


def iapps(c):
    """applications with registered facts in a condition (array contents not searched)"""
    r = _apps.get(c)
    if r is None:
        r, st, seen = [], [c], set()
        while st:
            y = st.pop()
            if isinstance(y, tuple):
                st.extend(y)
                continue
            if not isinstance(y, Node) or y in seen or isinstance(y, ARRAY):
                continue
            seen.add(y)
            if isinstance(y, IApp) and y.args[0] in AXIOMS:
                r.append(y)
            st.extend(y.args)
        _apps[c] = r
    return r


def facts_of(conds, old=()):
    """instances of the registered facts for the applications in conds (those in old have theirs already)"""
    old, new = list(dict.fromkeys(old)), []
    todo = []
    for c in conds:
        todo += iapps(c)
    out = []
    for rounds in range(2):
        nxt = []
        for y in todo:
            if y in old or y in new:
                continue
            new.append(y)
            fs = AXIOMS[y.args[0]](y)
            out += fs
            for f in fs:
                nxt += iapps(f)
        todo = nxt if not rounds else []
    for i, x in enumerate(new):
        for y in old + new[:i]:
            for f in AXIOMS2:
                out += f(x, y)
    return out, new


# ------------------------------------------------------------------ contexts
_dec = {}


class Ctx:
    """path condition"""

    def __init__(self, conds=(), sub=None, parent=None):
        self.conds = tuple(conds)
        self.sub = dict(sub or {})
        self.key = frozenset(c.uid for c in self.conds)
        self._s = None
        self.memo = {}
        self.cmemo = {}

    def solver(self):
        if self._s is None:
            s = z3.Solver()
            s.set("timeout", 4000)
            for c in self.conds:
                s.add(zcond(c))
            self.apps = ()
            if AXIOMS:
                fs, self.apps = facts_of(self.conds)
                for c in fs:
                    s.add(zcond(c))
            self._s = s
        return self._s

    def add(self, *cs):
        """new context with further conditions; equalities become substitutions"""
        conds, sub = list(self.conds), dict(self.sub)
        for c in cs:
            for x in c.args[0] if isinstance(c, CAnd) else (c,):
                if x is TRUE or x in conds:
                    continue
                conds.append(x)
                y = subst(x, sub)
                if isinstance(y, CEq):
                    extra = _solve_eq(y.args[0], sub)
                    if extra:
                        conds.append(extra)
                elif isinstance(y, CNot) and isinstance(y.args[0], CEq):
                    # negated parity:  x mod 2 != 0  ->  x mod 2 == 1
                    p = y.args[0].args[0]
                    if len(p.terms) <= 2:
                        at = [a for a in p.atoms()]
                        if len(at) == 1 and isinstance(at[0], IMod) and at[0].args[1].const() == 2:
                            c0 = subst(p, {}) - P(at[0]) if p.terms[-1][1] == 1 else None
                            k = dict(p.terms).get((), 0)
                            co = dict(p.terms).get(((at[0], 1),), 0)
                            if co in (1, -1):
                                v = -k * co
                                ncond = eq(P(at[0]), 1 - v)
                                conds.append(ncond)
                                extra = _solve_eq(subst(ncond, sub).args[0], sub) if isinstance(subst(ncond, sub), CEq) else None
                                if extra:
                                    conds.append(extra)
        return Ctx(conds, sub)

    def consistent(self):
        k = (self.key, None)
        if k not in _dec:
            tick()
            STATS["z3_calls"] += 1
            t0 = time.time()
            _dec[k] = self.solver().check() != z3.unsat
            STATS["z3_time"] += time.time() - t0
        return _dec[k]

    def model(self):
        s = self.solver()
        if s.check() != z3.sat:
            return {}
        m = s.model()
        out = {}
        for d in m.decls():
            if d.arity() == 0 and z3.is_int_value(m[d]):
                out[d.name()] = m[d].as_long()
        return out

    def entails(self, c):
        if c is TRUE:
            return True
        if c is FALSE:
            return not self.consistent()
        k = (self.key, c.uid)
        r = _dec.get(k)
        if r is None:
            tick()
            STATS["z3_calls"] += 1
            t0 = time.time()
            s = self.solver()
            s.push()
            if AXIOMS:
                for f in facts_of([c], self.apps)[0]:
                    s.add(zcond(f))
            s.add(z3.Not(zcond(c)))
            r = s.check() == z3.unsat
            s.pop()
            STATS["z3_time"] += time.time() - t0
            _dec[k] = r
        return r

    def decide(self, c):
        """True / False / None"""
        if isinstance(c, CConst):
            return c.args[0]
        r = self.cmemo.get(c)
        if r is None:
            if self.entails(c):
                r = 1
            elif self.entails(neg(c)):
                r = 0
            else:
                r = 2
            self.cmemo[c] = r
        return None if r == 2 else bool(r)


def _solve_eq(p, sub):
    """turn p == 0 into a substitution; returns an extra condition or None"""
    g = 0
    for m, c in p.terms:
        if isinstance(c, Fraction) and c.denominator != 1:
            g = 1
            break
        g = math.gcd(g, int(c))
    if g > 1:
        p = p * Fraction(1, g)
    # linear symbol with unit coefficient
    cands = []
    for m, c in p.terms:
        if len(m) == 1 and m[0][1] == 1 and isinstance(m[0][0], ISym) and c in (1, -1):
            cands.append((m[0][0], c))
    for s, c in reversed(cands):
        rest = p - P(s) * c
        if s in fv(rest):
            continue
        val = rest * (-c)
        _addsub(sub, s, val)
        return None
    # (linear) mod k == r
    ats = list(p.atoms())
    if len(ats) == 1 and isinstance(ats[0], IMod):
        a, k = ats[0].args
        kc = k.const()
        r = dict(p.terms).get((), 0)
        co = dict(p.terms).get(((ats[0], 1),), 0)
        if kc and co in (1, -1):
            r = -r * co
            for m, c in a.terms:
                if len(m) == 1 and m[0][1] == 1 and isinstance(m[0][0], ISym) and (c == 1 or (kc == 2 and c % 2 == 1)):
                    s = m[0][0]
                    rest = a - P(s) * c
                    if s in fv(rest) or c != 1:
                        continue
                    h = isym(fresh("h"))
                    _addsub(sub, s, kc * h + r - rest)
                    return eq(P(s), kc * h + r - rest)
    return None


def _addsub(sub, s, val):
    one = {s: val}
    for k in list(sub):
        sub[k] = subst(sub[k], one)
    sub[s] = val


# --------------------------------------------------------------- resolution
def resolve(x, ctx):
    """eliminate case distinctions and reads; raises Split"""
    memo = ctx.memo
    r = memo.get(x)
    if r is not None:
        return r
    tick()
    y = subst(x, ctx.sub) if fv(x) else x
    if y is not x:
        r = resolve(y, ctx)
        memo[x] = r
        return r
    if isinstance(x, (FConst, FSym)):
        r = x
    elif isinstance(x, FInt):
        r = fint(resolve_int(x.args[0], ctx))
    elif isinstance(x, FAdd):
        r = fadd(*[resolve(a, ctx) for a in x.args[0]])
    elif isinstance(x, FMul):
        # left to right with short cut on zero
        acc = []
        for a in x.args[0]:
            b = resolve(a, ctx)
            if b is ZERO:
                acc = [ZERO]
                break
            acc.append(b)
        r = fmul(*acc)
    elif isinstance(x, FDiv):
        a = resolve(x.args[0], ctx)
        r = ZERO if a is ZERO else fdiv(a, resolve(x.args[1], ctx))
    elif isinstance(x, FIte):
        c = rcond(x.args[0], ctx)
        r = resolve(x.args[1] if c else x.args[2], ctx)
    elif isinstance(x, FRead):
        r = resolve_read(x, ctx)
    elif isinstance(x, FApp):
        r = norm_app(x.args[0], tuple(resolve_any(a, ctx) for a in x.args[1]), ctx)
    else:
        raise Undecided(f"resolve {type(x).__name__}")
    memo[x] = r
    return r


PI = fsym("pi")


def norm_app(name, args, ctx):
    """simplification of an applied function symbol with resolved arguments"""
    a = args[0] if args else None
    if name in ("cosq", "sinq"):
        # real and imaginary part of i^m, m in 0..3
        c = a.const() if isinstance(a, Poly) else None
        if c is not None:
            return fc((1, 0, -1, 0)[int(c) % 4]) if name == "cosq" else fc((0, 1, 0, -1)[int(c) % 4])
    elif name == "pow":
        k = args[1]
        c = k.const()
        if c is not None and 0 <= c <= 8:
            return fmul(*([a] * int(c))) if c else ONE
        if a is ONE:
            return ONE
        if c is not None and -8 <= c < 0 or c is None and all(q < 0 for m, q in k.args[0]):
            return fdiv(ONE, norm_app("pow", (a, P(0) - k), ctx))
        if is_zero(a):
            return ZERO if rcond(le(1, k), ctx) else ONE
    elif name in ("cpow.re", "cpow.im"):
        re, im, k = args
        if is_zero(re):
            # (i y)^k = y^k i^k
            q = norm_app("cosq" if name == "cpow.re" else "sinq", (resolve_int(imod(k, 4), ctx),), ctx)
            return fmul(norm_app("pow", (im, k), ctx), q)
        if is_zero(im):
            return norm_app("pow", (re, k), ctx) if name == "cpow.re" else ZERO
    elif name == "cos":
        # one canonical function: cos x = sin(pi/2 - x)
        return norm_app("sin", (fsub(fmul(fc(Fraction(1, 2)), PI), a),), ctx)
    elif name in ("sin", "tan") and isinstance(a, SCALAR) and is_zero(a):
        return ZERO
    return mk(FApp, name, tuple(args))


def resolve_any(a, ctx):
    if isinstance(a, Poly):
        return resolve_int(a, ctx)
    if isinstance(a, SCALAR):
        return resolve(a, ctx)
    if isinstance(a, Cx):
        return cx(resolve(a.re, ctx), resolve(a.im, ctx))
    return subst(a, ctx.sub) if isinstance(a, Node) else a


def rcond(c, ctx):
    c = subst(c, ctx.sub)
    if isinstance(c, CAnd):
        u = None
        for x in c.args[0]:
            d = ctx.decide(x)
            if d is False:
                return False
            if d is None and u is None:
                u = x
        if u is None:
            return True
        if ctx.decide(c) is False:
            return False
        raise Split(u)
    if isinstance(c, COr):
        u = None
        for x in c.args[0]:
            d = ctx.decide(x)
            if d is True:
                return True
            if d is None and u is None:
                u = x
        if u is None:
            return False
        d = ctx.decide(c)
        if d is not None:
            return d
        if isinstance(u, (CAnd, COr)):
            return rcond(u, ctx)
        raise Split(u)
    if isinstance(c, CNot):
        return not rcond(c.args[0], ctx)
    d = ctx.decide(c)
    if d is None:
        raise Split(c)
    return d


def resolve_read(x, ctx):
    a, idx, comp = x.args
    idx = tuple(resolve_idx(i, ctx) for i in idx)
    if comp == "*":
        return mk(FRead, a, idx, comp)
    # a read that was resolved before (its component starts with "*") resolves again
    return pick(_walk(a, idx, ctx), comp.lstrip("*") if isinstance(comp, str) else comp, ctx)


def _walk(a, idx, ctx):
    """follow the array until a value, a loop cell or an irreducible array"""
    s = _rd(a, idx)
    while True:
        if s[0] == "ite":
            s = s[2]() if rcond(s[1], ctx) else s[3]()
        else:
            return s


def pick(s, comp, ctx):
    if s[0] == "val":
        v = s[1]
        if comp:
            v = tocx(v)
            v = v.re if comp == "re" else v.im
        if isinstance(v, Cx):
            raise Undecided("complex value read as scalar")
        if isinstance(v, Poly):
            return fint(resolve_int(v, ctx))
        return resolve(v, ctx)
    if s[0] == "atom":
        at = s[1]
        a = subst(at.args[0], ctx.sub)
        if isinstance(a, AState):
            a = mk(AState, *a.args[:3], resolve_idx(a.args[3], ctx))
        return mk(FRead, a, at.args[1], "*" + comp)
    _, a, idx = s
    idx = tuple(resolve_idx(i, ctx) for i in idx)
    return mk(FRead, subst(a, ctx.sub) if fv(a) else a, idx, comp)


def resolve_idx(p, ctx):
    return resolve_int(p, ctx, frac=False)


def resolve_int(p, ctx, frac=True):
    p = subst(p, ctx.sub)
    if not any(isinstance(a, (IDiv, IMod, IIte, IRead, IApp)) for a in p.atoms()):
        return p
    out = P(0)
    for m, c in p.terms:
        t = P(c)
        for a, pw in m:
            b = _ratom(a, ctx, frac)
            for _ in range(pw):
                t = t * b
        out = out + t
    return out


def _ratom(a, ctx, frac):
    if isinstance(a, ISym):
        return P(a)
    if isinstance(a, IIte):
        return resolve_int(a.args[1] if rcond(a.args[0], ctx) else a.args[2], ctx, frac)
    if isinstance(a, (IMod, IDiv)):
        k = a.args[1].const()
        x = resolve_int(a.args[0], ctx, False)
        if k and k <= 4:
            m = imod(x, k)
            if m.const() is None:
                u = None
                for r in range(k):
                    d = ctx.decide(eq(m, r))
                    if d:
                        m = P(r)
                        break
                    if d is None and u is None:
                        u = r
                else:
                    raise Split(eq(m, u))
            if isinstance(a, IMod):
                return m
            q = x - m
            if all(c % k == 0 for _, c in q.terms):
                return P(mk(Poly, tuple((mm, c // k) for mm, c in q.terms)))
            if frac:
                return q * Fraction(1, k)
            return P(idiv(x, k))
        d = resolve_int(a.args[1], ctx, False)
        r = euclid(x, d, ctx)
        if r is not None:
            return r[0] if isinstance(a, IDiv) else r[1]
        f = idiv if isinstance(a, IDiv) else imod
        return f(x, d)
    if isinstance(a, IRead):
        arr = a.args[0]
        idx = tuple(resolve_idx(i, ctx) for i in a.args[1])
        s = _walk(arr, idx, ctx)
        if s[0] == "val":
            return resolve_int(P(s[1]), ctx, frac)
        if s[0] == "atom":
            v = int_cell(s[1], ctx)
            return P(s[1]) if v is None else resolve_int(v, ctx, frac)
        return P(mk(IRead, s[1], tuple(resolve_idx(i, ctx) for i in s[2])))
    if isinstance(a, IApp):
        args = tuple(resolve_any(y, ctx) for y in a.args[1])
        if a.args[0] in INORM:
            r = INORM[a.args[0]](args, ctx)
            if r is not None:
                return resolve_int(r, ctx, frac)
        return P(mk(IApp, a.args[0], args))
    raise Undecided(type(a).__name__)


def int_cell(x, ctx):
    """value of an integer loop cell that does not depend on the cells of other iterations"""
    a, idx = x.args
    T, key, args = a.args[:3]
    lf = T.leaves[key]
    if lf.kind != "cells" or len(lf.sites) != 1:
        return None
    env = dict(zip(T.params, args))
    env[T.tsym] = site_inst(T, key, args, idx)[0][1]
    s = _walk(subst(lf.body, env), idx, ctx)
    if s[0] != "val" or not isinstance(s[1], Poly) or any(isinstance(y, IRead) for y in s[1].atoms()):
        return None
    return s[1]


def euclid(x, d, ctx):
    """x = q*d + r with 0 <= r < d: (q, r), for a divisor that is not a constant"""
    if len(d.terms) != 1 or d.const() is not None:
        return None
    (dm, dc), = d.terms
    if dc != 1:
        return None
    dd = dict(dm)
    q, r = P(0), P(0)
    for m, c in x.terms:
        mm = dict(m)
        if all(mm.get(a, 0) >= p for a, p in dd.items()):
            t = P(c)
            for a, p in mm.items():
                for _ in range(p - dd.get(a, 0)):
                    t = t * P(a)
            q = q + t
        else:
            r = r + mk(Poly, ((m, c),))
    if ctx.decide(conj(le(0, r), lt(r, d))):
        return q, r
    return None


# ---------------------------------------------------- loop atoms, unfolding
def is_latom(x):
    return isinstance(x, FRead) and x.args[2].startswith("*")


def latoms(x, acc=None, seen=None):
    if acc is None:
        acc, seen = [], set()
    st = [x]
    while st:
        y = st.pop()
        if y in seen:
            continue
        seen.add(y)
        if is_latom(y):
            acc.append(y)
        elif isinstance(y, (FAdd, FMul)):
            st.extend(y.args[0])
        elif isinstance(y, FDiv):
            st.extend(y.args)
        elif isinstance(y, FApp):
            st.extend(a for a in y.args[1] if isinstance(a, SCALAR))
    return acc


def iteration(x, ctx):
    """iteration that assigned the cell"""
    a, idx, comp = x.args
    T, key, args = a.args[:3]
    lf = T.leaves[key]
    if lf.kind == "hist":
        return idx[0] - 1
    if lf.kind in ("iter", "multi"):
        return a.args[3] - 1
    ss = site_inst(T, key, args, idx)
    if len(ss) == 1:
        return ss[0][1]
    for c, t in ss:
        d = ctx.decide(conj(c, le(0, t), lt(t, tlen(T, args))))
        if d:
            return t
        if d is None:
            rcond(conj(c, le(0, t), lt(t, tlen(T, args))), ctx)
    raise Undecided("iteration")


def unfold(x, ctx):
    STATS["unfold"] += 1
    a, idx, comp = x.args
    T, key, args = a.args[:3]
    lf = T.leaves[key]
    t = iteration(x, ctx)
    env = dict(zip(T.params, args))
    env[T.tsym] = t
    comp = comp[1:]
    body = lf.body
    if lf.kind == "hist":
        v = subst(body, env)
    else:
        v = None
        arr = subst(body, env)
        s = _walk(arr, idx, ctx)
        return pick(s, comp, ctx)
    if comp:
        v = tocx(v)
        v = v.re if comp == "re" else v.im
    return resolve(v, ctx)


def replace(x, m, memo=None, ctx=None):
    if memo is None:
        memo = {}
    r = memo.get(x)
    if r is not None:
        return r
    if x in m:
        r = m[x]
    elif isinstance(x, FAdd):
        r = fadd(*[replace(a, m, memo, ctx) for a in x.args[0]])
    elif isinstance(x, FMul):
        r = fmul(*[replace(a, m, memo, ctx) for a in x.args[0]])
    elif isinstance(x, FDiv):
        r = fdiv(*[replace(a, m, memo, ctx) for a in x.args])
    elif isinstance(x, FApp):
        args = tuple(replace(a, m, memo, ctx) if isinstance(a, SCALAR) else a for a in x.args[1])
        r = norm_app(x.args[0], args, ctx) if ctx is not None and args != x.args[1] else mk(FApp, x.args[0], args)
    else:
        r = x
    memo[x] = r
    return r


# ------------------------------------------------------ rational identities
class Evaluator:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.at = {}
        self.memo = {}

    def atom(self, a):
        v = self.at.get(a)
        if v is None:
            v = random.Random(f"{a.uid}/{self.r.random() if False else id(self)}").randrange(1, PRIME)
            self.at[a] = v
        return v

    def poly(self, p):
        t = 0
        for m, c in p.terms:
            if isinstance(c, Fraction):
                v = c.numerator * pow(c.denominator, PRIME - 2, PRIME) % PRIME
            else:
                v = c % PRIME
            for a, pw in m:
                v = v * pow(self.atom(a), pw, PRIME) % PRIME
            t = (t + v) % PRIME
        return t

    def ev(self, x):
        r = self.memo.get(x)
        if r is not None:
            return r
        if isinstance(x, FConst):
            c = x.args[0]
            r = c.numerator % PRIME * pow(c.denominator, PRIME - 2, PRIME) % PRIME
        elif isinstance(x, FInt):
            r = self.poly(x.args[0])
        elif isinstance(x, FAdd):
            r = sum(self.ev(a) for a in x.args[0]) % PRIME
        elif isinstance(x, FMul):
            r = 1
            for a in x.args[0]:
                r = r * self.ev(a) % PRIME
        elif isinstance(x, FDiv):
            d = self.ev(x.args[1])
            if d == 0:
                raise Undecided("division by zero in evaluation")
            r = self.ev(x.args[0]) * pow(d, PRIME - 2, PRIME) % PRIME
        else:
            r = self.atom(x)
        self.memo[x] = r
        return r


_evs = [Evaluator(s) for s in (11, 12, 13)]


def zero_mod(x):
    try:
        return all(e.ev(x) == 0 for e in _evs)
    except Undecided:
        return False


class TooBig(Exception):
    pass


LIMIT = 60000


def _num(x, memo):
    """(numerator Poly, denominators {Poly: power})"""
    r = memo.get(x)
    if r is not None:
        return r
    if isinstance(x, FConst):
        r = (P(x.args[0]), {})
    elif isinstance(x, FInt):
        r = (x.args[0], {})
    elif isinstance(x, FAdd):
        parts = [_num(a, memo) for a in x.args[0]]
        l = {}
        for _, d in parts:
            for f, e in d.items():
                l[f] = max(l.get(f, 0), e)
        tot = P(0)
        for n, d in parts:
            for f, e in l.items():
                for _ in range(e - d.get(f, 0)):
                    n = _pm(n, f)
            tot = tot + n
        r = (tot, l)
    elif isinstance(x, FMul):
        n, d = P(1), {}
        for a in x.args[0]:
            n2, d2 = _num(a, memo)
            n = _pm(n, n2)
            for f, e in d2.items():
                d[f] = d.get(f, 0) + e
        r = (n, d)
    elif isinstance(x, FDiv):
        n, d = _num(x.args[0], memo)
        n2, d2 = _num(x.args[1], memo)
        d = dict(d)
        for f, e in d2.items():
            for _ in range(e):
                if d.get(f):
                    d[f] -= 1
                    if not d[f]:
                        del d[f]
                else:
                    n = _pm(n, f)
        c = n2.const()
        if c is not None:
            if c == 0:
                raise Undecided("division by zero")
            n = n * Fraction(1, 1) * (Fraction(1) / c)
        else:
            d[n2] = d.get(n2, 0) + 1
        r = (n, d)
    else:
        r = (mk(Poly, ((((x, 1),), 1),)), {})
    memo[x] = r
    return r


def _pm(a, b):
    if len(a.terms) * len(b.terms) > LIMIT:
        raise TooBig()
    return a * b


def is_zero(x):
    if x is ZERO:
        return True
    if not zero_mod(x):
        return False
    try:
        n, _ = _num(x, {})
        STATS["exact"] += 1
        return n.const() == 0
    except TooBig:
        pass
    except Undecided:
        return False
    # too large to expand: name shared subterms; an identity in the names implies the identity
    y = abstract(x)
    try:
        n, _ = _num(y, {})
        if n.const() == 0:
            STATS["exact"] += 1
            STATS["abstracted"] = STATS.get("abstracted", 0) + 1
            return True
    except (TooBig, Undecided):
        pass
    STATS["sz"] += 1
    return True


def _dag(x):
    """subterms in topological order (children first), with number of parents"""
    order, seen, par = [], set(), {}
    st = [(x, False)]
    while st:
        y, done = st.pop()
        if done:
            order.append(y)
            continue
        if y in seen:
            continue
        seen.add(y)
        st.append((y, True))
        ch = y.args[0] if isinstance(y, (FAdd, FMul)) else (y.args if isinstance(y, FDiv) else ())
        for c in ch:
            par[c] = par.get(c, 0) + 1
            st.append((c, False))
    return order, par


def abstract(x):
    """replace shared compound subterms by fresh symbols as long as the value stays zero"""
    tries = 0
    changed = True
    while changed and tries < 400:
        changed = False
        order, par = _dag(x)
        cand = [y for y in order if isinstance(y, (FAdd, FDiv)) and par.get(y, 0) > 1 and y is not x]
        for y in reversed(cand):
            tries += 1
            z = replace(x, {y: fsym(fresh("abs"))})
            if zero_mod(z):
                x = z
                changed = True
                break
    return x


# ------------------------------------------------------------------- goals
class Fail:
    """a leaf that could not be closed"""

    def __init__(self, ctx, term, complete, why=""):
        self.ctx, self.term, self.complete, self.why = ctx, term, complete, why


MAXLEAVES = 4000


def prove_array_equal(a, b, ctx, maxunf=7):
    """two entries are equal"""
    if a is b:
        return True
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = tocx(a), tocx(b)
        return prove_array_equal(a.re, b.re, ctx, maxunf) and prove_array_equal(a.im, b.im, ctx, maxunf)
    return not prove_zero(fsub(a, b), ctx, maxunf=maxunf)


def prove_zero(term, ctx, hyps=(), maxunf=7, on_fail=None, leaves=None):
    """prove term == 0 under ctx.  hyps: scalar terms known to be zero whose
    sum may be subtracted (contract instances are passed already combined).
    Returns list of Fail (empty = proved)."""
    fails = []
    stack = [(ctx, None)]
    n = 0
    while stack:
        c, _ = stack.pop()
        if not c.consistent():
            continue
        n += 1
        if n > MAXLEAVES:
            fails.append(Fail(c, term, False, "too many cases"))
            break
        try:
            t = resolve(term, c)
            if is_zero(t):
                STATS["leaves"] += 1
                if leaves is not None:
                    leaves.append(c)
                continue
            f = close_leaf(t, c, maxunf)
            if f is None:
                STATS["leaves"] += 1
                if leaves is not None:
                    leaves.append(c)
                continue
            q = pinned(c)
            if q is not None:
                stack.append((q, None))
                continue
            fails.append(f)
            if len(fails) >= 3:
                break
        except Split as s:
            STATS["splits"] += 1
            stack.append((c.add(neg(s.cond)), None))
            stack.append((c.add(s.cond), None))
        except Undecided as u:
            fails.append(Fail(c, term, False, str(u)))
            if len(fails) >= 3:
                break
        except RecursionError:
            fails.append(Fail(c, term, False, "recursion"))
            break
    return fails


def pinned(ctx):
    """equalities implied by the (integer) inequalities of ctx, made explicit"""
    m = ctx.model()
    out = []
    syms = set()
    for c in ctx.conds:
        syms |= fv(c)
    for s in sorted(syms, key=lambda z: z.uid):
        p = subst(P(s), ctx.sub)
        if p is not P(s) or s.args[0] not in m:
            continue
        e = eq(p, m[s.args[0]])
        if e is not TRUE and e not in ctx.conds and ctx.entails(e):
            out.append(e)
    for c in ctx.conds:
        for x in c.args[0] if isinstance(c, CAnd) else (c,):
            if isinstance(x, CLe):
                e = subst(eq(x.args[0], 0), ctx.sub)
                if isinstance(e, CEq) and e not in ctx.conds and ctx.entails(e):
                    out.append(e)
    return ctx.add(*out) if out else None


def unify(t, ctx):
    """merge equal index atoms of the same array"""
    ats = {}
    seen = set()
    st = [t]
    while st:
        y = st.pop()
        if y in seen:
            continue
        seen.add(y)
        if isinstance(y, FRead):
            ats.setdefault((y.args[0], y.args[2]), []).append(y)
        elif isinstance(y, (FAdd, FMul)):
            st.extend(y.args[0])
        elif isinstance(y, FDiv):
            st.extend(y.args)
    m = {}
    for l in ats.values():
        for i, x in enumerate(l):
            for y in l[:i]:
                if y in m:
                    continue
                if ctx.entails(conj(*[eq(a, b) for a, b in zip(x.args[1], y.args[1])])):
                    m[x] = y
                    break
    return replace(t, m, None, ctx) if m else t


def subapps(t):
    """applied function symbols and reads of external results in t, innermost first"""
    out, seen = [], set()

    def go(y):
        if y in seen:
            return
        seen.add(y)
        if isinstance(y, (FAdd, FMul)):
            for z in y.args[0]:
                go(z)
        elif isinstance(y, FDiv):
            for z in y.args:
                go(z)
        elif isinstance(y, FApp):
            for z in y.args[1]:
                if isinstance(z, SCALAR):
                    go(z)
            out.append(y)
        elif isinstance(y, FRead) and isinstance(y.args[0], AApp):
            out.append(y)
    go(t)
    return out


def same_arg(a, b, ctx):
    """provably equal arguments of two applications"""
    if a is b:
        return True
    if isinstance(a, Poly) and isinstance(b, Poly):
        return ctx.entails(eq(a, b))
    if isinstance(a, SCALAR) and isinstance(b, SCALAR):
        return is_zero(fsub(a, b))
    if isinstance(a, Cx) and isinstance(b, Cx):
        return same_arg(a.re, b.re, ctx) and same_arg(a.im, b.im, ctx)
    if isinstance(a, ARRAY) and isinstance(b, ARRAY):
        return same_array(a, b, ctx)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same_arg(x, y, ctx) for x, y in zip(a, b))
    return False


def same_array(a, b, ctx):
    """equal extents and equal at every index"""
    k = (a, b, ctx.key)
    r = _same.get(k)
    if r is not None:
        return r
    r = False
    da, db = adims(a), adims(b)
    if len(da) == len(db) and ctx.entails(conj(*[eq(x, y) for x, y in zip(da, db)])):
        idx = tuple(P(mk(ISym, fresh("j"))) for _ in da)
        c = ctx.add(*[conj(le(0, i), lt(i, d)) for i, d in zip(idx, da)])
        x, y = aread(a, idx), aread(b, idx)
        if isinstance(x, Cx) or isinstance(y, Cx):
            x, y = tocx(x), tocx(y)
            r = not prove_zero(fsub(x.re, y.re), c) and not prove_zero(fsub(x.im, y.im), c)
        elif isinstance(x, SCALAR) and isinstance(y, SCALAR):
            r = not prove_zero(fsub(x, y), c)
    _same[k] = r
    return r


_same = {}


def congruence(t, ctx):
    """merge applications of the same symbol to provably equal arguments"""
    for _ in range(8):
        m = {}
        reps = {}
        for x in subapps(t):
            if isinstance(x, FApp):
                key = x.args[0]
                for y in reps.get(key, ()):
                    r = merge_app(x, y, ctx)
                    if r is not None:
                        m[x] = r
                        break
            else:
                a = x.args[0]
                key = (a.args[0], a.args[3], x.args[2])
                for y in reps.get(key, ()):
                    b = y.args[0]
                    if len(a.args[1]) == len(b.args[1]) and same_arg(x.args[1], y.args[1], ctx) and same_arg(a.args[1], b.args[1], ctx):
                        m[x] = y
                        break
            if x in m:
                break
            reps.setdefault(key, []).append(x)
        if not m:
            return t
        t = replace(t, m, None, ctx)
    return t


def merge_app(x, y, ctx):
    n, a, b = x.args[0], x.args[1], y.args[1]
    if len(a) != len(b):
        return None
    if all(same_arg(p, q, ctx) for p, q in zip(a, b)):
        return y
    if n == "sin":
        if is_zero(fadd(a[0], b[0])):
            return fneg(y)
        if is_zero(fsub(fadd(a[0], b[0]), PI)):
            return y
    if n == "pow" and same_arg(a[0], b[0], ctx):
        d = (a[1] - b[1]).const()
        if d is not None and 0 < d <= 8:
            return fmul(y, *([b[0]] * int(d)))
        if d is not None and -8 <= d < 0:
            # the identity is then proved for the smaller exponent
            return fdiv(y, fmul(*([b[0]] * int(-d)))) if not is_zero(b[0]) else None
    return None


# -------------------------------------------------- linear external operators
def lin_row(name, comp, idx, n, j, v):
    """summand j of the result of a discrete transform at idx"""
    k = idx[0]
    v = tocx(v)
    if name == "dct1":
        w = fapp("W.dct1", k, j, n)
        return fmul(w, v.im if comp == "im" else v.re)
    C, Sn = fapp("W.cos", k, j, n), fapp("W.sin", k, j, n)
    if name in ("fft+", "fft-", "rfft"):
        s = ONE if name == "fft+" else fc(-1)
        if comp == "re":
            return fsub(fmul(C, v.re), fmul(s, Sn, v.im))
        return fadd(fmul(C, v.im), fmul(s, Sn, v.re))
    if name == "irfft":
        # j runs over the n/2+1 modes; the mirrored modes are added in
        two = fite(disj(eq(j, 0), eq(2 * j, n)), ONE, fc(2))
        return fmul(two, fsub(fmul(C, v.re), fmul(Sn, v.im)))
    return None


def linear_step(t, ctx):
    """sum over transforms: sum_r c_r F(b_r)[k] = sum_j sum_r c_r W(k,j) b_r[j]; it vanishes if every summand does.
    -> term of one summand, its context; None if t is not linear in the transforms"""
    rs = [x for x in subapps(t) if isinstance(x, FRead) and x.args[0].args[0] in ("dct1", "fft+", "fft-", "rfft", "irfft")]
    if not rs:
        return None
    exts = {adims(x.args[0].args[1][0])[0] for x in rs}
    ext = exts.pop()
    for e in exts:
        if not ctx.entails(eq(e, ext)):
            return None
    # linear and homogeneous in the transforms?
    mark = {x: fsym(f"lin!{x.uid}") for x in rs}
    y = replace(t, mark)
    try:
        num, den = _num(y, {})
    except (TooBig, Undecided):
        return None
    ms = set(mark.values())
    if any(a in ms for d in den for a in d.atoms()):
        return None
    for mono, c in num.terms:
        if sum(p for a, p in mono if a in ms) != 1:
            return None
        for a, p in mono:
            if isinstance(a, FApp) and any(z in ms for z in subterms(a)):
                return None
    j = P(mk(ISym, fresh("j")))
    sub = {}
    for x in rs:
        a = x.args[0]
        v = lin_row(a.args[0], x.args[2], x.args[1], a.args[1][1], j, aread(a.args[1][0], (j,)))
        if v is None:
            return None
        sub[x] = v
    return replace(t, sub), ctx.add(le(0, j), lt(j, ext))


def subterms(x):
    out, st = set(), [x]
    while st:
        y = st.pop()
        if isinstance(y, tuple):
            st.extend(y)
        elif isinstance(y, Node) and y not in out:
            out.add(y)
            st.extend(y.args)
    return out


def closed(t, ctx, maxunf):
    """t is zero, directly or through congruence / linearity.  -> True or the open goal"""
    if is_zero(t):
        return True, t, None
    if subapps(t):
        t = congruence(t, ctx)
        if is_zero(t):
            return True, t, None
        if not latoms(t):
            l = linear_step(t, ctx)
            if l is not None:
                fs = prove_zero(l[0], l[1], maxunf=maxunf)
                return not fs, t, (fs[0] if fs else None)
    return False, t, None


def realeqs(t, ctx):
    """equalities between reals among the conditions, used as substitutions where one side has an entry to solve for"""
    for c in ctx.conds:
        for x in c.args[0] if isinstance(c, CAnd) else (c,):
            if not (isinstance(x, CSym) and x.args[0] == "real=="):
                continue
            a, b = (resolve(z, ctx) for z in x.args[1])
            for u, w in ((a, b), (b, a)):
                if isinstance(u, FRead) and not is_latom(u) and u not in subterms(w):
                    t = replace(t, {u: w}, None, ctx)
                    break
    return t


def soft(ctx):
    """the conditions involve values the prover does not know (unsolved loop counters and counts, comparisons of
    reals): they may exclude each other, so an open leaf under them need not be reachable"""
    eqs = 0
    for c in ctx.conds:
        y = c.args[0] if isinstance(c, CNot) else c
        if isinstance(y, CSym) and y.args[0] == "real==" and not any(is_latom(z) for z in subterms(y)):
            # an inequation leaves generic values; one equation for an entry was used as a substitution
            if y is not c:
                continue
            if any(isinstance(z, FRead) for z in y.args[1]) and not eqs:
                eqs = 1
                continue
        for x in subterms(c) | {c}:
            if isinstance(x, IRead) and isinstance(x.args[0], (ALoop, AState)):
                return True
            if isinstance(x, CSym) and x.args[0].startswith("real"):
                return True
            if isinstance(x, ISym) and x.args[0].startswith("T#"):
                return True
    return False


def close_leaf(t, ctx, maxunf):
    f = close_leaf1(t, ctx, maxunf)
    if f is not None and f.complete and soft(ctx):
        f.complete = False
        f.why = "conditions with unknown values"
    return f


def close_leaf1(t, ctx, maxunf):
    t = realeqs(unify(t, ctx), ctx)
    ok, t, f = closed(t, ctx, maxunf)
    if ok:
        return None
    ls = latoms(t)
    if not ls:
        return f or Fail(ctx, t, True)
    # group of loops, latest first; search over the number of unfolded levels
    best = False
    for mu in (1, 2, 3, 5, 7):
        if mu <= maxunf:
            best = search(t, ctx, mu, frozenset())
            if best is True:
                return None
            if best == "complete":
                break
    return Fail(ctx, t, best == "complete", "no unfolding closes the goal" if best != "complete" else "")


def loopid(x):
    a = x.args[0]
    return (a.args[0].uid, a.args[2])


def later(x, y, ctx):
    """x assigned in a later iteration than y (same loop)"""
    d = iteration(x, ctx) - iteration(y, ctx)
    c = d.const()
    if c is not None:
        return c > 0
    r = ctx.decide(le(1, d))
    return bool(r)


def unfold_latest(t, ctx, lid):
    """unfold all atoms of loop lid that belong to its latest iteration"""
    ls = [x for x in latoms(t) if loopid(x) == lid]
    if not ls:
        return None
    best = ls[0]
    for x in ls[1:]:
        if later(x, best, ctx):
            best = x
    it = iteration(best, ctx)
    grp = [x for x in ls if (iteration(x, ctx) - it).const() == 0]
    m = {x: unfold(x, ctx) for x in grp}
    return unify(replace(t, m, None, ctx), ctx)


def search(t, ctx, maxunf, done):
    """True if closed; 'complete' if everything unfolded and still nonzero; False otherwise"""
    tick()
    ls = latoms(t)
    ids = sorted({loopid(x) for x in ls} - done, key=lambda z: (z[0], [p.uid for p in z[1]]), reverse=True)
    if not ids:
        return "complete" if not ls else False
    lid = ids[0]
    res = False
    cur = t
    for k in range(maxunf + 1):
        if k:
            # atoms of the same iteration are unfolded together, several rounds for one level
            cur = unfold_latest(cur, ctx, lid)
            if cur is None:
                break
            ok, cur, _ = closed(cur, ctx, maxunf)
            if ok:
                return True
        r = search(cur, ctx, maxunf, done | {lid})
        if r is True:
            return True
        if r == "complete":
            res = "complete"
            break
    return res


# ------------------------------------------------- integer conditions
def prove_cond(cond, ctx, depth=2):
    """Z3 with instances of loop equations of integer arrays"""
    if ctx.entails(cond):
        return True, None
    if isinstance(cond, CLe) and product_bounds(cond.args[0], ctx):
        return True, None
    return _prove_inst(cond, ctx, depth)


def product_bounds(d, ctx):
    """d <= 0 where products of atoms stay far below a large constant: every factor is bounded on its own"""
    big = -(d.const_part() if hasattr(d, "const_part") else sum(c for m, c in d.terms if not m))
    if big < 2 ** 31 or not any(sum(pw for _, pw in m) > 1 for m, c in d.terms):
        return False

    def bound(a):
        if not ctx.entails(le(0, P(a))):
            return None
        return next((b for b in (2 ** 8, 2 ** 15, 2 ** 16, 2 ** 30, 2 ** 32) if ctx.entails(le(P(a), b))), None)

    rest = P(0)
    for m, c in d.terms:
        if sum(pw for _, pw in m) <= 1:
            t = P(c)
            for a, pw in m:
                t = t * P(a)
            rest = rest + t
            continue
        bs = [(bound(a), pw) for a, pw in m]
        if any(b is None for b, _ in bs):
            return False
        if c > 0:
            for b, pw in bs:
                c = c * b ** pw
            rest = rest + c
    return ctx.entails(le(rest, 0))


def _iatoms(x, acc, seen):
    """integer loop cells occurring in x"""
    st = [x]
    while st:
        y = st.pop()
        if y in seen:
            continue
        seen.add(y)
        if isinstance(y, tuple):
            st.extend(z for z in y if isinstance(z, (Node, tuple)))
            continue
        if isinstance(y, IRead):
            acc.append(y)
        if isinstance(y, (ABase, AConst, AStore, AIte, ALam, ALoop, AState, AApp)):
            continue
        st.extend(z for z in y.args if isinstance(z, (Node, tuple)))
    return acc


def _latoms_of_read(x, out):
    """walk all cases of an integer read, collecting loop cells"""
    def go(s, d):
        if d > 40:
            return
        if s is None or s[0] == "base":
            return
        if s[0] == "ite":
            _iatoms(s[1], extra, seen)
            go(s[2](), d + 1)
            go(s[3](), d + 1)
        elif s[0] == "atom":
            if isinstance(s[1], IRead):
                out.append(s[1])
        elif s[0] == "val":
            _iatoms(s[1], extra, seen)

    extra, seen = [], set()
    go(_rd(x.args[0], x.args[1]), 0)
    return extra


def _cells(todo):
    cells, work, seenw = [], list(todo), set()
    while work:
        x = work.pop()
        if x in seenw:
            continue
        seenw.add(x)
        work += _latoms_of_read(x, cells)
    return cells


def loop_instances(roots, depth, left=None):
    """equations  cell == value assigned by its iteration  for integer loop cells; left: the cells without such an
    equation, whose value stays open"""
    facts, done = [], set()
    todo = []
    for r in roots:
        todo += _iatoms(r, [], set())
    for _ in range(depth):
        cells, nxt = _cells(todo), []
        for at in cells:
            if at in done:
                continue
            done.add(at)
            a, idx = at.args
            T, key, args = a.args[:3]
            lf = T.leaves[key]
            env = dict(zip(T.params, args))
            if lf.kind == "hist":
                opts = [(le(1, idx[0]), idx[0] - 1)]
            elif lf.kind in ("iter", "multi"):
                opts = [(le(1, a.args[3]), a.args[3] - 1)]
            else:
                opts = site_inst(T, key, args, idx)
            if not opts and left is not None:
                left.append(at)
            for c, t in opts:
                e2 = dict(env)
                e2[T.tsym] = t
                guard = conj(c, le(0, t), lt(t, tlen(T, args)))
                v = subst(lf.body, e2) if lf.kind == "hist" else aread(subst(lf.body, e2), idx)
                facts.append((guard, at, v))
                nxt += _iatoms(v, [], set())
        todo = nxt
    if left is not None:
        left += [at for at in _cells(todo) if at not in done]
    return facts


def _prove_inst(cond, ctx, depth):
    left = []
    facts = loop_instances([cond, *ctx.conds], depth, left)
    s = z3.Solver()
    s.set("timeout", 20000)
    for c in ctx.conds:
        s.add(zcond(c))
    for g, at, v in facts:
        s.add(z3.Implies(zcond(g), zread(("atom", at)) == zint(P(v))))
    if AXIOMS:
        for f in facts_of([cond, *ctx.conds])[0]:
            s.add(zcond(f))
    s.add(z3.Not(zcond(cond)))
    STATS["z3_calls"] += 1
    t0 = time.time()
    r = s.check()
    STATS["z3_time"] += time.time() - t0
    if r == z3.unsat:
        return True, None
    m = None
    if r == z3.sat:
        mm = s.model()
        m = {d.name(): mm[d].as_long() for d in mm.decls() if d.arity() == 0 and z3.is_int_value(mm[d])}
        if left and not set(left) <= set(_cells(_iatoms(tuple(ctx.conds), [], set()))):
            # the values of these cells are free in the model: not a counterexample
            m["?"] = 1
    return False, m


NONZERO = set()  # scalars that a precondition makes nonzero


def prove_nonzero(d, ctx):
    """(True, None) the scalar d is never zero; (False, model) it can be; (None, None) unknown"""
    stack, n = [ctx], 0
    while stack:
        c = stack.pop()
        if not c.consistent():
            continue
        n += 1
        if n > 200:
            return None, None
        try:
            t = resolve(d, c)
            for _ in range(4):
                ls = latoms(t)
                if not ls:
                    break
                t = resolve(replace(t, {x: unfold(x, c) for x in ls}, None, c), c)
            num, _ = _num(t, {})
        except Split as s:
            stack += [c.add(neg(s.cond)), c.add(s.cond)]
            continue
        except (Undecided, TooBig):
            return None, None
        # factors: a constant, symbols known to be positive, arithmetic in sizes, powers of such
        left = P(1)
        ok = True
        if len(num.terms) == 1:
            for a, p in num.terms[0][0]:
                if isinstance(a, FSym) and (a.args[0] == "pi" or a in NONZERO):
                    continue
                if isinstance(a, FApp) and a.args[0] == "pow":
                    r, m = prove_nonzero(a.args[1][0], c)
                    if r is not True:
                        return r, m
                    continue
                if isinstance(a, (ISym, IMod, IDiv)):
                    left = left * P(a)
                    continue
                ok = False
        else:
            left = num
            ok = all(isinstance(a, (ISym, IMod, IDiv)) for a in num.atoms())
        if not ok:
            return None, None
        k = left.const()
        if k is not None and k != 0:
            continue
        den = 1
        for _, co in left.terms:
            if isinstance(co, Fraction):
                den = den * co.denominator // math.gcd(den, co.denominator)
        left = left * den
        left = mk(Poly, tuple((mm, int(co)) for mm, co in left.terms))
        if c.entails(neg(eq(left, 0))):
            continue
        m = c.add(eq(left, 0)).model()
        return (False, m) if m else (None, None)
    return True, None
