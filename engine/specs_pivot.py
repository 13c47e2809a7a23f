"""Pivots of the banded solvers do not vanish.

Two parts:
* the code: run on bands that have a factorisation L D L^T with D = diag(M), M > 0 (ghost arrays), every divisor of
  the solver is a product of cells of M.  The arrays filled by the loops of the solver are shown to be those of the factorisation by
  induction over the iterations (candidate invariants are tried, accepted ones are proved);
* the mathematics: S^T S has such a factorisation when the columns of S are 1, b_k, c_k (unit leading coefficient)."""
import z3
from session import *
import prove
from prove import Ctx, Split, Undecided, TooBig, resolve, replace, unfold, latoms, iteration, tlen


class Ghost:
    def __init__(self, offs, n, base_arr):
        self.s = s = offs[0]
        self.A, self.M, self.c = (base_arr(x, "F", n) for x in ("ghostA", "ghostM", "ghostc"))
        rd = lambda a, j: aread(a, (P(j),))  # noqa: E731
        A, M = (lambda j: rd(self.A, j)), (lambda j: rd(self.M, j))
        c = (lambda j: rd(self.c, j)) if len(offs) > 1 else (lambda j: ZERO)
        self.fA, self.fM, self.fc = A, M, c
        k = isym("k")
        d0 = fadd(M(k), fite(le(s, k), fmul(A(k - s), A(k - s), M(k - s)), ZERO))
        u = fmul(A(k), M(k))
        if len(offs) > 1:
            d0 = fadd(d0, fite(le(2 * s, k), fdiv(fmul(c(k - 2 * s), c(k - 2 * s)), M(k - 2 * s)), ZERO))
            u = fadd(u, fite(le(s, k), fmul(c(k - s), A(k - s)), ZERO))
        lam = lambda v, m: mk(ALam, (self._s(k),), v, (P(m),))  # noqa: E731
        self.bands = {0: lam(d0, n)}
        for o in (s, -s):
            self.bands[o] = lam(u, n - s)
        for o in offs[1:]:
            for q in (o, -o):
                self.bands[q] = lam(c(k), n - o)

    @staticmethod
    def _s(k):
        (a,) = P(k).atoms()
        return a

    def candidates(self):
        A, M, c, s = self.fA, self.fM, self.fc, self.s
        fs = [("A[{}]", A), ("c[{0}]/M[{0}]", lambda j: fdiv(c(j), M(j))), ("M[{}]", M), ("A[{0}] M[{0}]", lambda j: fmul(A(j), M(j))),
              ("1/M[{}]", lambda j: fdiv(ONE, M(j))), ("c[{}]", c)]
        for sh in (0, -s, s, -2 * s, 2 * s, -1, 1, -3, 3):
            for nm, f in fs:
                yield nm.format("j%+d" % sh if sh else "j"), (lambda j, f=f, sh=sh: f(j + sh))


def cases(ctx, limit=300):
    """run f on a context, splitting where it asks for it"""
    def run(f):
        stack, n = [ctx], 0
        while stack:
            c = stack.pop()
            if not c.consistent():
                continue
            n += 1
            if n > limit:
                return False
            try:
                if not f(c):
                    q = prove.pinned(c)
                    if q is None:
                        return False
                    stack.append(q)
            except Split as s:
                stack += [c.add(neg(s.cond)), c.add(s.cond)]
            except (Undecided, TooBig):
                return False
        return True
    return run


def leaf_of(x):
    a = x.args[0]
    return (a.args[0], a.args[1])


def leaves_of(divisors):
    """arrays and scalars filled by loops that the divisors depend on: (template, key) -> a state"""
    out, todo = {}, []
    for d, pc, _, _ in divisors:
        def f(c, d=d):
            for x in latoms(resolve(d, c)):
                if leaf_of(x) not in out:
                    out[leaf_of(x)] = (x, c)
            return True
        if not cases(Ctx().add(*pc))(f):
            return None
    # what their iterations read
    todo, seen = list(out), set()
    while todo:
        k = todo.pop()
        if k in seen:
            continue
        seen.add(k)
        x, c0 = out[k]

        def f(c, x=x):
            for y in latoms(unfold(x, c)):
                if leaf_of(y) not in out:
                    out[leaf_of(y)] = (y, c)
                    todo.append(leaf_of(y))
            return True
        if not cases(c0)(f):
            return None
    return out


def at(x, j):
    """cell j of the array of the atom x after the last iteration"""
    a = x.args[0]
    T, key, args = a.args[:3]
    return aread(mk(AState, T, key, args, tlen(T, args)), (P(j),))


def claim_holds(x, f, claims, pc):
    """cells of the leaf written by the loop equal f(cell index), given the claims for cells of earlier iterations"""
    j = isym("j")
    T = x.args[0].args[0]

    def one(c):
        v = resolve(at(x, j), c)
        if not prove.is_latom(v):
            return True  # not written by the loop
        if leaf_of(v) != leaf_of(x):
            return False
        w = unfold(v, c)
        m = {}
        for y in latoms(w):
            g = claims.get(leaf_of(y))
            if g is None:
                return False
            if y.args[0].args[0] is T and c.decide(lt(iteration(y, c), iteration(v, c))) is not True:
                return False
            m[y] = g[1](y.args[1][0])
        d = fadd(replace(w, m, None, c), fneg(f(v.args[1][0])))
        return not prove.prove_zero(d, c)
    return cases(Ctx().add(*pc, le(0, j)))(one)


def find_claims(divisors, ghost, pc, n):
    """invariants of the loops, checked"""
    ls = leaves_of(divisors)
    if ls is None:
        return None
    claims = {}
    big = Ctx().add(*pc, le(24, n))
    for T in sorted({k[0] for k in ls}, key=lambda t: t.uid):
        ks = [k for k in ls if k[0] is T]
        for k in ks:
            x = ls[k][0]
            for nm, f in ghost.candidates():
                js = range(4, 8)
                if all(not prove.prove_zero(fadd(at(x, j), fneg(f(P(j)))), big) for j in js):
                    claims[k] = (nm, f)
                    break
        for k in ks:
            if k not in claims or not claim_holds(ls[k][0], claims[k][1], claims, pc):
                return None
    return claims


def nonzero(d, pc, claims, ghost):
    def one(c):
        t = resolve(d, c)
        m = {}
        for y in latoms(t):
            g = claims.get(leaf_of(y))
            if g is None:
                return False
            m[y] = g[1](y.args[1][0])
        t = resolve(replace(t, m, None, c), c)
        num, _ = prove._num(t, {})
        if len(num.terms) != 1 or num.terms[0][1] == 0:
            return False
        return all(isinstance(a, FRead) and isinstance(a.args[0], ABase) and a.args[0].args[0] == ghost.M.args[0] for a, _ in num.terms[0][0])
    return cases(Ctx().add(*pc))(one)


def positive_definite(S):
    """S^T S = L D L^T with D > 0 for columns (1, b_k, c_k) at rows k, k+s, k+2s; c = 0: two diagonals.

    E = what elimination of the columns before k has subtracted from the entries (k,k), (k,k+s), (k+s,k+s);
    Q = 1 - (the corresponding quadratic form in the rows k, k+s).  Invariant: Q positive definite."""
    sc = lambda nm: aread(mk(ABase, nm, "F", (P(1),)), (P(0),))  # noqa: E731
    E11, E12, E22, b, c, b1, M = (sc(x) for x in ("E11", "E12", "E22", "bk", "ck", "bks", "Mk"))
    sq = lambda x: fmul(x, x)  # noqa: E731
    sub = lambda x, y: fadd(x, fneg(y))  # noqa: E731

    def q(e11, e12, e22, bb):
        return (sub(ONE, fadd(e11, fmul(fc(-2), bb, e12), fmul(bb, bb, e22))), sub(fmul(bb, e22), e12), sub(ONE, e22))

    Q11, Q12, Q22 = q(E11, E12, E22, b)
    det = sub(fmul(Q11, Q22), sq(Q12))
    Mk = sub(fadd(ONE, sq(b), sq(c)), E11)
    A = fdiv(sub(fadd(b, fmul(c, b1)), E12), M)
    n11, n12, n22 = fadd(E22, fmul(A, A, M)), fmul(A, c), fdiv(sq(c), M)
    R11, R12, R22 = q(n11, n12, n22, b1)
    t = fadd(Q12, fmul(b, Q22))
    L = "pivots: S^T S is positive definite: "
    S.zero(L + "pivot = (1 b) Q (1 b)^T + c^2", sub(Mk, fadd(Q11, fmul(fc(2), b, Q12), fmul(b, b, Q22), sq(c))))
    S.zero(L + "next Q11", sub(R11, sub(Q22, fdiv(sq(t), M))))
    S.zero(L + "next Q12", fadd(R12, fdiv(fmul(t, c), M)))
    S.zero(L + "next Q22", sub(R22, fdiv(sub(M, sq(c)), M)))
    z = {k: z3.Real(k) for k in ("q11", "q12", "q22", "b", "c", "M", "r11", "r12", "r22")}
    g = z["q12"] + z["b"] * z["q22"]
    # the induction step in two pieces, so that Z3 only sees what it needs
    hyp = [z["q22"] > 0, z["q11"] * z["q22"] - z["q12"] * z["q12"] > 0]
    w = z3.Real("w")  # (1 b) Q (1 b)^T
    steps = [
        ("(1 b) Q (1 b)^T is positive", hyp + [w == z["q11"] + 2 * z["b"] * z["q12"] + z["b"] * z["b"] * z["q22"]], w > 0),
        ("pivot is positive", [w > 0, z["M"] == w + z["c"] * z["c"]], z["M"] > 0),
        ("next Q22 is positive", [w > 0, z["M"] > 0, z["M"] == w + z["c"] * z["c"], z["r22"] * z["M"] == z["M"] - z["c"] * z["c"]],
         z["r22"] > 0),
        ("next determinant is positive", [hyp[1], z["M"] > 0, z["r11"] * z["M"] == z["q11"] * z["q22"] - z["q12"] * z["q12"]], z["r11"] > 0),
    ]
    for nm, hs, goal in steps:
        s = z3.Solver()
        s.set("timeout", 20000)
        s.add(*hs)
        if s.check() != z3.sat:
            S.undec(L + nm, "hypotheses not shown satisfiable")
            continue
        s.add(z3.Not(goal))
        r = s.check()
        if r == z3.unsat:
            S.ok(L + nm, "z3")
        else:
            S.undec(L + nm, str(r))
    # det of the next step times the pivot is det of this one
    nd = sub(fmul(sub(Q22, fdiv(sq(t), Mk)), fdiv(sub(Mk, sq(c)), Mk)), sq(fdiv(fmul(t, c), Mk)))
    S.zero(L + "next determinant times the pivot is the determinant", sub(fmul(nd, Mk), det))
    q0 = q(ZERO, ZERO, ZERO, b)
    S.zero(L + "the first Q is the identity", sub(fadd(q0[0], q0[1], q0[2]), fc(2)))


def pivots(S, name, run):
    """no divisor of the solver vanishes on bands of L D L^T with D > 0"""
    n, offs, I, g = run()
    pc = I.pc
    seen = set()
    try:
        claims = find_claims(I.divisors, g, pc, n)
    except prove.Deadline:
        claims = None
    if claims:
        S.ok(f"{name}: loop invariants of the elimination on bands of L D L^T", "induction over iterations")
    for d, dpc, line, fn in I.divisors:
        if (d, dpc) in seen:
            continue
        seen.add((d, dpc))
        nm = f"{name}: {fn}:{line} divisor is a product of pivots"
        try:
            r = claims is not None and nonzero(d, dpc, claims, g)
        except prove.Deadline:
            r = False
        if r:
            S.ok(nm, "exact polynomial identity")
        else:
            t = f"divisor assumed nonzero at {fn}:{line} (a pivot)"
            if t not in S.trusted:
                S.trusted.append(t)
    return claims
