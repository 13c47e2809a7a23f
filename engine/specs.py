"""Contracts.  Each function `Cxx(S)` states the property over the functions of the
crate and asks the session to discharge the resulting obligations."""
from session import *
from builtins_rs import method_val, static_call
import lemmas
import specs_pivot

# name of the constructor: (offsets of the stencil, size difference, smallest n, smallest n for conversions)
COMPO = {
    "dirichlet": ((0, 2), 2, 4, 5),
    "neumann": ((0, 2), 2, 4, 5),
    "dirichlet_neumann": ((0, 1, 2), 2, 4, 6),
    "biharmonic_a": ((0, 2, 4), 4, 8, 10),
    "biharmonic_b": ((0, 2, 4), 4, 8, 10),
}


def fint_(x):
    return fint(P(x))


def base_arr(name, sort, *dims):
    return mk(ABase, name, sort, tuple(P(d) for d in dims))


def ref(I, v):
    return Ref(Place(I.new(v)))


def construct(I, ctor, n, ty="ChebyshevComposite"):
    fs = I.crate.methods.get(ty, {}).get(ctor)
    if not fs:
        raise Unsupported(f"{ty}::{ctor} not found")
    return I.call(fs[0], None, [n], {"Self": Ty(ty, [Ty("A")]), "A": Ty("A")})


def call(I, obj, name, *args):
    r = obj if isinstance(obj, (Ref, View)) else ref(I, obj)
    return method_val(I, r, name, [P(a) if isinstance(a, int) and not isinstance(a, bool) else a for a in args], None)


def out_of(I, r):
    return I.store[r.place.cell]


def reads(a, *idx):
    return aread(a, tuple(P(i) for i in idx))


def within(i, n):
    return (le(0, i), lt(i, n))


def run_vec(I, obj, name, inp, outn, outsort, *more):
    """call a slice-to-slice operation; returns (input after, output)"""
    ri, ro = ref(I, inp), ref(I, base_arr(fresh("old"), outsort, outn))
    call(I, obj, name, ri, ro, *more)
    return out_of(I, ri), out_of(I, ro)


def dims_are(S, name, a, dims, *pc):
    d = adims(a)
    if len(d) != len(dims):
        S.fail(name, f"{len(d)} dimensions instead of {len(dims)}")
        return
    S.holds(name, conj(*[eq(x, y) for x, y in zip(d, dims)]), *pc)


# --------------------------------------------------------------------- C01
def documented(ctor, k):
    """coefficients of T_(k+off) in phi_k given in the documentation / literature"""
    K = lambda c: fint(k + c)
    sq = lambda x: fmul(x, x)
    if ctor == "dirichlet":
        return {0: ONE, 2: fc(-1)}
    if ctor == "neumann":
        return {0: ONE, 2: fneg(fdiv(sq(K(0)), sq(K(2))))}
    if ctor == "dirichlet_neumann":
        den = fadd(sq(K(1)), sq(K(2)))
        return {0: ONE, 1: fdiv(fsub(sq(K(2)), sq(K(0))), den), 2: fdiv(fsub(fneg(sq(K(0))), sq(K(1))), den)}
    if ctor == "biharmonic_a":
        return {0: ONE, 2: fdiv(fmul(fc(-2), K(2)), K(3)), 4: fdiv(K(1), K(3))}
    k2 = fint(k * k * 2)
    den = fmul(K(3), fadd(fc(19), fmul(fint(2 * k), fint(6 + k))))
    return {0: ONE, 2: fdiv(fmul(fc(-2), K(2), fadd(fc(15), fmul(fint(2 * k), fint(k + 4)))), den),
            4: fdiv(fmul(K(1), fadd(fc(3), fmul(fint(2 * k), fint(k + 2)))), den)}


def composite(S, ctor, minn=None):
    offs, dm, nmin, nsolve = COMPO[ctor]
    n = isym("n")
    I = S.interp((le(minn if minn is not None else nmin, n), le(n, 2 ** 15)))
    o = construct(I, ctor, n)
    return I, o, n, n - dm, offs


def C01(S):
    for ctor in COMPO:
        S.group(ctor, lambda ctor=ctor: c01_one(S, ctor))
    S.contracts += [
        "stencil(): shape (n, m); entry (i, k) is zero unless i-k is one of the base's offsets; entries are the documented coefficients (leading coefficient 1)",
        "to_ortho_slice(v, u): for all i < n: u[i] = sum over offsets o with 0 <= i-o < m of S[i, i-o] v[i-o]; v unchanged; u of length n",
    ]


def c01_one(S, ctor):
    I, o, n, m, offs = composite(S, ctor)
    pc = I.pc
    A = call(I, o, "stencil")
    A = I.snapshot(A)
    S.sat(f"{ctor}: precondition", *pc)
    dims_are(S, f"{ctor}: shape of stencil()", A, (n, m), *pc)
    i, k = isym("i"), isym("k")
    doc = documented(ctor, k)
    for off in offs:
        S.equal(f"{ctor}: S[k+{off},k] is the documented coefficient", reads(A, k + off, k), doc[off], *pc, *within(k, m))
    S.zero(f"{ctor}: S is zero off its diagonals", reads(A, i, k), *pc, *within(i, n), *within(k, m),
           *[neg(eq(i, k + off)) for off in offs])
    for sort in ("F", "C"):
        v = base_arr("v", sort, m)
        vin, u = run_vec(I, o, "to_ortho_slice", v, n, sort)
        if vin is v:
            S.ok(f"{ctor}: input of to_ortho is unchanged ({sort})", "syntactic (interned terms)")
        else:
            S.fail(f"{ctor}: input of to_ortho is unchanged ({sort})", "the input array is written")
        s = ZERO if sort == "F" else cx(ZERO, ZERO)
        for off in offs:
            t = I.binop("*", reads(v, i - off), reads(A, i, i - off), None)
            t = vite(conj(le(off, i), lt(i - off, m)), t, ZERO)
            s = I.binop("+", s, t, None)
        S.equal(f"{ctor}: to_ortho is the stencil product ({sort})", reads(u, i), s, *pc, *within(i, n))
    S.side(I, ctor)


# --------------------------------------------------------------------- C02
SOLVERS = {"tdma": ((2,), 3), "pdma": ((1, 2), 4), "pdma2": ((2, 4), 6)}
SOLVERS.update({k + "_checked": v for k, v in SOLVERS.items()})


def solvers(S):
    """the solvers, and their bounds-checked twins where there are any"""
    return [k for k in SOLVERS if not k.endswith("_checked") or S.crate.free.get(k)]


def band_call(S, name, args, I):
    """check a call of a banded solver against its contract and record bands and right-hand side"""


def prove_solver(S, name):
    """contract of a banded solver, on its real body: A x = rhs, bands unchanged"""
    offs, minn = SOLVERS[name]
    fs = S.crate.free.get(name)
    if not fs:
        raise Unsupported(f"{name} not found")
    n = isym("n")
    I = S.interp((le(minn, n),))
    all_o = [-k for k in reversed(offs)] + [0] + list(offs)
    arrs = [base_arr("b%d" % o, "F", n - abs(o)) for o in all_o]
    rhs = base_arr("rhs", "F", n)
    rs = [ref(I, a) for a in arrs]
    rr = ref(I, rhs)
    I.call(fs[0], None, rs + [rr], {})
    x = out_of(I, rr)
    i = isym("i")
    terms = [fneg(reads(rhs, i))]
    for o, a in zip(all_o, arrs):
        if o < 0:
            terms.append(fite(le(-o, i), fmul(reads(a, i + o), reads(x, i + o)), ZERO))
        elif o == 0:
            terms.append(fmul(reads(a, i), reads(x, i)))
        else:
            terms.append(fite(lt(i + o, n), fmul(reads(a, i), reads(x, i + o)), ZERO))
    S.zero(f"{name}: A x = rhs", fadd(*terms), le(minn, n), *within(i, n))
    for r, a, o in zip(rs, arrs, all_o):
        if out_of(I, r) is a:
            S.ok(f"{name}: band {o} unchanged", "syntactic (interned terms)")
        else:
            S.fail(f"{name}: band {o} unchanged", "written")
    S.side(I, name, divisors=False)


def solver_pivots(S, name):
    """the divisors of the solver, on bands of L D L^T with D > 0"""
    offs, minn = SOLVERS[name]

    def run():
        n = isym("n")
        I = S.interp((le(minn, n),))
        g = specs_pivot.Ghost(offs, n, base_arr)
        rs = [ref(I, g.bands[o]) for o in [-k for k in reversed(offs)] + [0] + list(offs)]
        I.call(S.crate.free[name][0], None, rs + [ref(I, base_arr("rhs", "F", n))], {})
        return n, offs, I, g
    if not S.crate.free.get(name):
        raise Unsupported(f"{name} not found")
    specs_pivot.pivots(S, name, run)


def solver_contract(log, name):
    offs, minn = SOLVERS[name]
    all_o = [-k for k in reversed(offs)] + [0] + list(offs)

    def c(I, fn, selfv, args, tenv, node):
        if len(args) != len(all_o) + 1:
            raise Unsupported(f"arguments of {name}")
        bands = {o: I.snapshot(a) for o, a in zip(all_o, args)}
        w = I.as_view(args[-1])
        rhs = I.snapshot(w)
        n = w.dims[0]
        I.ob("pre", le(minn, n), node, f"{name} needs at least {minn} rows")
        for o in all_o:
            I.ob("pre", le(n - abs(o), adims(bands[o])[0]), node, f"length of band {o} of {name}")
        x = mk(ABase, fresh("x"), asort(rhs), (n,))
        I.assign_view(w, x)
        log.append((name, bands, rhs, x, n))
        return UNIT
    return c


def C02(S):
    for name in solvers(S):
        S.group(name, lambda name=name: prove_solver(S, name))
        S.group(name + " pivots", lambda name=name: solver_pivots(S, name))
    S.group("pivots", lambda: specs_pivot.positive_definite(S))
    for ctor in COMPO:
        S.group(ctor, lambda ctor=ctor: c02_one(S, ctor))
    S.contracts += [
        "tdma/pdma/pdma2(bands, x): on return A x = x_old for the banded matrix A of the bands, bands unchanged",
        "tdma/pdma/pdma2, bands those of L D L^T with D = diag(M), M > 0: every divisor is a product of cells of M",
        "lemma: S^T S with columns (1, b_k, c_k) of S has such a factorisation (M, A defined by the recurrences of the elimination; M > 0 by induction)",
        "from_ortho_slice(u, v): calls exactly one solver, with bands = the diagonals of S^T S entrywise and right-hand side S^T u; v is its result; u unchanged",
    ]

def c02_one(S, ctor):
    offs, dm, nmin, nsolve = COMPO[ctor]
    log = []
    n = isym("n")
    I = S.interp((le(nsolve, n), le(n, 2 ** 15)), {k: solver_contract(log, k) for k in SOLVERS})
    o = construct(I, ctor, n)
    m = n - dm
    pc = I.pc
    A = I.snapshot(call(I, o, "stencil"))
    i = isym("i")
    # what the pivots depend on: the columns of S are 1, b, c at the offsets and nothing else
    r = isym("r")
    S.zero(f"{ctor}: S is zero off its diagonals", reads(A, r, i), *pc, *within(r, n), *within(i, m), *[neg(eq(r, i + off)) for off in offs])
    S.equal(f"{ctor}: leading coefficient is one", reads(A, i, i), ONE, *pc, *within(i, m))
    for sort in ("F", "C"):
        del log[:]
        u = base_arr("u", sort, n)
        uin, v = run_vec(I, o, "from_ortho_slice", u, m, sort)
        if len(log) != 1:
            S.undec(f"{ctor}: one banded solve ({sort})", f"{len(log)} calls of a banded solver")
            continue
        name, bands, rhs, x, nn = log[0]
        S.holds(f"{ctor}: size of the system ({sort})", eq(nn, m), *pc)
        S.equal(f"{ctor}: result of the solve is the output ({sort})", reads(v, i), reads(x, i), *pc, *within(i, m))
        if uin is not u:
            S.fail(f"{ctor}: input unchanged ({sort})", "the input array is written")
        else:
            S.ok(f"{ctor}: input unchanged ({sort})", "syntactic (interned terms)")
        # right-hand side
        s = ZERO if sort == "F" else cx(ZERO, ZERO)
        for off in offs:
            s = I.binop("+", s, I.binop("*", reads(u, i + off), reads(A, i + off, i), None), None)
        S.equal(f"{ctor}: right-hand side is S^T u ({sort})", reads(rhs, i), s, *pc, *within(i, m))
        # matrix
        covered = set(bands)
        need = {a - b for a in offs for b in offs}
        for d in sorted(need | covered):
            g = ZERO
            for a in offs:
                b = a - d  # (S^T S)[i, i+d] = sum_r S[r,i] S[r,i+d]
                if b in offs:
                    g = fadd(g, fmul(reads(A, i + a, i), reads(A, i + a, i + d)))
            if d in covered:
                p = i if d >= 0 else i + d
                S.equal(f"{ctor}: band {d} is the diagonal of S^T S ({sort})", reads(bands[d], p), g,
                        *pc, *within(i, m), *within(i + d, m))
            else:
                S.zero(f"{ctor}: S^T S has no diagonal {d} ({sort})", g, *pc, *within(i, m), *within(i + d, m))
    S.side(I, ctor)


# --------------------------------------------------------------------- C03
def C03(S):
    for ctor in COMPO:
        S.group(ctor, lambda ctor=ctor: c03_one(S, ctor))
    S.contracts += ["stencil(): for every column k the boundary functionals of the base vanish on sum_off S[k+off,k] T_(k+off)"]
    S.group("lemmas", lambda: lemmas.check(S, "Chebyshev", ["T_right", "T_left", "dT_right", "dT_left", "ddT_right", "ddT_left", "field_vanishes"]))


def c03_one(S, ctor):
    I, o, n, m, offs = composite(S, ctor)
    pc = I.pc
    A = I.snapshot(call(I, o, "stencil"))
    k = isym("k")
    cond = (*pc, *within(k, m))
    i = isym("i")
    S.zero(f"{ctor}: columns have no entries off the offsets", reads(A, i, k), *cond, *within(i, n),
           *[neg(eq(i, k + off)) for off in offs])

    def fun(order, end):
        t = []
        for off in offs:
            j = k + off
            w = {0: P(1), 1: j * j, 2: j * j * (j * j - 1)}[order]
            # common sign (-1)^k of the left end is dropped
            sg = 1 if end > 0 else (-1) ** (off + (1 if order == 1 else 0))
            t.append(fmul(fc(sg), fint(w), reads(A, j, k)))
        return fadd(*t)

    need = {"dirichlet": [(0, 1), (0, -1)], "neumann": [(1, 1), (1, -1)], "dirichlet_neumann": [(0, -1), (1, 1)],
            "biharmonic_a": [(0, 1), (0, -1), (1, 1), (1, -1)], "biharmonic_b": [(0, 1), (0, -1), (2, 1), (2, -1)]}[ctor]
    for order, end in need:
        S.zero(f"{ctor}: derivative {order} of phi_k at x={end} vanishes", fun(order, end), *cond)
    # not the zero function
    S.equal(f"{ctor}: leading coefficient is one", reads(A, k, k), ONE, *cond)
    S.side(I, ctor)


# --------------------------------------------------------------------- C04
def C04(S):
    for ctor in COMPO:
        S.group(ctor, lambda ctor=ctor: c04_one(S, ctor))
    for ty in ("Chebyshev", "FourierC2c", "FourierR2c"):
        S.group(ty, lambda ty=ty: c04_ortho(S, ty))
    S.contracts += ["stencil_inv(): shape (m, n); sum_off P[i,k+off] S[k+off,k] = (i == k) for all i, k < m"]


def c04_one(S, ctor):
    I, o, n, m, offs = composite(S, ctor)
    pc = I.pc
    A = I.snapshot(call(I, o, "stencil"))
    B_ = I.snapshot(call(I, o, "stencil_inv"))
    i, k = isym("i"), isym("k")
    dims_are(S, f"{ctor}: shape of stencil_inv()", B_, (m, n), *pc)
    r = isym("r")
    S.zero(f"{ctor}: S is zero off its diagonals", reads(A, r, k), *pc, *within(r, n), *within(k, m),
           *[neg(eq(r, k + off)) for off in offs])
    t = fadd(*[fmul(reads(B_, i, k + off), reads(A, k + off, k)) for off in offs], fite(eq(i, k), fc(-1), ZERO))
    S.zero(f"{ctor}: P S = I", t, *pc, *within(i, m), *within(k, m))
    S.side(I, ctor)


def c04_ortho(S, ty):
    n = isym("n")
    I = S.interp((le(2, n), le(n, 2 ** 15)))
    o = construct(I, "new", n, ty)
    m = I.int_(call(I, o, "len_spec"))
    i, k = isym("i"), isym("k")
    for name in ("stencil", "stencil_inv"):
        A = I.snapshot(call(I, o, name))
        dims_are(S, f"{ty}: shape of {name}()", A, (m, m), *I.pc)
        S.equal(f"{ty}: {name}() is the identity", reads(A, i, k), fite(eq(i, k), ONE, ZERO), *I.pc, *within(i, m), *within(k, m))
    S.side(I, ty)


# --------------------------------------------------------------------- C05
def cheb(S, lo=2, hi=2 ** 15, contracts=None, extra=()):
    n = isym("n")
    I = S.interp((le(lo, n), le(n, hi), *extra), contracts)
    return I, construct(I, "new", n, "Chebyshev"), n


def inside(a, n, p, q):
    """a[p, q], zero outside the n x n matrix"""
    return vite(conj(le(0, p), lt(p, n), le(0, q), lt(q, n)), reads(a, p, q), ZERO)


def C05(S):
    for k in (1, 2, 3, 4):
        S.group(f"order {k}", lambda k=k: c05_one(S, k))
    S.group("laplacian", lambda: c05_lap(S))
    for ctor in COMPO:
        S.group(ctor, lambda ctor=ctor: c05_compo(S, ctor))
    S.contracts += [
        "Chebyshev::diffmat(k), k = 1..4: shape (n, n); for all 1 <= p <= n, q < n: "
        "c_(p-1) D_k[p-1,q] - D_k[p+1,q] = 2 p D_(k-1)[p,q] with D_0 = I and entries outside zero, c_0 = 2, c_j = 1",
        "laplacian() is diffmat(2); composite diffmat(k) is that of its orthogonal base",
    ]
    S.group("lemmas", lambda: lemmas.check(S, "Chebyshev", ["derivative_series", "derivative_matrix"]))


def c05_one(S, k):
    I, o, n = cheb(S)
    pc = I.pc
    D = I.snapshot(call(I, o, "diffmat", k))
    dims_are(S, f"order {k}: shape", D, (n, n), *pc)
    p, q = isym("p"), isym("q")
    if k == 1:
        prev = vite(conj(eq(p, q), lt(p, n)), ONE, ZERO)
    else:
        prev = inside(I.snapshot(call(I, o, "diffmat", k - 1)), n, p, q)
    c = fite(eq(p, 1), fc(2), ONE)
    S.equal(f"order {k}: recurrence of derivative coefficients",
            fsub(fmul(c, inside(D, n, p - 1, q)), inside(D, n, p + 1, q)), fmul(fint(2 * p), prev),
            *pc, le(1, p), le(p, n), *within(q, n))
    S.side(I, f"order {k}")


def c05_lap(S):
    I, o, n = cheb(S)
    D, L = I.snapshot(call(I, o, "diffmat", 2)), I.snapshot(call(I, o, "laplacian"))
    p, q = isym("p"), isym("q")
    dims_are(S, "laplacian: shape", L, (n, n), *I.pc)
    S.equal("laplacian() is diffmat(2)", reads(L, p, q), reads(D, p, q), *I.pc, *within(p, n), *within(q, n))
    S.side(I, "laplacian")


def c05_compo(S, ctor):
    I, o, n, m, offs = composite(S, ctor)
    oo = construct(I, "new", n, "Chebyshev")
    p, q = isym("p"), isym("q")
    for k in (1, 2, 3, 4):
        D, E = I.snapshot(call(I, o, "diffmat", k)), I.snapshot(call(I, oo, "diffmat", k))
        dims_are(S, f"{ctor}: shape of diffmat({k})", D, (n, n), *I.pc)
        S.equal(f"{ctor}: diffmat({k}) is the orthogonal one", reads(D, p, q), reads(E, p, q), *I.pc, *within(p, n), *within(q, n))
    D, E = I.snapshot(call(I, o, "laplacian")), I.snapshot(call(I, oo, "diffmat", 2))
    S.equal(f"{ctor}: laplacian is diffmat(2)", reads(D, p, q), reads(E, p, q), *I.pc, *within(p, n), *within(q, n))
    S.side(I, ctor)


# --------------------------------------------------------------------- C06
def C06(S):
    for k in (1, 2, 3, 4):
        S.group(f"order {k}", lambda k=k: c06_one(S, k))
    S.group("laplacian", lambda: c06_lap(S))
    for ctor in COMPO:
        S.group(ctor, lambda ctor=ctor: c06_compo(S, ctor))
    S.contracts += [
        "Chebyshev::diffmat_pinv(k) = (P, E), n > k: P is zero off the diagonals -k, -k+2, ..., k; "
        "sum_off P[i,i+off] D_k[i+off,j] = (i == j and i >= k); E has shape (n-k, n) and E[i,j] = (j == i+k)",
        "laplacian_pinv() is diffmat_pinv(2); composite bases return the pair of their orthogonal base",
    ]


def pair(I, v):
    a, b = v.xs
    return I.snapshot(a), I.snapshot(b)


def c06_one(S, k):
    I, o, n = cheb(S, k + 1)
    pc = I.pc
    P_, E = pair(I, call(I, o, "diffmat_pinv", k))
    D = I.snapshot(call(I, o, "diffmat", k))
    dims_are(S, f"order {k}: shape of the pseudoinverse", P_, (n, n), *pc)
    dims_are(S, f"order {k}: shape of the pseudo-identity", E, (n - k, n), *pc)
    i, j = isym("i"), isym("j")
    offs = range(-k, k + 1, 2)
    S.zero(f"order {k}: pseudoinverse is banded", reads(P_, i, j), *pc, *within(i, n), *within(j, n),
           *[neg(eq(j, i + o)) for o in offs])
    t = fadd(*[fmul(inside(P_, n, i, i + o), inside(D, n, i + o, j)) for o in offs],
             fite(conj(eq(i, j), le(k, i)), fc(-1), ZERO))
    S.zero(f"order {k}: D_pinv D = identity without its first {k} rows", t, *pc, *within(i, n), *within(j, n))
    S.equal(f"order {k}: pseudo-identity", reads(E, i, j), fite(eq(j, i + k), ONE, ZERO), *pc, *within(i, n - k), *within(j, n))
    S.side(I, f"order {k}")


def same_pair(S, I, name, a, b, n, k):
    i, j = isym("i"), isym("j")
    dims_are(S, f"{name}: shape of D_pinv", a[0], (n, n), *I.pc)
    dims_are(S, f"{name}: shape of I_pinv", a[1], (n - k, n), *I.pc)
    S.equal(f"{name}: D_pinv", reads(a[0], i, j), reads(b[0], i, j), *I.pc, *within(i, n), *within(j, n))
    S.equal(f"{name}: I_pinv", reads(a[1], i, j), reads(b[1], i, j), *I.pc, *within(i, n - k), *within(j, n))


def c06_lap(S):
    I, o, n = cheb(S, 3)
    same_pair(S, I, "laplacian_pinv is diffmat_pinv(2)", pair(I, call(I, o, "laplacian_pinv")),
              pair(I, call(I, o, "diffmat_pinv", 2)), n, 2)
    S.side(I, "laplacian_pinv")


def c06_compo(S, ctor):
    I, o, n, m, offs = composite(S, ctor, 5 if COMPO[ctor][1] == 2 else None)
    oo = construct(I, "new", n, "Chebyshev")
    for k in (1, 2, 3, 4):
        same_pair(S, I, f"{ctor}: order {k}", pair(I, call(I, o, "diffmat_pinv", k)), pair(I, call(I, oo, "diffmat_pinv", k)), n, k)
    same_pair(S, I, f"{ctor}: laplacian", pair(I, call(I, o, "laplacian_pinv")), pair(I, call(I, oo, "diffmat_pinv", 2)), n, 2)
    S.side(I, ctor)


# --------------------------------------------------------------------- C07
def paths(S, I, run, label):
    """execute under every decision; paths that panic become obligations.  -> [(pc, result, store)]"""
    pc0 = I.pc
    out = []
    for pc, res, st, exc in I.enumerate(run):
        if isinstance(exc, Panic):
            I.panic_ob(conj(*pc[len(pc0):]), exc)
            continue
        if exc is not None:
            raise Unsupported(f"{type(exc).__name__} leaves {label}")
        out.append((pc, res, st))
    if not out:
        raise Panic("every path panics", None)
    return out


def sym_iter(I, name="N"):
    """a symbolic repetition count that loops may take as a parameter"""
    N = isym(name)
    I.bound.append(next(iter(fv(N))) if not isinstance(N, ISym) else N)
    return P(N)


def gradient_paths(S, I, o, sort, m, lin, label):
    """[(pc, input before, input after, output)] of gradient_slice with symbolic count N"""
    N = sym_iter(I)
    I.pc = I.pc + (le(0, N),)
    v = base_arr("v", sort, lin)

    def run():
        return run_vec(I, o, "gradient_slice", v, m, sort, N)

    return N, v, [(pc, r[0], r[1]) for pc, r, st in paths(S, I, run, label)]


def C07(S):
    for sort in ("F", "C"):
        S.group(f"chebyshev {sort}", lambda sort=sort: c07_ortho(S, sort))
        for ctor in COMPO:
            S.group(f"{ctor} {sort}", lambda ctor=ctor, sort=sort: c07_compo(S, ctor, sort))
    S.contracts += [
        "Chebyshev::gradient_slice(v, out, N): N = 0: out = v; with out_N the result for count N, for all N >= 0 and 1 <= p <= m: "
        "c_(p-1) out_(N+1)[p-1] - out_(N+1)[p+1] = 2 p out_N[p] (entries outside zero); hence out_N = D^N v by induction",
        "ChebyshevComposite::gradient_slice(v, out, N): calls the orthogonal gradient once, with count N, on to_ortho(v), and returns its result",
    ]
    S.group("lemmas", lambda: lemmas.check(S, "Chebyshev", ["derivative_series", "derivative_iterate"]))


def unchanged(S, name, after, before):
    if after is before:
        S.ok(name, "syntactic (interned terms)")
    else:
        S.fail(name, "the input array is written")


def c07_ortho(S, sort):
    I, o, n = cheb(S)
    N, v, ps = gradient_paths(S, I, o, sort, n, n, "gradient_slice")
    p = isym("p")

    def rd(a, i):
        return vite(conj(le(0, i), lt(i, n)), reads(a, i), ZERO)

    nsub = {next(iter(fv(N))): N + 1}
    z = {next(iter(fv(N))): P(0)}
    for a, (pa, ia, A) in enumerate(ps):
        unchanged(S, f"path {a}: input unchanged ({sort})", ia, v)
        dims_are(S, f"path {a}: length ({sort})", A, (n,), *pa)
        c0 = [subst(c, z) for c in pa]
        if Ctx().add(*c0).consistent():
            S.equal(f"path {a}: count 0 is the identity ({sort})", reads(subst(A, z), p), reads(v, p), *c0, *within(p, n))
        for b, (pb, ib, B_) in enumerate(ps):
            c1 = [subst(c, nsub) for c in pb]
            if not Ctx().add(*pa, *c1).consistent():
                continue
            Bn = subst(B_, nsub)
            c = fite(eq(p, 1), fc(2), ONE)
            lhs = I.binop("-", I.binop("*", rd(Bn, p - 1), c, None), rd(Bn, p + 1), None)
            rhs = I.binop("*", rd(A, p), fint(2 * p), None)
            S.equal(f"paths {a},{b}: one more derivative ({sort})", lhs, rhs, *pa, *c1, le(1, p), le(p, n))
    S.side(I, f"chebyshev {sort}")


def grad_contract(log):
    def c(I, fn, selfv, args, tenv, node):
        w = I.as_view(args[1])
        a = I.snapshot(args[0])
        I.ob("pre", conj(eq(adims(a)[0], w.dims[0])), node, "lengths of the orthogonal gradient")
        r = mk(ABase, fresh("grad"), asort(a), tuple(w.dims))
        I.assign_view(w, r)
        log.append((selfv, a, args[2], r))
        return UNIT
    return c


def c07_compo(S, ctor, sort):
    offs, dm, nmin, nsolve = COMPO[ctor]
    log = []
    I, o, n, m, offs = composite(S, ctor)
    I.contracts["Chebyshev::gradient_slice"] = grad_contract(log)
    N = isym("N")
    I.pc = I.pc + (le(0, N),)
    v = base_arr("v", sort, m)
    vin, out = run_vec(I, o, "gradient_slice", v, n, sort, P(N))
    unchanged(S, f"{ctor}: input unchanged ({sort})", vin, v)
    if len(log) != 1:
        S.undec(f"{ctor}: one orthogonal gradient", f"{len(log)} calls")
        return
    sv, a, cnt, r = log[0]
    i = isym("i")
    S.equal(f"{ctor}: result of the orthogonal gradient is returned ({sort})", reads(out, i), reads(r, i), *I.pc, *within(i, n))
    S.holds(f"{ctor}: derivative count is passed on ({sort})", eq(I.int_(cnt), N), *I.pc)
    S.holds(f"{ctor}: size of the orthogonal base ({sort})", eq(I.int_(call(I, sv, "len_orth")), n), *I.pc)
    _, u = run_vec(I, o, "to_ortho_slice", v, n, sort)
    S.equal(f"{ctor}: input of the orthogonal gradient is to_ortho(v) ({sort})", reads(a, i), reads(u, i), *I.pc, *within(i, n))
    S.side(I, ctor)


# --------------------------------------------------------------------- C08
def app(name, a, n, dims, sort):
    return mk(AApp, name, (a, P(n)), tuple(P(d) for d in dims), sort)


def lam(n, f):
    s = mk(ISym, fresh("l"))
    return mk(ALam, (s,), f(P(s)), (P(n),))


def alternatives(S, name, actual, forms, *conds):
    """the obligation holds if actual equals one of several forms of the same mathematical object"""
    keep = (S.obligations, S.discharged, len(S.failed), len(S.undecided), len(S.names), dict(S.backends))
    first = None
    for k, e in enumerate(forms):
        if S.equal(name, actual, e, *conds):
            return True
        if first is None:
            first = (S.obligations, S.discharged, list(S.failed), list(S.undecided), list(S.names), dict(S.backends))
        if k + 1 < len(forms):
            S.obligations, S.discharged = keep[0], keep[1]
            del S.failed[keep[2]:]
            del S.undecided[keep[3]:]
            del S.names[keep[4]:]
            S.backends = dict(keep[5])
    S.obligations, S.discharged, S.failed, S.undecided, S.names, S.backends = first
    return False


def sgn(k):
    """(-1)^k"""
    return fite(eq(imod(k, 2), 0), ONE, fc(-1))


def C08(S):
    S.group("forward", lambda: c08_fwd(S))
    S.group("backward", lambda: c08_bwd(S))
    S.group("grid", lambda: c13_cheb(S, "Chebyshev", None))
    S.contracts += [
        "Chebyshev::forward_slice(v, c), n >= 2: c_k = w_k 2/(n-1) sum''_j v_j cos(pi k (n-1-j)/(n-1)), w_k = 1/2 for k in {0, n-1}, else 1 "
        "(the summation is the DCT-I of rustdct; every summand is compared)",
        "Chebyshev::backward_slice(c, v): v_j = sum_k c_k (-1)^k cos(pi k j/(n-1)) = sum_k c_k T_k(x_j), summands compared",
        "coords(): x_j = -cos(pi j/(n-1))",
    ]
    S.assumptions += [
        "rustdct computes the DCT-I  X_k = x_0/2 + (-1)^k x_(n-1)/2 + sum_j x_j cos(pi j k/(n-1)) of its buffer (external, trusted)",
    ]
    S.group("lemmas", lambda: lemmas.check(S, "Cosine"))


def c08_io(S, which):
    I, o, n = cheb(S)
    v = base_arr("v", "F", n)
    vin, out = run_vec(I, o, which, v, n, "F")
    unchanged(S, f"{which}: input unchanged", vin, v)
    dims_are(S, f"{which}: length", out, (n,), *I.pc)
    return I, n, v, out


def c08_fwd(S):
    I, n, v, out = c08_io(S, "forward_slice")
    k = isym("k")
    end = disj(eq(k, 0), eq(k, n - 1))
    w = fite(end, fc(Fraction(1, 2)), ONE)
    s = fdiv(fc(2), fint(n - 1))
    b1 = lam(n, lambda j: fmul(s, reads(v, n - 1 - j)))
    b2 = lam(n, lambda j: fmul(s, reads(v, j)))
    e1 = fmul(w, reads(app("dct1", b1, n, (n,), "F"), k))
    e2 = fmul(w, sgn(k), reads(app("dct1", b2, n, (n,), "F"), k))
    alternatives(S, "forward: coefficients are the weighted cosine sums", reads(out, k), (e1, e2), *I.pc, *within(k, n))
    S.side(I, "forward_slice")


def c08_bwd(S):
    I, n, c, out = c08_io(S, "backward_slice")
    i = isym("i")
    two = lambda k: fite(disj(eq(k, 0), eq(k, n - 1)), fc(2), ONE)
    b1 = lam(n, lambda k: fmul(two(k), sgn(k), reads(c, k)))
    b2 = lam(n, lambda k: fmul(two(k), reads(c, k)))
    e1 = reads(app("dct1", b1, n, (n,), "F"), i)
    e2 = reads(app("dct1", b2, n, (n,), "F"), n - 1 - i)
    alternatives(S, "backward: values are the Chebyshev series at the grid points", reads(out, i), (e1, e2), *I.pc, *within(i, n))
    S.side(I, "backward_slice")


# --------------------------------------------------------------------- C13
def c13_cheb(S, ty, ctor):
    if ctor is None:
        I, o, n = cheb(S, 2, 10 ** 9)
    else:
        I, o, n, m, offs = composite(S, ctor)
    x = I.snapshot(call(I, o, "coords"))
    j = isym("j")
    lab = ctor or ty
    dims_are(S, f"{lab}: number of coordinates", x, (n,), *I.pc)
    pi = fsym("pi")
    ref_ = lambda j: fneg(fapp("cos", fdiv(fmul(pi, fint(j)), fint(n - 1))))
    S.equal(f"{lab}: x_j = -cos(pi j/(n-1))", reads(x, j), ref_(j), *I.pc, *within(j, n))
    S.zero(f"{lab}: antisymmetric", fadd(reads(x, j), reads(x, n - 1 - j)), *I.pc, *within(j, n))
    S.side(I, lab)


def c13_fourier(S, ty):
    n = isym("n")
    I = S.interp((le(1, n), le(n, 10 ** 9)))
    o = construct(I, "new", n, ty)
    x = I.snapshot(call(I, o, "coords"))
    j = isym("j")
    dims_are(S, f"{ty}: number of coordinates", x, (n,), *I.pc)
    S.equal(f"{ty}: x_j = 2 pi j/n", reads(x, j), fdiv(fmul(fc(2), fsym("pi"), fint(j)), fint(n)), *I.pc, *within(j, n))
    S.side(I, ty)


def C13(S):
    S.group("chebyshev", lambda: c13_cheb(S, "Chebyshev", None))
    for ctor in COMPO:
        S.group(ctor, lambda ctor=ctor: c13_cheb(S, "ChebyshevComposite", ctor))
    for ty in ("FourierC2c", "FourierR2c"):
        S.group(ty, lambda ty=ty: c13_fourier(S, ty))
    S.contracts += ["coords(): length n; x_j = -cos(pi j/(n-1)) resp. 2 pi j/n for every j < n"]
    S.group("lemmas", lambda: lemmas.check(S, "Points"))


# --------------------------------------------------------------------- C09
def abs_call(name, inp, outp, extra=(), log=None):
    """contract that only says: the result is a function of the input array (and the extra arguments)"""
    def c(I, fn, selfv, args, tenv, node):
        w = I.as_view(args[outp])
        ins = tuple(I.snapshot(args[i]) for i in inp)
        ex = tuple(I.int_(args[i]) for i in extra)
        r = mk(AApp, name, ins + ex, tuple(w.dims), asort(w_arr(I, args[outp])))
        if log is not None:
            log.append((name, selfv, ins, ex, tuple(w.dims), tuple(I.pc), fn.path))
        I.assign_view(w, r)
        return UNIT
    return c


def w_arr(I, r):
    return I.snapshot(r)


def abs_solver(name):
    offs, minn = SOLVERS[name]
    k = 2 * len(offs) + 1

    def c(I, fn, selfv, args, tenv, node):
        w = I.as_view(args[-1])
        ins = tuple(I.snapshot(a) for a in args)
        I.ob("pre", le(minn, w.dims[0]), node, f"{name} needs at least {minn} rows")
        I.assign_view(w, mk(AApp, "solve:" + name.replace("_checked", ""), ins, tuple(w.dims), asort(ins[-1])))
        return UNIT
    return c


def C09(S):
    for ctor in COMPO:
        S.group(ctor, lambda ctor=ctor: c09_one(S, ctor))
    S.contracts += [
        "ChebyshevComposite::forward_slice(v, c) = from_ortho(Chebyshev::forward_slice(v)), both used by contract (C08, C02)",
        "ChebyshevComposite::backward_slice(c, v) = Chebyshev::backward_slice(to_ortho(c)) (C01, C08)",
    ]
    S.group("lemmas", lambda: lemmas.check(S, "Algebra", ["injective_of_unit_columns", "projection_of_image"]))


def c09_one(S, ctor):
    offs, dm, nmin, nsolve = COMPO[ctor]
    I, o, n, m, offs = composite(S, ctor, nsolve)
    oo = construct(I, "new", n, "Chebyshev")
    fwd, bwd = [], []
    I.contracts.update({k: abs_solver(k) for k in SOLVERS})
    I.contracts["Chebyshev::forward_slice"] = abs_call("cheb.forward", (0,), 1, (), fwd)
    I.contracts["Chebyshev::backward_slice"] = abs_call("cheb.backward", (0,), 1, (), bwd)
    i = isym("i")
    v = base_arr("v", "F", n)
    vin, out = run_vec(I, o, "forward_slice", v, m, "F")
    unchanged(S, f"{ctor}: forward leaves its input unchanged", vin, v)
    _, u = run_vec(I, oo, "forward_slice", v, n, "F")
    _, e = run_vec(I, o, "from_ortho_slice", u, m, "F")
    S.equal(f"{ctor}: forward = projection of the orthogonal forward transform", reads(out, i), reads(e, i), *I.pc, *within(i, m))
    c = base_arr("c", "F", m)
    cin, out = run_vec(I, o, "backward_slice", c, n, "F")
    unchanged(S, f"{ctor}: backward leaves its input unchanged", cin, c)
    _, u = run_vec(I, o, "to_ortho_slice", c, n, "F")
    _, e = run_vec(I, oo, "backward_slice", u, n, "F")
    S.equal(f"{ctor}: backward = orthogonal backward transform of the series", reads(out, i), reads(e, i), *I.pc, *within(i, n))
    for log in (fwd, bwd):
        for name, sv, ins, ex, dims, pc, path in log:
            S.holds(f"{ctor}: {name} is called on vectors of its size", conj(eq(adims(ins[0])[0], I.int_(call(I, sv, "len_phys"))),
                                                                               eq(dims[0], I.int_(call(I, sv, "len_phys")))), *pc)
    S.side(I, ctor)


# --------------------------------------------------------------------- C10
FOUR = ("FourierC2c", "FourierR2c")


def fourier(S, ty, lo=1, hi=2 ** 30, extra=()):
    n = isym("n")
    I = S.interp((le(lo, n), le(n, hi), *extra))
    o = construct(I, "new", n, ty)
    m = n if ty == "FourierC2c" else idiv(n, 2) + 1
    return I, o, n, m


def wave(ty, n, l):
    if ty == "FourierR2c":
        return l
    return iite(lt(2 * l, n), l, l - n)


def C10(S):
    for ty in FOUR:
        S.group(f"{ty} diffmat", lambda ty=ty: c10_mat(S, ty))
        S.group(f"{ty} gradient", lambda ty=ty: c10_grad(S, ty))
        S.group(f"{ty} laplacian", lambda ty=ty: c10_lap(S, ty))
    S.group("lemmas", lambda: lemmas.check(S, "Modes"))
    S.contracts += [
        "diffmat(N), N >= 1: diagonal; D_1[l,l] = i w_l and D_(N+1)[l,l] = i w_l D_N[l,l] for all N (w_l = l for 2l < n, else l-n; real base: w_l = l)",
        "gradient_slice(v, out, N): out_0 = v, out_(N+1)[l] = i w_l out_N[l] for all N >= 0",
        "laplacian(): diagonal with -w_l^2",
    ]


def c10_mat(S, ty):
    I, o, n, m = fourier(S, ty)
    N = sym_iter(I)
    I.pc = I.pc + (le(1, N), le(N, 2 ** 20))
    D = I.snapshot(call(I, o, "diffmat", N))
    dims_are(S, f"{ty}: shape of diffmat", D, (m, m), *I.pc)
    l, q = isym("l"), isym("q")
    s = lambda k: {next(iter(fv(N))): P(k)}
    S.zero(f"{ty}: diffmat is diagonal", reads(D, l, q), *I.pc, *within(l, m), *within(q, m), neg(eq(l, q)))
    iw = cx(ZERO, fint(wave(ty, n, l)))
    one = [subst(c, s(1)) for c in I.pc]
    S.equal(f"{ty}: first order is i w", reads(subst(D, s(1)), l, l), iw, *one, *within(l, m))
    S.equal(f"{ty}: one order more multiplies by i w", reads(subst(D, s(N + 1)), l, l), I.binop("*", iw, reads(D, l, l), None),
            *I.pc, *within(l, m))
    S.side(I, ty)


def c10_grad(S, ty):
    I, o, n, m = fourier(S, ty)
    N, v, ps = gradient_paths(S, I, o, "C", m, m, "gradient_slice")
    l = isym("l")
    nsub = {next(iter(fv(N))): N + 1}
    z = {next(iter(fv(N))): P(0)}
    iw = cx(ZERO, fint(wave(ty, n, l)))
    for a, (pa, ia, A) in enumerate(ps):
        unchanged(S, f"{ty} path {a}: input unchanged", ia, v)
        dims_are(S, f"{ty} path {a}: length", A, (m,), *pa)
        c0 = [subst(c, z) for c in pa]
        if Ctx().add(*c0).consistent():
            S.equal(f"{ty} path {a}: count 0 is the identity", reads(subst(A, z), l), reads(v, l), *c0, *within(l, m))
        for b, (pb, ib, B_) in enumerate(ps):
            c1 = [subst(c, nsub) for c in pb]
            if not Ctx().add(*pa, *c1).consistent():
                continue
            S.equal(f"{ty} paths {a},{b}: one more derivative", reads(subst(B_, nsub), l), I.binop("*", iw, reads(A, l), None),
                    *pa, *c1, *within(l, m))
    S.side(I, ty)


def c10_lap(S, ty):
    I, o, n, m = fourier(S, ty)
    L = I.snapshot(call(I, o, "laplacian"))
    dims_are(S, f"{ty}: shape of laplacian", L, (m, m), *I.pc)
    l, q = isym("l"), isym("q")
    w = fint(wave(ty, n, l))
    S.equal(f"{ty}: laplacian is diag(-w^2)", reads(L, l, q), fite(eq(l, q), fneg(fmul(w, w)), ZERO), *I.pc, *within(l, m), *within(q, m))
    S.side(I, ty)


# --------------------------------------------------------------------- C11
def C11(S):
    for ty in FOUR:
        S.group(f"{ty} diffmat_pinv", lambda ty=ty: c11_one(S, ty, False))
        S.group(f"{ty} laplacian_pinv", lambda ty=ty: c11_one(S, ty, True))
    S.contracts += [
        "diffmat_pinv(N) = (P, E), N >= 1, and laplacian_pinv(): P diagonal, P[l,l] D[l,l] = 1 for l >= 1, D[0,0] = 0, E = identity without row 0; "
        "every divisor is nonzero",
    ]


def c11_one(S, ty, lap):
    I, o, n, m = fourier(S, ty)
    N = isym("N")
    I.pc = I.pc + (le(1, N), le(N, 2 ** 20))
    if lap:
        D = I.snapshot(call(I, o, "laplacian"))
        P_, E = pair(I, call(I, o, "laplacian_pinv"))
    else:
        D = I.snapshot(call(I, o, "diffmat", N))
        P_, E = pair(I, call(I, o, "diffmat_pinv", N))
    lab = f"{ty} {'laplacian' if lap else 'diffmat'}"
    l, q = isym("l"), isym("q")
    dims_are(S, f"{lab}: shape of the pseudoinverse", P_, (m, m), *I.pc)
    dims_are(S, f"{lab}: shape of the pseudo-identity", E, (m - 1, m), *I.pc)
    S.zero(f"{lab}: pseudoinverse is diagonal", reads(P_, l, q), *I.pc, *within(l, m), *within(q, m), neg(eq(l, q)))
    S.zero(f"{lab}: matrix is diagonal", reads(D, l, q), *I.pc, *within(l, m), *within(q, m), neg(eq(l, q)))
    S.equal(f"{lab}: pinv D = 1 on non-constant modes", I.binop("*", reads(P_, l, l), reads(D, l, l), None), ONE,
            *I.pc, *within(l, m), le(1, l))
    S.zero(f"{lab}: pinv D = 0 on the constant mode", I.binop("*", reads(P_, 0, 0), reads(D, 0, 0), None), *I.pc)
    S.equal(f"{lab}: pseudo-identity", reads(E, l, q), fite(eq(q, l + 1), ONE, ZERO), *I.pc, *within(l, m - 1), *within(q, m))
    S.side(I, lab)


# --------------------------------------------------------------------- C12
def C12(S):
    for ty in FOUR:
        S.group(f"{ty} forward", lambda ty=ty: c12_fwd(S, ty))
        S.group(f"{ty} backward", lambda ty=ty: c12_bwd(S, ty))
    S.contracts += [
        "forward_slice(v, c): c_k = sum_j v_j exp(-2 pi i k j/n), no scaling",
        "FourierC2c::backward_slice(c, v): v_j = (1/n) sum_k c_k exp(2 pi i k j/n); FourierR2c: the same over the conjugate-symmetric extension, "
        "with the imaginary parts of mode 0 and (even n) of mode n/2 set to zero before the transform",
    ]
    S.assumptions += [
        "rustfft / realfft compute the unnormalised discrete Fourier sums of their buffers (external, trusted)",
    ]
    S.group("lemmas", lambda: lemmas.check(S, "Fourier"))


def c12_fwd(S, ty):
    I, o, n, m = fourier(S, ty)
    sort = "C" if ty == "FourierC2c" else "F"
    v = base_arr("v", sort, n)
    vin, out = run_vec(I, o, "forward_slice", v, m, "C")
    unchanged(S, f"{ty}: input unchanged", vin, v)
    dims_are(S, f"{ty}: length", out, (m,), *I.pc)
    k = isym("k")
    e = app("fft-" if sort == "C" else "rfft", v, n, (m,), "C")
    S.equal(f"{ty}: forward is the Fourier sum", reads(out, k), reads(e, k), *I.pc, *within(k, m))
    S.side(I, ty)


def c12_bwd(S, ty):
    I, o, n, m = fourier(S, ty)
    sort = "C" if ty == "FourierC2c" else "F"
    c = base_arr("c", "C", m)
    cin, out = run_vec(I, o, "backward_slice", c, n, sort)
    unchanged(S, f"{ty}: input unchanged", cin, c)
    dims_are(S, f"{ty}: length", out, (n,), *I.pc)
    s = fdiv(ONE, fint(n))

    def b(k):
        v = tocx(reads(c, k))
        re, im = fmul(s, v.re), fmul(s, v.im)
        if sort == "F":
            im = fite(disj(eq(k, 0), eq(2 * k, n)), ZERO, im)
        return cx(re, im)
    e = app("fft+" if sort == "C" else "irfft", lam(m, b), n, (n,), sort)
    j = isym("j")
    S.equal(f"{ty}: backward is the scaled Fourier sum", reads(out, j), reads(e, j), *I.pc, *within(j, n))
    S.side(I, ty)


import specs_space as _sp  # noqa: E402
for _k in ("C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21"):
    if hasattr(_sp, _k):
        globals()[_k] = getattr(_sp, _k)
import specs_dist as _sm  # noqa: E402
for _k in ("C22", "C23", "C24", "C25"):
    if hasattr(_sm, _k):
        globals()[_k] = getattr(_sm, _k)
import specs_frame as _sf  # noqa: E402
C26 = _sf.C26
