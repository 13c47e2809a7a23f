"""Contracts of the operations along an axis and of the spaces (C14 - C21)."""
from specs import *

OPS = {  # operation: (slice method, length of the input, length of the output)
    "forward": ("forward_slice", "len_phys", "len_spec"),
    "backward": ("backward_slice", "len_spec", "len_phys"),
    "to_ortho": ("to_ortho_slice", "len_spec", "len_orth"),
    "from_ortho": ("from_ortho_slice", "len_orth", "len_spec"),
    "gradient": ("gradient_slice", "len_spec", "len_orth"),
}
TYPES = ("Chebyshev", "ChebyshevComposite", "FourierC2c", "FourierR2c")
SORTS = {"Chebyshev": ("F", "F"), "ChebyshevComposite": ("F", "F"), "FourierC2c": ("C", "C"), "FourierR2c": ("F", "C")}
VARIANTS = ("", "_inplace", "_par", "_inplace_par")


def out_sort(ty, op, s):
    if op == "forward":
        return SORTS[ty][1]
    if op == "backward":
        return SORTS[ty][0]
    return s


def in_sorts(ty, op):
    if op == "forward":
        return SORTS[ty][0]
    if op == "backward":
        return SORTS[ty][1]
    return SORTS[ty][1]


def base_of(I, o):
    """the concrete base inside the general base types"""
    o = I.deref(o)
    while isinstance(o, EnumV) and o.xs:
        o = I.deref(o.xs[0])
    return o


def tag(I, o):
    o = base_of(I, o)
    if o.ty == "ChebyshevComposite":
        k = call(I, o, "base_kind")
        return f"{o.ty}.{k.variant}"
    return o.ty


def length(I, o, which):
    return I.int_(call(I, base_of(I, o), which))


def slice_contract(op, log=None):
    meth, li, lo = OPS[op]

    def c(I, fn, selfv, args, tenv, node):
        o = base_of(I, selfv)
        w = I.as_view(args[1])
        a = I.snapshot(args[0])
        I.ob("pre", conj(eq(adims(a)[0], length(I, o, li)), eq(w.dims[0], length(I, o, lo))), node, f"vector lengths of {meth}")
        ex = (I.int_(args[2]),) if op == "gradient" else ()
        r = mk(AApp, f"{op}:{tag(I, o)}", (a, length(I, o, "len_phys")) + ex, tuple(w.dims), out_sort(o.ty, op, asort(a)))
        if log is not None:
            log.append((op, o, a, ex, tuple(I.pc)))
        I.assign_view(w, r)
        return UNIT
    return c


def slice_contracts(log=None):
    return {f"{ty}::{OPS[op][0]}": slice_contract(op, log) for ty in TYPES for op in OPS}


def lanewise(I, o, op, v, axis, count=None):
    """op applied to every lane of v along axis"""
    o = base_of(I, o)
    d = list(adims(v))
    n_in = d[axis]
    d[axis] = length(I, o, OPS[op][2])
    xs = tuple(mk(ISym, fresh("x")) for _ in d)
    idx = [P(x) for x in xs]
    ln = lam(n_in, lambda e: reads(v, *[e if k == axis else idx[k] for k in range(len(d))]))
    ex = (P(count),) if op == "gradient" else ()
    r = mk(AApp, f"{op}:{tag(I, o)}", (ln, length(I, o, "len_phys")) + ex, (d[axis],), out_sort(o.ty, op, asort(v)))
    return mk(ALam, xs, reads(r, idx[axis]), tuple(P(x) for x in d))


def make_base(I, ty, n, kind="dirichlet"):
    return construct(I, "new" if ty != "ChebyshevComposite" else kind, n, ty)


def run_nd(I, o, op, var, v, axis, outdims, count=None, sort=None):
    """one of the four variants of an operation along an axis; (input after, output)"""
    ri = ref(I, v)
    ex = ([P(count)] if op == "gradient" else []) + ([axis] if axis is not None else [])
    if "inplace" in var:
        ro = ref(I, base_arr(fresh("old"), sort, *outdims))
        call(I, o, op + var, ri, ro, *ex)
        return out_of(I, ri), out_of(I, ro)
    r = call(I, o, op + var, ri, *ex)
    return out_of(I, ri), I.snapshot(r)


def same_array(S, name, a, b, *pc):
    """equal shapes and equal entries"""
    da, db = adims(a), adims(b)
    if len(da) != len(db):
        S.fail(name, f"{len(da)} dimensions instead of {len(db)}")
        return
    S.holds(name + ": shape", conj(*[eq(x, y) for x, y in zip(da, db)]), *pc)
    idx = [isym(f"i{k}") for k in range(len(da))]
    bnd = [c for i, d in zip(idx, da) for c in within(i, d)]
    S.equal(name + ": entries", reads(a, *idx), reads(b, *idx), *pc, *bnd)


# --------------------------------------------------------------------- C14
def C14(S):
    for ty in TYPES:
        for op in OPS:
            S.group(f"{ty} {op}", lambda ty=ty, op=op: c14_one(S, ty, op))
            S.group(f"{ty} {op}_slice", lambda ty=ty, op=op: c14_stale(S, ty, op))
    S.contracts += [
        "<op>, <op>_inplace, <op>_par, <op>_inplace_par along axis a of an array of 1, 2, 3 (4) dimensions, op in forward, backward, to_ortho, "
        "from_ortho, gradient: out[..i_a..] = op_slice(in[.., :, ..])[i_a] for every position, the other extents and the input unchanged "
        "(op_slice uninterpreted, so the contract holds for whatever the one-dimensional operation computes)",
        "op_slice(v, out): the result does not depend on the previous contents of out",
    ]
    S.assumptions += [
        "Zip::par_for_each calls the closure once per lane; calls on different lanes do not interfere (Rust's type system: the closure is Fn + Sync, "
        "output lanes are disjoint)",
    ]


def axes_cases(ty, op, tier):
    nds = (1, 2, 3, 4) if (ty == "Chebyshev" or tier == "thorough") else (1, 2, 3)
    return [(nd, ax) for nd in nds for ax in range(nd)]


def nd_setup(S, ty, nd, ax, op, contracts=None, kind="neumann", extra=()):
    n = isym("n")
    other = [isym(f"m{k}") for k in range(nd)]
    lo = 8 if ty == "ChebyshevComposite" else 2
    pc = [le(lo, n), le(n, 2 ** 15)] + [le(0, m) for m in other]
    I = S.interp(tuple(pc) + tuple(extra), slice_contracts() if contracts is None else contracts)
    o = make_base(I, ty, n, kind)
    N = P(isym("N"))
    I.pc = I.pc + (le(0, N),)
    return I, o, n, other, N


def c14_one(S, ty, op):
    for nd, ax in axes_cases(ty, op, S.tier):
        for var in VARIANTS:
            I, o, n, other, N = nd_setup(S, ty, nd, ax, op)
            dims = list(other)
            dims[ax] = length(I, o, OPS[op][1])
            outd = list(other)
            outd[ax] = length(I, o, OPS[op][2])
            lab = f"{ty} {op}{var} {nd}-d axis {ax}"
            v = base_arr("v", in_sorts(ty, op), *dims)
            vin, r = run_nd(I, o, op, var, v, ax, outd, N, out_sort(ty, op, in_sorts(ty, op)))
            unchanged(S, lab + ": input unchanged", vin, v)
            same_array(S, lab, r, lanewise(I, o, op, v, ax, N), *I.pc)
            S.side(I, lab)


def forget(S, I, s, label):
    """Relational loop rule: the states of a loop do not depend on the parameter s if its body does not (other than through
    the states themselves) and its initial arrays are, entry by entry, independent of s.  Loops for which that is proved lose
    the parameter."""
    s2 = mk(ISym, fresh("s"))
    proven = set()
    todo = [T for T in I.loops if s in T.params and T.used_body is not None]
    while todo:
        rest = []
        for T in todo:
            ex = proven | {T}
            dep = set(fvx(T.length, ex))
            for lf in T.leaves.values():
                dep |= fvx(lf.body, ex)
                for c, t in lf.sites or ():
                    dep |= fvx(c, ex) | fvx(t, ex)
            ok = s not in dep
            if ok:
                for lf in T.leaves.values():
                    if s not in fvx(lf.prev, proven):
                        continue
                    if not isinstance(lf.prev, ARRAY):
                        ok = False
                        break
                    d = adims(lf.prev)
                    idx = [isym(fresh("q")) for _ in d]
                    b = [c for i, n in zip(idx, d) for c in within(i, n)]
                    other = subst(lf.prev, {s: P(s2)})
                    if prove.prove_array_equal(reads(lf.prev, *idx), reads(other, *idx), Ctx().add(*T.pc, *b), 2):
                        continue
                    ok = False
                    break
            if ok:
                proven.add(T)
                T.used_body = {i for i in T.used_body if T.params[i] is not s}
            else:
                rest.append(T)
        if len(rest) == len(todo):
            break
        todo = rest
    return P(s2)


def c14_stale(S, ty, op):
    """non-interference: the previous contents of the output are old(i, s) for a parameter s; the result does not depend on s"""
    kinds = ["new"] if ty != "ChebyshevComposite" else list(COMPO)
    for kind in kinds:
        n = isym("n")
        lo = (COMPO[kind][3] if ty == "ChebyshevComposite" else 2)
        con = {k: abs_solver(k) for k in SOLVERS}
        if ty == "ChebyshevComposite":
            # the operations of the orthogonal base by the same contract
            for o2 in OPS:
                con[f"Chebyshev::{OPS[o2][0]}"] = slice_contract(o2)
        I = S.interp((le(lo, n), le(n, 2 ** 15)), con)
        o = construct(I, kind, n, ty)
        N = isym("N")
        I.pc = I.pc + (le(0, N),)
        s = sym_iter(I, "s")
        si = in_sorts(ty, op)
        so = out_sort(ty, op, si)
        v = base_arr("v", si, length(I, o, OPS[op][1]))
        lab = f"{ty} {kind} {op}_slice"
        m = length(I, o, OPS[op][2])
        old = base_arr("old", so, m, 2 ** 20)
        ro = ref(I, lam(m, lambda e: reads(old, e, s)))

        def run():
            call(I, o, OPS[op][0], ref(I, v), ro, *([P(N)] if op == "gradient" else []))
            return out_of(I, ro)
        res = [(pc, r) for pc, r, st in paths(S, I, run, lab)]
        sy = next(iter(fv(s)))
        t = forget(S, I, sy, lab)
        i = isym("i")
        for a, (pa, ra) in enumerate(res):
            if any(sy in fv(c) for c in pa):
                S.fail(f"{lab} path {a}: control flow depends on the previous output", show(conj(*pa))[:200])
                continue
            S.equal(f"{lab} path {a}: independent of the previous output", reads(subst(ra, {sy: P(isym('s1'))}), i),
                    reads(subst(ra, {sy: t}), i), *pa, *within(i, adims(ra)[0]))


# ------------------------------------------------------------------- spaces
CTORS = {"ch": "chebyshev", "cd": "cheb_dirichlet", "cn": "cheb_neumann", "dn": "cheb_dirichlet_neumann", "ba": "cheb_biharmonic_a",
         "bb": "cheb_biharmonic_b", "r2c": "fourier_r2c", "c2c": "fourier_c2c"}
SPACES = {
    1: [("ch",), ("cn",), ("r2c",), ("c2c",)],
    2: [("ch", "cd"), ("cn", "ch"), ("r2c", "cd"), ("c2c", "r2c"), ("c2c", "c2c")],
    3: [("ch", "cd", "cn"), ("cn", "ch", "cd"), ("r2c", "cd", "ch"), ("r2c", "ch", "cn"), ("c2c", "r2c", "cd"), ("c2c", "c2c", "r2c"), ("c2c", "c2c", "c2c")],
}
class MpiKeys(tuple):
    """base types of a Space2Mpi: its serial methods are those of a two-dimensional space"""

    def __repr__(self):
        return "Mpi" + tuple.__repr__(self)


# combinations the crate provides (decided by its impl blocks)
SPACE_OPS = ("forward", "backward", "to_ortho", "from_ortho", "gradient")


def lib_base(I, key, n):
    f = I.crate.free[CTORS[key]]
    return I.call(f[0], None, [n], {"A": Ty("A")})


def exists(S, nd, keys):
    """the crate implements the space for these base types"""
    enum = {"r2c": "BaseR2c", "c2c": "BaseC2c"}
    want = [enum.get(k, "BaseR2r") for k in keys]
    for im in S.crate.impl_traits.get(f"Space{nd}" + ("Mpi" if isinstance(keys, MpiKeys) else ""), []):
        if im.trait is not None and tyname(im.trait) == "BaseSpaceTransform":
            args = [tyname(a) for a in tyargs(im.ty)]
            gens = [g[0] for g in im.generics]
            if len(args) == nd and all(a == w or a in gens for a, w in zip(args, want)):
                return True
    return False


def make_space(S, keys, contracts, extra=()):
    if isinstance(keys, MpiKeys):
        import specs_dist
        I, sp, bs, _, _ = specs_dist.make_mpi_space(S, keys, contracts, extra)
        return I, sp, bs, [length(I, b, "len_phys") for b in bs]
    ns = [isym(f"n{k}") for k in range(len(keys))]
    pc = [c for k, n in zip(keys, ns) for c in (le(2 if k in ("ch", "r2c", "c2c") else 10, n), le(n, 2 ** 15))]
    I = S.interp(tuple(pc) + tuple(extra), contracts)
    bs = [lib_base(I, k, n) for k, n in zip(keys, ns)]
    fs = I.crate.methods[f"Space{len(keys)}"]["new"]
    sp = I.call(fs[0], None, [ref(I, b) for b in bs], {"Self": Ty(f"Space{len(keys)}")})
    return I, sp, bs, ns


def space_sorts(I, bs):
    """scalar types of the physical and spectral arrays"""
    ts = [base_of(I, b).ty for b in bs]
    ph = "C" if all(t == "FourierC2c" for t in ts) else "F"
    sp = "C" if any(t.startswith("Fourier") for t in ts) else "F"
    return ph, sp


def space_io(I, bs, op):
    """(sort, dims) of input and output of a space operation"""
    ph, sp = space_sorts(I, bs)
    L = lambda w: tuple(length(I, b, w) for b in bs)  # noqa: E731
    _, li, lo = OPS[op]
    return (ph if op == "forward" else sp, L(li)), (ph if op == "backward" else sp, L(lo))


def run_space(I, sp, op, var, v, out, ex=()):
    ri = ref(I, v)
    if "inplace" in var:
        ro = ref(I, base_arr(fresh("old"), out[0], *out[1]))
        call(I, sp, op + var, ri, ro, *ex)
        return out_of(I, ri), out_of(I, ro)
    r = call(I, sp, op + var, ri, *ex)
    return out_of(I, ri), I.snapshot(r)


def space_variants(op):
    return VARIANTS if op != "gradient" else ("", "_par")


def grad_args(I, nd, scaled):
    ds = [isym(f"d{k}") for k in range(nd)]
    I.pc = I.pc + tuple(c for d in ds for c in (le(0, d), le(d, 2 ** 15)))
    ss = [fsym(f"scale{k}") for k in range(nd)]
    prove.NONZERO.update(ss)  # precondition of the scaled gradient
    sc = some(Seq(list(ss), "array")) if scaled else EnumV("Option", "None")
    return ds, ss, [Seq([P(d) for d in ds], "array"), sc]


def each_space(S, f):
    for nd in SPACES:
        for keys in SPACES[nd] + ([MpiKeys(k) for k in SPACES[2]] if nd == 2 else []):
            if not exists(S, nd, keys):
                S.undec(f"Space{nd} {keys}", "the crate does not implement this combination")
                continue
            f(nd, keys)


# --------------------------------------------------------------------- C15
def C15(S):
    for ty in TYPES:
        for op in OPS:
            S.group(f"{ty} {op}", lambda ty=ty, op=op: c15_base(S, ty, op))
    each_space(S, lambda nd, keys: [S.group(f"Space{nd} {keys} {op}", lambda op=op: c15_space(S, nd, keys, op)) for op in SPACE_OPS])
    S.contracts += [
        "for every base, operation, axis and dimension 1..3(4): <op>_inplace, <op>_par and <op>_inplace_par give the array that <op> returns (the results are compared "
        "entry by entry as functions of the input; op_slice uninterpreted)",
        "for every space (all implemented combinations of base types, 1..3 dimensions): forward, backward, to_ortho, from_ortho in their four variants, gradient and "
        "gradient_par with and without scale, symbolic derivative counts: the variants give the same array",
    ]
    S.assumptions += [
        "Zip::par_for_each calls the closure once per lane; calls on different lanes do not interfere (Rust's type system: the closure is Fn + Sync, "
        "output lanes are disjoint)",
    ]


def c15_base(S, ty, op):
    for nd, ax in axes_cases(ty, op, S.tier):
        res = {}
        for var in VARIANTS:
            I, o, n, other, N = nd_setup(S, ty, nd, ax, op)
            dims = list(other)
            dims[ax] = length(I, o, OPS[op][1])
            outd = list(other)
            outd[ax] = length(I, o, OPS[op][2])
            v = base_arr("v", in_sorts(ty, op), *dims)
            vin, r = run_nd(I, o, op, var, v, ax, outd, N, out_sort(ty, op, in_sorts(ty, op)))
            res[var] = (r, I.pc)
            lab = f"{ty} {op}{var} {nd}-d axis {ax}"
            unchanged(S, lab + ": input unchanged", vin, v)
            S.functions |= I.calls
            if var:
                same_array(S, lab + " = serial, allocating", r, res[""][0], *res[""][1], *I.pc)


def c15_space(S, nd, keys, op):
    for scaled in ((False, True) if op == "gradient" else (None,)):
        res = {}
        for var in space_variants(op):
            I, sp, bs, ns = make_space(S, keys, slice_contracts())
            i, o = space_io(I, bs, op)
            ex = grad_args(I, nd, scaled)[2] if op == "gradient" else ()
            v = base_arr("v", i[0], *i[1])
            vin, r = run_space(I, sp, op, var, v, o, ex)
            res[var] = (r, I.pc)
            lab = f"Space{nd}{keys} {op}{var}" + (" scaled" if scaled else "")
            unchanged(S, lab + ": input unchanged", vin, v)
            S.functions |= I.calls
            if var:
                same_array(S, lab + " = serial, allocating", r, res[""][0], *res[""][1], *I.pc)


# --------------------------------------------------------------------- C16
# lengths that the one-dimensional operations reject (input, output); the others copy the common part
CHECKED = {"Chebyshev": {"forward": (1, 1), "backward": (1, 1), "to_ortho": (0, 0), "from_ortho": (0, 0), "gradient": (0, 1)},
           "ChebyshevComposite": {op: (1, 1) for op in OPS},
           "FourierC2c": {"forward": (1, 1), "backward": (1, 1), "to_ortho": (0, 0), "from_ortho": (0, 0), "gradient": (1, 1)}}
CHECKED["FourierR2c"] = CHECKED["FourierC2c"]


def C16(S):
    for ty in TYPES:
        for op in OPS:
            S.group(f"{ty} {op}", lambda ty=ty, op=op: c16_nd(S, ty, op))
            for kind in (["new"] if ty != "ChebyshevComposite" else COMPO):
                S.group(f"{ty} {kind} {op}_slice", lambda ty=ty, op=op, kind=kind: c16_slice(S, ty, op, kind))
    each_space(S, lambda nd, keys: [S.group(f"Space{nd} {keys} {op}", lambda op=op: c16_space(S, nd, keys, op)) for op in SPACE_OPS])
    S.contracts += [
        "<op>, <op>_inplace, <op>_par, <op>_inplace_par along an axis, arrays of arbitrary extents: whenever the call returns, and at every write to the output "
        "array, the extents of input and output along the axis are the ones of the base",
        "slice operations with a length check, vectors of arbitrary length: the same",
        "with matching extents every assertion, panic and checked index in these functions is discharged",
        "spaces: the same for every axis of input and output arrays",
    ]
    S.assumptions += ["ndarray's Zip panics when the shapes of its producers differ (documented)"]


def reject(S, I, run, watch, need, label):
    """run ends normally, or writes to the watched cell, only if every condition of need holds"""
    if watch is not None:
        I.watch[watch] = []
    done = 0
    for pc, res, st, exc in I.enumerate(run):
        if isinstance(exc, Panic):
            continue
        if exc is not None:
            raise Unsupported(f"{type(exc).__name__} leaves {label}")
        done += 1
        for what, c in need:
            S.holds(f"{label}: returns only if {what}", c, *pc)
    if not done:
        S.fail(f"{label}: panics for every input", "no path returns")
    seen = set()
    for pc, where in I.watch.get(watch, ()):
        if (pc, where) in seen or not Ctx().add(*pc).consistent():
            continue
        seen.add((pc, where))
        for what, c in need:
            S.holds(f"{label}: {where} writes only if {what}", c, *pc)
    S.functions |= I.calls


def c16_nd(S, ty, op):
    for nd, ax in axes_cases(ty, op, S.tier):
        for var in VARIANTS:
            I, o, n, other, N = nd_setup(S, ty, nd, ax, op)
            si = in_sorts(ty, op)
            a = [isym(f"a{k}") for k in range(nd)]
            b = [isym(f"b{k}") for k in range(nd)]
            I.pc = I.pc + tuple(le(0, x) for x in a + b)
            v = ref(I, base_arr("v", si, *a))
            ex = ([N] if op == "gradient" else []) + [ax]
            need = [(f"the input has the extent {OPS[op][1]}", eq(a[ax], length(I, o, OPS[op][1])))]
            lab = f"{ty} {op}{var} {nd}-d axis {ax}"
            if "inplace" in var:
                ro = ref(I, base_arr("old", out_sort(ty, op, si), *b))
                need.append((f"the output has the extent {OPS[op][2]}", eq(b[ax], length(I, o, OPS[op][2]))))
                reject(S, I, lambda: call(I, o, op + var, v, ro, *ex), ro.place.cell, need, lab)
            else:
                reject(S, I, lambda: call(I, o, op + var, v, *ex), None, need, lab)
            # matching extents: no panic
            I, o, n, other, N = nd_setup(S, ty, nd, ax, op)
            dims, outd = list(other), list(other)
            dims[ax], outd[ax] = length(I, o, OPS[op][1]), length(I, o, OPS[op][2])
            run_nd(I, o, op, var, base_arr("v", si, *dims), ax, outd, N, out_sort(ty, op, si))
            S.side(I, lab + ", matching extents", divisors=False)


def c16_slice(S, ty, op, kind):
    n, a, b = isym("n"), isym("la"), isym("lb")
    N = P(isym("N"))
    con = {k: abs_solver(k) for k in SOLVERS}
    lo = 2 if ty != "ChebyshevComposite" else COMPO[kind][3]
    si = in_sorts(ty, op)
    ex = [N] if op == "gradient" else []
    lab = f"{ty} {kind} {op}_slice"
    ci, co = CHECKED[ty][op]
    I = S.interp((le(lo, n), le(n, 2 ** 15), le(0, N), le(0, a), le(0, b)), con)
    o = construct(I, kind, n, ty)
    ro = ref(I, base_arr("old", out_sort(ty, op, si), b))
    need = []
    if ci:
        need.append((f"the input has length {OPS[op][1]}", eq(a, length(I, o, OPS[op][1]))))
    if co:
        need.append((f"the output has length {OPS[op][2]}", eq(b, length(I, o, OPS[op][2]))))
    if need:
        reject(S, I, lambda: call(I, o, OPS[op][0], ref(I, base_arr("v", si, a)), ro, *ex), ro.place.cell, need, lab)
    # matching lengths: no panic
    sorts = ("F", "C") if ty.startswith("Cheb") and op in ("to_ortho", "from_ortho", "gradient") else (si,)
    for s in sorts:
        I = S.interp((le(lo, n), le(n, 2 ** 15), le(0, N)), con)
        o = construct(I, kind, n, ty)
        ro = ref(I, base_arr("old", out_sort(ty, op, s), length(I, o, OPS[op][2])))
        v = base_arr("v", s, length(I, o, OPS[op][1]))
        paths(S, I, lambda: call(I, o, OPS[op][0], ref(I, v), ro, *ex), lab)
        S.side(I, f"{lab} ({s}), matching lengths", divisors=False)


def c16_space(S, nd, keys, op):
    for var in space_variants(op):
        I, sp, bs, ns = make_space(S, keys, slice_contracts())
        (si, di), (so, do) = space_io(I, bs, op)
        a = [isym(f"a{k}") for k in range(nd)]
        b = [isym(f"b{k}") for k in range(nd)]
        I.pc = I.pc + tuple(le(0, x) for x in a + b)
        ex = grad_args(I, nd, True)[2] if op == "gradient" else ()
        v = ref(I, base_arr("v", si, *a))
        lab = f"Space{nd}{keys} {op}{var}"
        need = [("the input has the shape of the space", conj(*[eq(x, y) for x, y in zip(a, di)]))]
        if "inplace" in var:
            ro = ref(I, base_arr("old", so, *b))
            need.append(("the output has the shape of the space", conj(*[eq(x, y) for x, y in zip(b, do)])))
            reject(S, I, lambda: call(I, sp, op + var, v, ro, *ex), ro.place.cell, need, lab)
        else:
            reject(S, I, lambda: call(I, sp, op + var, v, *ex), None, need, lab)
        I, sp, bs, ns = make_space(S, keys, slice_contracts())
        ex = grad_args(I, nd, True)[2] if op == "gradient" else ()
        run_space(I, sp, op, var, base_arr("v", si, *di), (so, do), ex)
        S.side(I, lab + ", matching shapes", divisors=False)


# --------------------------------------------------------------------- C17, C18
def perms(xs):
    if not xs:
        return [()]
    return [(x,) + p for i, x in enumerate(xs) for p in perms(xs[:i] + xs[i + 1:])]


def orders(I, bs, op):
    """orders of the axes in which the scalar types fit (the operators on different axes commute)"""
    rank = {"Chebyshev": 0, "ChebyshevComposite": 0, "FourierR2c": 1, "FourierC2c": 2}
    r = [rank[base_of(I, b).ty] for b in bs]
    out = []
    for p in perms(tuple(range(len(bs)))):
        seq = [r[k] for k in p]
        real = [x for x in seq if x < 2]
        if op == "forward" and any(x == 2 for x in r) and 1 in r:
            # real transforms first, then real-to-complex, then complex
            if seq != sorted(seq):
                continue
        elif op == "forward" and seq != sorted(seq):
            continue
        elif op == "backward" and seq != sorted(seq, reverse=True):
            continue
        out.append(p)
    # the order used in the crate first
    last = tuple(range(len(bs)))
    out.sort(key=lambda p: (p != (last[::-1] if op == "forward" else last), p))
    return out


def tensor(I, bs, op, v, order, counts=None):
    for k in order:
        v = lanewise(I, bs[k], op, v, k, counts[k] if counts else None)
    return v


def C17(S):
    each_space(S, lambda nd, keys: [S.group(f"Space{nd} {keys} {op}", lambda op=op: c17_one(S, nd, keys, op)) for op in SPACE_OPS[:4]])
    S.contracts += [
        "Space1/2/3, Space2Mpi (serial methods; every implemented combination of base types): forward, backward, to_ortho, from_ortho in all four variants = the slice operation of each axis's own "
        "base applied once to every lane along that axis (any order of the axes in which the scalar types fit); results have the spectral, physical, orthogonal shape",
    ]
    S.group("lemmas", lambda: lemmas.check(S, "Algebra", ["axes_commute", "has_matrix", "roundtrip"]))


def c17_one(S, nd, keys, op):
    for var in space_variants(op):
        I, sp, bs, ns = make_space(S, keys, slice_contracts())
        i, o = space_io(I, bs, op)
        v = base_arr("v", i[0], *i[1])
        vin, r = run_space(I, sp, op, var, v, o)
        lab = f"Space{nd}{keys} {op}{var}"
        S.sat(lab, *I.pc)
        unchanged(S, lab + ": input unchanged", vin, v)
        dims_are(S, lab + ": shape", r, o[1], *I.pc)
        idx = [isym(f"i{k}") for k in range(nd)]
        bnd = [c for x, d in zip(idx, o[1]) for c in within(x, d)]
        if len(adims(r)) == nd:
            alternatives(S, lab + ": tensor product of the axis operations", reads(r, *idx),
                         [reads(tensor(I, bs, op, v, p), *idx) for p in orders(I, bs, op)], *I.pc, *bnd)
        S.side(I, lab)


def C18(S):
    each_space(S, lambda nd, keys: [S.group(f"Space{nd} {keys} scale={sc}", lambda sc=sc: c18_one(S, nd, keys, sc)) for sc in (False, True)])
    S.contracts += [
        "Space1/2/3, Space2Mpi::gradient and gradient_par with symbolic counts d: without scale, the gradient of each axis's own base with its count applied once to every lane along "
        "that axis; with scale s, that divided by the product of s_i^d_i; result in the orthogonal shape",
    ]
    S.group("lemmas", lambda: lemmas.check(S, "Algebra", ["axes_commute", "has_matrix"]))
    S.assumptions += ["scales are not zero; counts at most 2^15 (cast to i32)"]


def c18_one(S, nd, keys, scaled):
    for var in ("", "_par"):
        I, sp, bs, ns = make_space(S, keys, slice_contracts())
        i, o = space_io(I, bs, "gradient")
        ds, ss, ex = grad_args(I, nd, scaled)
        v = base_arr("v", i[0], *i[1])
        vin, r = run_space(I, sp, "gradient", var, v, o, ex)
        lab = f"Space{nd}{keys} gradient{var}" + (" scaled" if scaled else "")
        unchanged(S, lab + ": input unchanged", vin, v)
        dims_are(S, lab + ": shape", r, o[1], *I.pc)
        idx = [isym(f"i{k}") for k in range(nd)]
        bnd = [c for x, d in zip(idx, o[1]) for c in within(x, d)]

        def form(p):
            e = reads(tensor(I, bs, "gradient", v, p, ds), *idx)
            if not scaled:
                return e
            q = ONE
            for s, d in zip(ss, ds):
                q = fmul(q, fapp("pow", s, P(d)))
            return I.binop("/", e, q, None)
        if len(adims(r)) == nd:
            alternatives(S, lab + ": gradient of every axis" + (" over the scales" if scaled else ""), reads(r, *idx),
                         [form(p) for p in orders(I, bs, "gradient")], *I.pc, *bnd)
        S.side(I, lab)


# --------------------------------------------------------------------- C19, C20
MATS = ("stencil", "stencil_inv", "laplacian", "laplacian_pinv", "diffmat", "diffmat_pinv")


def mat_contract(name, log=None):
    """the matrix is that of this base (size and kind), whatever its entries"""
    def c(I, fn, selfv, args, tenv, node):
        o = base_of(I, selfv)
        ex = tuple(I.int_(a) for a in args)
        n = length(I, o, "len_phys")
        so = "C" if name.startswith("diffmat") and o.ty.startswith("Fourier") else "F"
        f = lambda s: mk(AApp, f"{name}{s}:{tag(I, o)}", (n,) + ex, (n, n), so)  # noqa: E731
        if log is not None:
            log.append((name, o, ex))
        return Seq([f(".0"), f(".1")]) if name.endswith("pinv") else f("")
    return c


def coords_contract(I, fn, selfv, args, tenv, node):
    o = base_of(I, selfv)
    n = length(I, o, "len_phys")
    return mk(AApp, f"coords:{tag(I, o)}", (n,), (n,), "F")


def mat_contracts(log=None):
    d = {f"{ty}::{m}": mat_contract(m, log) for ty in TYPES for m in MATS}
    d.update({f"{ty}::coords": coords_contract for ty in TYPES})
    return d


def same_value(S, I, name, a, b, *pc):
    """structural equality of results"""
    a, b = I.deref(a), I.deref(b)
    if isinstance(a, EnumV) and isinstance(b, EnumV):
        if (a.ty, a.variant, len(a.xs)) != (b.ty, b.variant, len(b.xs)):
            S.fail(name, f"{a.ty}::{a.variant} instead of {b.ty}::{b.variant}")
            return
        if not a.xs:
            S.ok(name, "syntactic (interned terms)")
        for k, (x, y) in enumerate(zip(a.xs, b.xs)):
            same_value(S, I, f"{name}.{k}", x, y, *pc)
        return
    if isinstance(a, Obj) and isinstance(b, Obj):
        if a.ty != b.ty or set(a.fields) != set(b.fields):
            S.fail(name, f"{a.ty} instead of {b.ty}")
            return
        for k in a.fields:
            same_value(S, I, f"{name}.{k}", a.fields[k], b.fields[k], *pc)
        return
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        if a.kind != b.kind or len(a.a) != len(b.a):
            S.fail(name, f"{a!r} instead of {b!r}")
            return
        for x, y in zip(a.a, b.a):
            if isinstance(x, Poly) and isinstance(y, Poly):
                S.holds(name, eq(x, y), *pc)
            elif x == y:
                S.ok(name, "syntactic (interned terms)")
            else:
                S.fail(name, f"{x!r} instead of {y!r}")
        return
    if isinstance(a, Seq) and isinstance(b, Seq):
        if len(a.xs) != len(b.xs):
            S.fail(name, f"{len(a.xs)} instead of {len(b.xs)} elements")
            return
        for k, (x, y) in enumerate(zip(a.xs, b.xs)):
            same_value(S, I, f"{name}[{k}]", x, y, *pc)
        return
    if isinstance(a, Poly) and isinstance(b, Poly):
        S.holds(name, eq(a, b), *pc)
        return
    if isinstance(a, ARRAY + (View,)) and isinstance(b, ARRAY + (View,)):
        same_array(S, name, I.snapshot(a), I.snapshot(b), *pc)
        return
    if isinstance(a, (Cx,) + SCALAR) and isinstance(b, (Cx,) + SCALAR):
        S.equal(name, a, b, *pc)
        return
    if a is b:
        S.ok(name, "syntactic (interned terms)")
        return
    raise Unsupported(f"comparison of {type(a).__name__} and {type(b).__name__}")


def clone_same(S, I, lab, o, *pc):
    """a clone equals the original, field by field; private fields may hold anything, so a difference there alone is no alarm"""
    k = len(S.failed)
    try:
        same_value(S, I, f"{lab}: clone", call(I, o, "clone"), o, *pc)
    finally:
        for f in S.failed[k:]:
            f["complete"] = False


def C19(S):
    each_space(S, lambda nd, keys: S.group(f"Space{nd} {keys}", lambda: c19_one(S, nd, keys)))
    S.contracts += [
        "Space1/2/3, Space2Mpi: base_kind, transform_kind, coords_axis, stencil, stencil_inv, laplacian, laplacian_pinv of axis k = the same query of the base given for axis k; coords(), "
        "shape_physical, shape_spectral, shape_spectral_ortho list them in the order of the axes; ndarray_physical, ndarray_spectral: zero arrays of these shapes; a clone equals the space",
    ]


def c19_one(S, nd, keys):
    I, sp, bs, ns = make_space(S, keys, mat_contracts())
    lab = f"Space{nd}{keys}"
    pc = I.pc
    clone_same(S, I, lab, sp, *pc)
    for k in range(nd):
        for q in ("base_kind", "transform_kind", "stencil", "stencil_inv", "laplacian", "laplacian_pinv"):
            same_value(S, I, f"{lab} {q}({k})", call(I, sp, q, k), call(I, bs[k], q), *pc)
        same_value(S, I, f"{lab} coords_axis({k})", call(I, sp, "coords_axis", k), call(I, bs[k], "coords"), *pc)
    cs = call(I, sp, "coords")
    same_value(S, I, f"{lab} coords()", cs, Seq([call(I, b, "coords") for b in bs], "array"), *pc)
    for q, w in (("shape_physical", "len_phys"), ("shape_spectral", "len_spec"), ("shape_spectral_ortho", "len_orth")):
        same_value(S, I, f"{lab} {q}", call(I, sp, q), Seq([length(I, b, w) for b in bs], "array"), *pc)
    idx = [isym(f"i{k}") for k in range(nd)]
    ph, spec = space_sorts(I, bs)
    for q, w, so in (("ndarray_physical", "len_phys", ph), ("ndarray_spectral", "len_spec", spec)):
        a = I.snapshot(call(I, sp, q))
        dims = tuple(length(I, b, w) for b in bs)
        dims_are(S, f"{lab} {q}: shape", a, dims, *pc)
        if len(adims(a)) == nd:
            S.zero(f"{lab} {q}: zero", reads(a, *idx), *pc, *[c for x, d in zip(idx, dims) for c in within(x, d)])
    S.side(I, lab)


# constructor -> (wrapper, concrete type, constructor of the type, kind, transform kind, len_spec, len_orth)
KINDS = {
    "ch": ("BaseR2r", "Chebyshev", "new", "Chebyshev", "R2r", lambda n: n),
    "cd": ("BaseR2r", "ChebyshevComposite", "dirichlet", "ChebDirichlet", "R2r", lambda n: n - 2),
    "cn": ("BaseR2r", "ChebyshevComposite", "neumann", "ChebNeumann", "R2r", lambda n: n - 2),
    "dn": ("BaseR2r", "ChebyshevComposite", "dirichlet_neumann", "ChebDirichletNeumann", "R2r", lambda n: n - 2),
    "ba": ("BaseR2r", "ChebyshevComposite", "biharmonic_a", "ChebBiHarmonicA", "R2r", lambda n: n - 4),
    "bb": ("BaseR2r", "ChebyshevComposite", "biharmonic_b", "ChebBiHarmonicB", "R2r", lambda n: n - 4),
    "r2c": ("BaseR2c", "FourierR2c", "new", "FourierR2c", "R2c", lambda n: idiv(n, 2) + 1),
    "c2c": ("BaseC2c", "FourierC2c", "new", "FourierC2c", "C2c", lambda n: n),
}


def C20(S):
    for key in KINDS:
        S.group(CTORS[key], lambda key=key: c20_one(S, key))
        S.group(CTORS[key] + " operations", lambda key=key: c20_ops(S, key))
    S.contracts += [
        "chebyshev, cheb_dirichlet, cheb_neumann, cheb_dirichlet_neumann, cheb_biharmonic_a/b, fourier_r2c, fourier_c2c: base_kind, transform_kind, len_phys, len_spec, "
        "len_orth (directly and through BaseR2r/BaseR2c/BaseC2c) are those of the named basis; the wrapped object equals the one the basis's own constructor builds; the "
        "stencil of a composite base has the documented coefficients",
        "a clone of the wrapper equals it; every operation and matrix of the wrapper is the same operation of the wrapped basis on the same arguments",
    ]


def c20_one(S, key):
    wrap, ty, ctor, kind, tk, spec = KINDS[key]
    n = isym("n")
    lo = 2 if ty != "ChebyshevComposite" else COMPO[ctor][2]
    I = S.interp((le(lo, n), le(n, 2 ** 15)))
    b = lib_base(I, key, n)
    inner = construct(I, ctor, n, ty)
    pc = I.pc
    lab = CTORS[key]
    if not (isinstance(b, EnumV) and b.ty == wrap):
        S.fail(f"{lab}: wrapper", f"{b!r} is not a {wrap}")
        return
    for o, w in ((b, "wrapped"), (inner, "plain")):
        same_value(S, I, f"{lab} {w}: kind", call(I, o, "base_kind"), EnumV("BaseKind", kind), *pc)
        same_value(S, I, f"{lab} {w}: transform kind", call(I, o, "transform_kind"), EnumV("TransformKind", tk), *pc)
        for q, e in (("len_phys", n), ("len_spec", spec(n)), ("len_orth", n if key != "r2c" else spec(n))):
            S.holds(f"{lab} {w}: {q}", eq(I.int_(call(I, o, q)), e), *pc)
    same_value(S, I, f"{lab}: wrapped object", base_of(I, b), inner, *pc)
    clone_same(S, I, lab, b, *pc)
    cl = call(I, b, "clone")
    same_value(S, I, f"{lab} clone: kind", call(I, cl, "base_kind"), EnumV("BaseKind", kind), *pc)
    for q, e in (("len_phys", n), ("len_spec", spec(n)), ("len_orth", n if key != "r2c" else spec(n))):
        S.holds(f"{lab} clone: {q}", eq(I.int_(call(I, cl, q)), e), *pc)
    if ty == "ChebyshevComposite":
        A = I.snapshot(call(I, b, "stencil"))
        offs, dm = COMPO[ctor][:2]
        i, k = isym("i"), isym("k")
        doc = documented(ctor, k)
        dims_are(S, f"{lab}: shape of the stencil", A, (n, n - dm), *pc)
        for off in offs:
            S.equal(f"{lab}: stencil[k+{off},k]", reads(A, k + off, k), doc[off], *pc, *within(k, n - dm))
        S.zero(f"{lab}: stencil off its diagonals", reads(A, i, k), *pc, *within(i, n), *within(k, n - dm), *[neg(eq(i, k + off)) for off in offs])
    S.side(I, lab)


def c20_ops(S, key):
    wrap, ty, ctor, kind, tk, spec = KINDS[key]
    n = isym("n")
    lo = 2 if ty != "ChebyshevComposite" else COMPO[ctor][3]
    lab = CTORS[key]
    for op in OPS:
        si = in_sorts(ty, op)
        for s in (("F", "C") if ty.startswith("Cheb") and op in ("to_ortho", "from_ortho", "gradient") else (si,)):
            log = []
            N = P(isym("N"))
            I = S.interp((le(lo, n), le(n, 2 ** 15), le(0, N)), slice_contracts(log))
            b = lib_base(I, key, n)
            inner = construct(I, ctor, n, ty)
            v = base_arr("v", s, length(I, b, OPS[op][1]))
            m = length(I, b, OPS[op][2])
            ex = [N] if op == "gradient" else []
            ri, ro = ref(I, v), ref(I, base_arr("old", out_sort(ty, op, s), m))
            call(I, b, OPS[op][0], ri, ro, *ex)
            l2 = f"{lab} {op}_slice ({s})"
            unchanged(S, l2 + ": input unchanged", out_of(I, ri), v)
            e = mk(AApp, f"{op}:{tag(I, inner)}", (v, P(n)) + tuple(ex), (m,), out_sort(ty, op, s))
            same_array(S, l2, out_of(I, ro), e, *I.pc)
            S.side(I, l2)
    I = S.interp((le(lo, n), le(n, 2 ** 15)), mat_contracts())
    b = lib_base(I, key, n)
    inner = construct(I, ctor, n, ty)
    N = P(isym("N"))
    I.pc = I.pc + (le(1, N),)
    for q in MATS + ("coords",):
        ex = [N] if q.startswith("diffmat") else []
        same_value(S, I, f"{lab} {q}", call(I, b, q, *ex), call(I, inner, q, *ex), *I.pc)
    S.side(I, lab)


# --------------------------------------------------------------------- C21
RUNTIME = ("index", "slice", "shape", "div0", "extlen", "fftlen", "zip", "arith", "sign", "cast")


def C21(S):
    for name in solvers(S):
        S.group(name, lambda name=name: c21_solver(S, name))
    for ty in TYPES:
        for kind in (["new"] if ty != "ChebyshevComposite" else COMPO):
            for op in OPS:
                S.group(f"{ty} {kind} {op}_slice", lambda ty=ty, op=op, kind=kind: c21_slice(S, ty, op, kind))
            for q in MATS + ("coords",):
                S.group(f"{ty} {kind} {q}", lambda ty=ty, kind=kind, q=q: c21_mat(S, ty, kind, q))
    S.contracts += [
        "tdma, pdma, pdma2: for every size n >= 0 and bands of lengths max(n - |offset|, 0), every unchecked access that is reached lies inside the slice it indexes, "
        "and no size arithmetic in the function wraps below zero after its run-time checks",
        "every constructor, conversion, transform, derivative and matrix of every base, for every n from 0 up and arrays of every length: the callers pass the solvers "
        "bands of exactly n - |offset| elements, and every unchecked access that is reached lies inside its vector; checked accesses, slices and shape checks may panic",
    ]
    S.assumptions += [
        "checked indexing, slicing, allocation with an impossible length, assert! and shape mismatches of ndarray panic; code after such a check runs only if it passes",
        "sizes up to 2^15 (bases) and 2^30 (solvers)",
    ]


def c21_solver(S, name):
    """the solver under its precondition on lengths only: any size, including those it rejects"""
    offs, minn = SOLVERS[name]
    f = S.crate.free[name][0]
    n = isym("n")
    I = S.interp((le(0, n), le(n, 2 ** 30)))
    I.runtime = RUNTIME
    all_o = [-k for k in reversed(offs)] + [0] + list(offs)
    rs = [ref(I, base_arr("b%d" % o, "F", isym(f"k{o}"))) for o in all_o]
    for o in all_o:
        I.pc = I.pc + (le(0, isym(f"k{o}")), eq(imax(n - abs(o), 0), isym(f"k{o}")))
    rr = ref(I, base_arr("rhs", "F", n))
    I.enumerate(lambda: I.call(f, None, rs + [rr], {}))
    S.side(I, name, ("unchecked", "uarith"))


def len_contract(name):
    offs, minn = SOLVERS[name]
    all_o = [-k for k in reversed(offs)] + [0] + list(offs)

    def c(I, fn, selfv, args, tenv, node):
        w = I.as_view(args[-1])
        n = w.dims[0]
        for o, a in zip(all_o, args):
            I.ob("unchecked", eq(n - abs(o), adims(I.snapshot(a))[0]), node, f"length of band {o} of {name}")
        I.assign_view(w, mk(AApp, "solve:" + name.replace("_checked", ""), tuple(I.snapshot(a) for a in args), tuple(w.dims), asort(I.snapshot(args[-1]))))
        return UNIT
    return c


def c21_setup(S, ty, kind):
    n = isym("n")
    I = S.interp((le(0, n), le(n, 2 ** 15)), {k: len_contract(k) for k in SOLVERS})
    I.runtime = RUNTIME
    return I, n


def c21_slice(S, ty, op, kind):
    si = in_sorts(ty, op)
    sorts = ("F", "C") if ty.startswith("Cheb") and op in ("to_ortho", "from_ortho", "gradient") else (si,)
    for s in sorts:
        I, n = c21_setup(S, ty, kind)
        a, b = isym("la"), isym("lb")
        N = P(isym("N"))
        I.pc = I.pc + (le(0, a), le(0, b), le(0, N))

        def run():
            o = construct(I, kind, n, ty)
            call(I, o, OPS[op][0], ref(I, base_arr("v", s, a)), ref(I, base_arr("old", out_sort(ty, op, s), b)), *([N] if op == "gradient" else []))
        I.enumerate(run)
        S.side(I, f"{ty} {kind} {op}_slice ({s})", ("unchecked", "uarith"))


def c21_mat(S, ty, kind, q):
    I, n = c21_setup(S, ty, kind)
    cases = [()] if not q.startswith("diffmat") else ([(k,) for k in (1, 2, 3, 4)] if ty.startswith("Cheb") else [(P(isym("N")),)])
    I.pc = I.pc + (le(0, isym("N")), le(isym("N"), 2 ** 15))
    for ex in cases:
        I.enumerate(lambda: call(I, construct(I, kind, n, ty), q, *ex))
    S.side(I, f"{ty} {kind} {q}", ("unchecked", "uarith"))
