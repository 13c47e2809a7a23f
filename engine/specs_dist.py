"""Contracts of the distributed space Space2Mpi (C24)."""
from specs_mpi import *

MPI_SPACES = [("ch", "cd"), ("cn", "ch"), ("cd", "bb"), ("r2c", "ch"), ("r2c", "cn"), ("c2c", "r2c"), ("c2c", "c2c"), ("r2", "cd"), ("c2c", "r2")]


def global_of(I, d):
    """global shape of a decomposition"""
    return [I.int_(x) for x in I.deref(call(I, d, "get_global_shape")).xs]


def same_shape(I, w, sh, node, what):
    I.require("pre", conj(*[eq(x, y) for x, y in zip(w.dims, sh)]), node, what)


def on_rank(I, a, q):
    """what rank q holds in an array: all ranks execute the same code"""
    r = next(iter(fv(I.mpi_rank)))
    return subst(a, {r: P(q)})


def whole(I, n, p, contig, a):
    """the global array whose pencils are the arrays a of the ranks"""
    sx = 1 - contig
    xs = tuple(mk(ISym, fresh("g")) for _ in range(2))
    g = [P(x) for x in xs]
    o = P(mk(IApp, "owner", (n[sx], p, g[sx])))
    l = list(g)
    l[sx] = g[sx] - start(n[sx], p, o)
    return mk(ALam, xs, reads(on_rank(I, a, o), *l), tuple(n))


def part(n, p, r, contig, g):
    """pencil of rank r of a global array"""
    sx = 1 - contig
    xs = tuple(mk(ISym, fresh("l")) for _ in range(2))
    l = [P(x) for x in xs]
    l[sx] = l[sx] + start(n[sx], p, r)
    return mk(ALam, xs, reads(g, *l), tuple(pencil_shape(n, p, r, contig)))


def collective_pc(I, node):
    """a collective operation is reached by all ranks or by none"""
    for c in I.pc:
        if c not in I.mpi_pc0 and fv(I.mpi_rank) & fv(c):
            raise Unsupported("a collective operation under a condition that depends on the rank", node)


def redistribution(I, fn, selfv, args, node):
    p, r = I.mpi_size, I.mpi_rank
    n = global_of(I, selfv)
    return n, p, r, [I.as_view(a, node) for a in args]


def has_loop(x, seen=None):
    seen = set() if seen is None else seen
    if isinstance(x, (tuple, list)):
        return any(has_loop(y, seen) for y in x)
    if isinstance(x, Cx):
        return has_loop((x.re, x.im), seen)
    if not isinstance(x, Node) or id(x) in seen:
        return False
    seen.add(id(x))
    return isinstance(x, (ALoop, AState)) or has_loop(x.args, seen)


def closed_form(I, a):
    """the array with the loop cells replaced by the values assigned to them (entries inside its extents)"""
    xs = tuple(mk(ISym, fresh("e")) for _ in adims(a))
    ctx = Ctx().add(*I.pc, *[c for x, d in zip(xs, adims(a)) for c in within(x, d)])
    v = reads(a, *xs)
    if not has_loop(v):
        return a
    try:
        ps = [leaf_values(x, ctx) for x in ((v.re, v.im) if isinstance(v, Cx) else (v,))]
    except prove.Undecided:
        return a
    vs = []
    for cases in ps:
        w = cases[-1][1]
        for c, x in cases[:-1]:
            w = vite(conj(*[q for q in c.conds if q not in ctx.conds]), x, w)
        vs.append(w)
    return mk(ALam, xs, cx(*vs) if len(vs) == 2 else vs[0], adims(a))


def transpose_contract(a, b):
    def c(I, fn, selfv, args, tenv, node):
        n, p, r, (x, y) = redistribution(I, fn, selfv, args, node)
        same_shape(I, x, pencil_shape(n, p, r, XY[a]), node, f"the array sent is the {a} pencil of the decomposition")
        same_shape(I, y, pencil_shape(n, p, r, XY[b]), node, f"the array received is the {b} pencil of the decomposition")
        collective_pc(I, node)
        I.mpi_log.append(("transpose", n, I.pc))
        I.assign_view(y, part(n, p, r, XY[b], whole(I, n, p, XY[a], closed_form(I, I.snapshot(x)))))
        return UNIT
    return c


def rank_is(I, root, node):
    I.require("pre", eq(I.mpi_rank, 0) if root else le(1, I.mpi_rank), node, "the operation of the root is called on the root" if root else
              "the operation of the other ranks is called on the other ranks")


def gather_contract(c, kind):
    """kind: '' (not the root), '_root' (returns), '_inplace_root', 'all'"""
    def f(I, fn, selfv, args, tenv, node):
        n, p, r, ws = redistribution(I, fn, selfv, args, node)
        same_shape(I, ws[0], pencil_shape(n, p, r, XY[c]), node, f"the array is the {c} pencil of the decomposition")
        if kind != "all":
            rank_is(I, bool(kind), node)
        a = I.snapshot(ws[0])
        I.mpi_log.append(("all_gather" if kind == "all" else "gather", c, n, a, I.pc))
        if kind == "":
            return UNIT
        g = whole(I, n, p, XY[c], a)
        if kind == "_root":
            return g
        same_shape(I, ws[1], n, node, "the global array has the shape of the decomposition")
        I.assign_view(ws[1], g)
        return UNIT
    return f


def scatter_contract(c, kind):
    """kind: '', '_inplace', '_root', '_inplace_root'"""
    def f(I, fn, selfv, args, tenv, node):
        n, p, r, ws = redistribution(I, fn, selfv, args, node)
        root = kind.endswith("_root")
        rank_is(I, root, node)
        if root:
            same_shape(I, ws[0], n, node, "the global array has the shape of the decomposition")
            g = I.snapshot(ws[0])
        else:
            g = None
        I.mpi_log.append(("scatter", c, n, g, I.pc))
        if "_inplace" in kind:
            w = ws[-1]
            same_shape(I, w, pencil_shape(n, p, r, XY[c]), node, f"the array is the {c} pencil of the decomposition")
            if g is None:
                g = mk(ABase, "rootdata", asort(I.snapshot(w)), tuple(n))
            I.assign_view(w, part(n, p, r, XY[c], g))
            return UNIT
        return part(n, p, r, XY[c], g if g is not None else mk(ABase, "rootdata", "F", tuple(n)))
    return f


def decomp_contracts():
    d = {}
    for a, b in (("x", "y"), ("y", "x")):
        d[f"Decomp2d::transpose_{a}_to_{b}"] = transpose_contract(a, b)
    for c in "xy":
        d[f"Decomp2d::all_gather_{c}"] = gather_contract(c, "all")
        for k in ("", "_root", "_inplace_root"):
            d[f"Decomp2d::gather_{c}{k}"] = gather_contract(c, k)
        for k in ("", "_inplace", "_root", "_inplace_root"):
            d[f"Decomp2d::scatter_{c}{k}"] = scatter_contract(c, k)
    return d


def make_mpi_space(S, keys, contracts=None, extra=()):
    """Space2Mpi on rank r of p.  r2c with two points has as many coefficients as points: a case of its own (key r2)"""
    ns = [P(2) if keys[k] == "r2" else isym(f"n{k}") for k in range(2)]
    keys = ["r2c" if k == "r2" else k for k in keys]
    p, r = isym("p"), isym("r")
    pc = [c for k, n in zip(keys, ns) for c in (le((2 if k != "r2c" or n is P(2) else 3) if k in ("ch", "r2c", "c2c") else 10, n), le(n, 2 ** 15))]
    pc += [le(1, p), *within(r, p)]
    cs = {"Distribution::new": new_contract}
    cs.update(decomp_contracts())
    cs.update(contracts if contracts is not None else slice_contracts())
    I = mpi_interp(S, tuple(pc) + tuple(extra), cs)
    bs = [lib_base(I, k, n) for k, n in zip(keys, ns)]
    I.pc = I.pc + tuple(le(p, length(I, b, w)) for b in bs for w in ("len_phys", "len_spec"))
    I.mpi_size, I.mpi_rank, I.mpi_pc0 = p, r, I.pc
    fs = I.crate.methods["Space2Mpi"]["new"]
    sp = I.call(fs[0], None, [ref(I, b) for b in bs] + [Opaque("universe", P(p), P(r))], {"Self": Ty("Space2Mpi")})
    return I, sp, bs, p, r


def old_pencil(I, sort, sh, r):
    """previous contents of an output, different on every rank"""
    xs = tuple(mk(ISym, fresh("o")) for _ in sh)
    b = mk(ABase, "old", sort, (P(2 ** 20),) + tuple(P(x) for x in sh))
    return mk(ALam, xs, reads(b, r, *xs), tuple(P(x) for x in sh))


MPI_OPS = {  # operation: pencil of the input, pencil of the output
    "forward": ("y", "x"), "backward": ("x", "y"), "to_ortho": ("x", "x"), "from_ortho": ("x", "x"), "gradient": ("x", "x"),
}


def c24_op(S, keys, op, var, scaled=False):
    I, sp, bs, p, r = make_mpi_space(S, keys)
    (si, ni), (so, no) = space_io(I, bs, op)
    lab = f"Space2Mpi{keys} {op}{var}" + (" scaled" if scaled else "")
    ex, counts = (), None
    if op == "gradient":
        counts, ss, ex = grad_args(I, 2, scaled)
        I.mpi_pc0 = I.pc
    S.sat(lab, *I.pc)
    ci, co = (XY[x] for x in MPI_OPS[op])
    V = base_arr("v", si, *ni)
    vin = part(ni, p, r, ci, V)
    sh = pencil_shape(no, p, r, co)

    def run():
        ri = ref(I, vin)
        if "inplace" in var:
            ro = ref(I, old_pencil(I, so, sh, r))
            call(I, sp, op + var, ri, ro, *ex)
            return out_of(I, ri), out_of(I, ro)
        x = call(I, sp, op + var, ri, *ex)
        return out_of(I, ri), I.snapshot(x)

    for pc, (after, out), st in paths(S, I, run, lab):
        unchanged(S, lab + ": input unchanged", after, vin)
        dims_are(S, lab + ": pencil of the result", out, sh, *pc)
        if len(adims(out)) != 2:
            continue
        i, t = isym("i"), isym("t")
        g, l, rng = pencil_index(no, p, r, co, i, t)

        def form(o):
            e = reads(tensor(I, bs, op, V, o, counts), *g)
            if scaled:
                q = ONE
                for s, d in zip(ss, counts):
                    q = fmul(q, fapp("pow", s, P(d)))
                return I.binop("/", e, q, None)
            return e
        alternatives(S, lab + ": pencil of the serial result", reads(out, *l), [form(o) for o in orders(I, bs, op)], *pc, *rng)
    S.side(I, lab)


def c24_shapes(S, keys):
    I, sp, bs, p, r = make_mpi_space(S, keys)
    lab = f"Space2Mpi{keys}"
    clone_same(S, I, lab, sp, *I.pc)
    ph, spec = space_sorts(I, bs)
    for kind, w, so in (("physical", "len_phys", ph), ("spectral", "len_spec", spec)):
        n = [length(I, b, w) for b in bs]
        for c in "xy":
            sh = pencil_shape(n, p, r, XY[c])
            same_value(S, I, f"{lab} shape_{kind}_{c}_pen", call(I, sp, f"shape_{kind}_{c}_pen"), Seq(sh, "array"), *I.pc)
            a = I.snapshot(call(I, sp, f"ndarray_{kind}_{c}_pen"))
            dims_are(S, f"{lab} ndarray_{kind}_{c}_pen: shape", a, sh, *I.pc)
            i, t = isym("i"), isym("t")
            if len(adims(a)) == 2:
                S.zero(f"{lab} ndarray_{kind}_{c}_pen: zero", reads(a, i, t), *I.pc, *within(i, sh[0]), *within(t, sh[1]))
    S.holds(f"{lab} get_nrank", eq(I.int_(call(I, sp, "get_nrank")), r), *I.pc)
    S.holds(f"{lab} get_nprocs", eq(I.int_(call(I, sp, "get_nprocs")), p), *I.pc)
    for ws in (("len_phys", "len_phys"), ("len_spec", "len_phys"), ("len_phys", "len_spec"), ("len_spec", "len_spec")):
        n = [length(I, b, w) for b, w in zip(bs, ws)]
        d = call(I, sp, "get_decomp_from_global_shape", ref(I, Seq(list(n), "array")))
        for a in (0, 1):
            S.holds(f"{lab} get_decomp_from_global_shape {ws}[{a}]", eq(global_of(I, d)[a], n[a]), *I.pc)
    S.side(I, lab + " shapes")


def c24_moves(S, keys):
    """gather, all_gather, scatter, transpose of the space: the operation of the named decomposition"""
    ph = {"phys": "len_phys", "spec": "len_spec"}
    for w in ph:
        for c in "xy":
            o = "y" if c == "x" else "x"
            ops = [(f"transpose_{c}_to_{o}_{w}", ("transpose",), "io", None), (f"all_gather_from_{c}_pencil_{w}", ("all_gather", c), "ig", None),
                   (f"gather_from_{c}_pencil_{w}", ("gather", c), "i", False), (f"gather_from_{c}_pencil_{w}_root", ("gather", c), "ig", True),
                   (f"scatter_to_{c}_pencil_{w}", ("scatter", c), "o", False), (f"scatter_to_{c}_pencil_{w}_root", ("scatter", c), "go", True)]
            for name, fam, form, root in ops:
                c24_move(S, keys, name, fam, form, root, c, ph[w])


def c24_move(S, keys, name, fam, form, root, c, which):
    rr = isym("r")
    I, sp, bs, p, r = make_mpi_space(S, keys, extra=() if root is None else ((eq(rr, 0),) if root else (le(1, rr),)))
    n = [length(I, b, which) for b in bs]
    sorts = space_sorts(I, bs)
    so = sorts[0] if which == "len_phys" else sorts[1]
    lab = f"Space2Mpi{keys} {name}"
    G = base_arr("G", so, *n)
    A = XY[c]
    sh = pencil_shape(n, p, r, A)
    i, t = isym("i"), isym("t")
    if fam[0] == "transpose":
        args = [ref(I, part(n, p, r, A, G)), ref(I, old_pencil(I, so, pencil_shape(n, p, r, 1 - A), r))]
        want, idx = part(n, p, r, 1 - A, G), (i, t)
    elif form == "ig":
        args = [ref(I, part(n, p, r, A, G)), ref(I, old_pencil(I, so, n, r))]
        want = G
    elif form == "i":
        args, want = [ref(I, part(n, p, r, A, G))], None
    elif form == "o":
        args, want = [ref(I, old_pencil(I, so, sh, r))], part(n, p, r, A, mk(ABase, "rootdata", so, tuple(n)))
    else:
        args, want = [ref(I, G), ref(I, old_pencil(I, so, sh, r))], part(n, p, r, A, G)
    I.mpi_log.clear()
    call(I, sp, name, *args)
    log = I.mpi_log
    if len(log) != 1 or tuple(log[0][:len(fam)]) != fam:
        S.fail(f"{lab}: exactly one operation, {' '.join(fam)}", str([x[0] for x in log]))
        return
    S.holds(f"{lab}: decomposition", conj(*[eq(a, b) for a, b in zip(log[0][len(fam)], n)]), *I.pc)
    if fam[0] == "gather":
        same_array(S, f"{lab}: what is sent", log[0][3], I.snapshot(args[0]), *I.pc)
    if want is not None:
        same_array(S, lab, out_of(I, args[-1]), want, *I.pc)
    S.side(I, lab)


def C24(S):
    mpi_theory()
    S.assumptions += [
        "MPI collectives behave as the standard says (C23); all ranks execute the same program with the same global shape, so that the array of rank q is the array of this "
        "rank with q in place of r",
        "start/size/owner of the parts: contracts of Distribution::new (C22)",
        "no more processes than points or coefficients along an axis (else a decomposition cannot be built, C22)",
    ]
    S.group("lemmas", lambda: lemmas.check(S, "Algebra", ["axes_commute", "has_matrix"]))
    for nd, keys in ((2, k) for k in MPI_SPACES):
        for op in SPACE_OPS:
            for var in ("_mpi", "_inplace_mpi") if op != "gradient" else ("_mpi",):
                for sc in (False, True) if op == "gradient" else (False,):
                    S.group(f"{keys} {op}{var} {sc}", lambda keys=keys, op=op, var=var, sc=sc: c24_op(S, keys, op, var, sc))
        S.group(f"{keys} shapes", lambda keys=keys: c24_shapes(S, keys))
        S.group(f"{keys} redistribution", lambda keys=keys: c24_moves(S, keys))
    S.contracts += [
        "Space2Mpi (every implemented combination of base types): if every rank passes its pencil of a global array, forward_mpi, backward_mpi, to_ortho_mpi, from_ortho_mpi "
        "(and _inplace_mpi) and gradient_mpi give every rank its pencil of the result of the serial space on the global array",
        "shape_*_x/y_pen, ndarray_*_x/y_pen: shape of the pencil of the decomposition of the named global shape; get_decomp_from_global_shape: the decomposition of this shape",
        "transpose_*, gather_*, all_gather_*, scatter_* of the space: exactly that operation of the decomposition of the named shape (contracts of C23)",
    ]
