"""Contracts of the distributed part: src/space_mpi (C22, C23, C24)."""
from specs_space import *

DIST = "Distribution"


def floors(n, p):
    """candidates for the start index of rank i when n points are split over p ranks: the ranks with one point more
    come last, or first"""
    s = idiv(n, p)
    nu = n - s * p
    return [("the larger pencils are the last ones", lambda i: P(i) * s + imax(0, P(i) - (p - nu))),
            ("the larger pencils are the first ones", lambda i: P(i) * s + imin(P(i), nu))]


def ok(c, *pc):
    ctx = Ctx().add(*pc)
    return ctx.consistent() and prove_cond(c, ctx, 2)[0]


def split_pre(n, p):
    return (le(1, p), le(p, n), le(n, 2 ** 30))


def run_distribute(S, n, p, pc):
    I = S.interp(pc)
    fs = S.crate.find(f"{DIST}::distribute")
    if not fs:
        raise Unsupported("Distribution::distribute not found")
    r = I.call(fs[0], None, [n, p], {})
    return I, [I.snapshot(a) for a in r.xs]


def choose_form(S, st, en, sz, n, p, pc, i):
    """the closed form that the three tables satisfy, by induction over the rank"""
    best = None
    for what, ST in floors(n, p):
        F = lambda k, ST=ST: [eq(reads(st, k), ST(k)), eq(reads(en, k), ST(k + 1) - 1), eq(reads(sz, k), ST(k + 1) - ST(k))]  # noqa: E731
        good = all(ok(c, *pc) for c in F(P(0))) and all(ok(c, *pc, le(1, i), lt(i, p), *F(i - 1)) for c in F(i))
        if good:
            return what, ST, F
        best = best or (what, ST, F)
    return best


def start(n, p, q):
    return P(mk(IApp, "start", (P(n), P(p), P(q))))


def size(n, p, q):
    return P(mk(IApp, "size", (P(n), P(p), P(q))))


def part_facts(n, p, *qs):
    """what C22 proves about the parts of n points over p ranks, for the ranks qs (guarded by 0 <= q < p)"""
    out = [eq(start(n, p, 0), 0), eq(start(n, p, p - 1) + size(n, p, p - 1), n)]
    for q in qs:
        q = P(q)
        g = conj(*within(q, p))
        out += [imp(g, c) for c in (le(0, start(n, p, q)), le(1, size(n, p, q)), le(start(n, p, q) + size(n, p, q), n),
                                    eq(start(n, p, q + 1), start(n, p, q) + size(n, p, q)))]
    for q in qs:
        for r in qs:
            if q is not r:
                out.append(imp(conj(*within(q, p), *within(r, p), lt(q, r)), le(start(n, p, q) + size(n, p, q), start(n, p, r))))
    return out


def distribute_contract(I, fn, selfv, args, tenv, node):
    n, p = I.int_(args[0]), I.int_(args[1])
    I.require("pre", le(1, p), node, "at least one process")
    if I.known(lt(n, p)):
        raise Panic("more processes than points", getattr(node, "line", None))
    I.require("pre", le(p, n), node, "no more processes than points")
    b = mk(ISym, fresh("q"))
    t = lambda v: mk(ALam, (b,), v, (p,))  # noqa: E731
    st, sz = start(n, p, P(b)), size(n, p, P(b))
    return Seq([t(st), t(st + sz - 1), t(sz)])


def pencil_parts(n, p, q, contig):
    """st, en, sz of rank q, per axis"""
    out = []
    for a in range(2):
        if a == contig:
            out.append((P(0), P(n[a]) - 1, P(n[a])))
        else:
            st, sz = start(n[a], p, q), size(n[a], p, q)
            out.append((st, st + sz - 1, sz))
    return out


def mpi_pc(n, p, r):
    return (le(1, p), le(p, n[0]), le(p, n[1]), le(n[0], 2 ** 15), le(n[1], 2 ** 15), *within(r, p))


def c22_new(S, contig):
    n, p, r, q = [isym("n0"), isym("n1")], isym("p"), isym("r"), isym("q")
    pc = mpi_pc(n, p, r)
    S.sat("Distribution::new", *pc)
    I = S.interp(pc, {"Distribution::distribute": distribute_contract})
    fs = S.crate.find(f"{DIST}::new")
    d = I.call(fs[0], None, [Seq(list(n), "array"), p, r, P(contig)], {"N": P(2)})
    nm = f"Distribution::new, axis {contig} contiguous"
    for k, j in (("st", 0), ("en", 1), ("sz", 2)):
        a = I.snapshot(d.fields[k + "_procs"])
        dims_are(S, f"{nm}: extents of {k}_procs", a, (p, 2), *pc)
        for ax in (0, 1):
            S.holds(f"{nm}: {k}_procs[q][{ax}]", eq(reads(a, q, ax), pencil_parts(n, p, q, contig)[ax][j]), *pc, *within(q, p))
            own = d.fields[k]
            S.holds(f"{nm}: {k}[{ax}]", eq(I.int_(own.xs[ax]) if isinstance(own, Seq) else reads(I.snapshot(own), ax),
                                          pencil_parts(n, p, r, contig)[ax][j]), *pc)
    for k, v in (("nprocs", p), ("nrank", r), ("axis_contig", P(contig))):
        S.holds(f"{nm}: {k}", eq(I.int_(d.fields[k]), v), *pc)
    S.side(I, nm)
    # length of the pencil
    I2 = S.interp(pc)
    obj, _ = make_pencil(I2, n, p, r, contig)
    clone_same(S, I2, nm, obj, *pc)
    ln = I2.int_(call(I2, obj, "length"))
    z = pencil_parts(n, p, r, contig)
    S.holds(f"{nm}: length", eq(ln, z[0][2] * z[1][2]), *pc)
    a = 1 - contig
    S.holds(f"{nm}: product of bounded numbers", le(n[contig] * size(n[a], p, r), n[contig] * n[a]), *pc, *part_facts(n[a], p, r))
    S.side(I2, nm + " length", facts=part_facts(n[a], p, r) + [le(n[contig] * size(n[a], p, r), n[contig] * n[a]), le(n[0] * n[1], 2 ** 30)])


def c22_bad_axis(S):
    n, p, r, a = [isym("n0"), isym("n1")], isym("p"), isym("r"), isym("axis")
    pc = mpi_pc(n, p, r) + (le(2, a),)
    I = S.interp(pc, {"Distribution::distribute": distribute_contract})
    fs = S.crate.find(f"{DIST}::new")
    for pc2, res, st, exc in I.enumerate(lambda: I.call(fs[0], None, [Seq(list(n), "array"), p, r, a], {"N": P(2)})):
        if not isinstance(exc, Panic):
            S.holds("Distribution::new: an axis other than 0 and 1 is rejected", FALSE, *pc2)
        else:
            S.holds("Distribution::new: an axis other than 0 and 1 is rejected", TRUE, *pc2)


def make_pencil(I, n, p, r, contig):
    """the Distribution object that Distribution::new is proved to return"""
    b, c = mk(ISym, fresh("q")), mk(ISym, fresh("c"))
    parts = pencil_parts(n, p, P(b), contig)
    f = {}
    for j, k in enumerate(("st", "en", "sz")):
        f[k] = Seq([x[j] for x in pencil_parts(n, p, r, contig)], "array")
        f[k + "_procs"] = mk(ALam, (b, c), iite(eq(P(c), 0), parts[0][j], parts[1][j]), (p, P(2)))
    f.update(nprocs=P(p), nrank=P(r), axis_contig=P(contig))
    return Obj(DIST, f), parts


def new_contract(I, fn, selfv, args, tenv, node):
    g = I.deref(args[0])
    n = [I.int_(x) for x in g.xs]
    p, r, a = (I.int_(x) for x in args[1:])
    if a.const() not in (0, 1):
        raise Unsupported("axis of a pencil", node)
    I.require("pre", conj(le(1, p), *within(r, p)), node, "rank of an existing process")
    I.require("pre", le(p, n[1 - a.const()]), node, "no more processes than points")
    return make_pencil(I, n, p, r, int(a.const()))[0]


def world(p, r):
    return Opaque("world", P(p), P(r))


def make_decomp(I, n, p, r):
    fs = I.crate.find("Decomp2d::new")
    return I.call(fs[0], None, [Opaque("universe", P(p), P(r)), Seq([P(x) for x in n], "array")], {})


def c22_decomp(S):
    n, p, r = [isym("n0"), isym("n1")], isym("p"), isym("r")
    pc = mpi_pc(n, p, r)
    I = S.interp(pc, {"Distribution::new": new_contract})
    d = make_decomp(I, n, p, r)
    for ax, pen in ((0, "x_pencil"), (1, "y_pencil")):
        want = pencil_parts(n, p, r, ax)
        o = d.fields[pen]
        for k, j in (("st", 0), ("en", 1), ("sz", 2)):
            for a in (0, 1):
                S.holds(f"Decomp2d::new: {pen}.{k}[{a}]", eq(I.int_(o.fields[k].xs[a]), want[a][j]), *pc)
        S.holds(f"Decomp2d::new: {pen} contiguous axis", eq(I.int_(o.fields["axis_contig"]), ax), *pc)
        sh = I.deref(call(I, d, f"get_{pen}_shape"))
        for a in (0, 1):
            S.holds(f"Decomp2d::get_{pen}_shape [{a}]", eq(I.int_(sh.xs[a]), want[a][2]), *pc)
    sh = I.deref(call(I, d, "get_global_shape"))
    for a in (0, 1):
        S.holds(f"Decomp2d::get_global_shape [{a}]", eq(I.int_(sh.xs[a]), n[a]), *pc)
    clone_same(S, I, "Decomp2d", d, *pc)
    S.holds("Decomp2d::new: nprocs", eq(I.int_(d.fields["nprocs"]), p), *pc)
    S.holds("Decomp2d::new: nrank", eq(I.int_(d.fields["nrank"]), r), *pc)
    S.side(I, "Decomp2d::new")


def C22(S):
    S.group("distribute", lambda: c22_distribute(S))
    for a in (0, 1):
        S.group(f"Distribution::new {a}", lambda a=a: c22_new(S, a))
    S.group("Distribution::new bad axis", lambda: c22_bad_axis(S))
    S.group("Decomp2d::new", lambda: c22_decomp(S))
    S.group("distribute rejects more processes than points", lambda: c22_reject(S))
    S.group("partition", lambda: c22_partition(S))
    if S.crate.find(f"{DIST}::check_shape"):
        for a in (0, 1):
            S.group(f"Distribution::check_shape {a}", lambda a=a: c22_check_shape(S, a))
        S.contracts.append("Distribution::check_shape(data): returns only if the shape of data is that of the pencil, and panics only if it is not")
    S.contracts += [
        "Distribution::distribute(n, p), 1 <= p <= n: st[i] = S(i), en[i] = S(i+1)-1, sz[i] = S(i+1)-S(i) for 0 <= i < p, where S(i) = "
        "i*(n/p) + max(0, i-(p-n%p)) (or the form with the larger pencils first)",
        "lemmas: S(0) = 0, S(p) = n, 1 <= n/p <= S(i+1)-S(i) <= n/p+1, and en(i) < st(j) for i < j",
        "Distribution::distribute(n, p), p > n: panics",
    ]


def c22_distribute(S):
    n, p, i = isym("n"), isym("p"), isym("i")
    pc = split_pre(n, p)
    S.sat("distribute", *pc)
    I, (st, en, sz) = run_distribute(S, n, p, pc)
    for nm, a in (("st", st), ("en", en), ("sz", sz)):
        dims_are(S, f"distribute: length of {nm}", a, (p,), *pc)
    what, ST, F = choose_form(S, st, en, sz, n, p, pc, i)
    for nm, c in zip(("st", "en", "sz"), F(P(0))):
        S.holds(f"distribute: {nm}[0]", c, *pc)
    for nm, c in zip(("st", "en", "sz"), F(i)):
        S.holds(f"distribute: {nm}[i] from the values of rank i-1", c, *pc, le(1, i), lt(i, p), *F(i - 1))
    S.side(I, "distribute", facts=F(p - 1) + F(P(0)))


def c22_reject(S):
    n, p = isym("n"), isym("p")
    pc = (le(1, p), le(0, n), lt(n, p), le(p, 2 ** 30))
    S.sat("distribute with p > n", *pc)
    I = S.interp(pc)
    fs = S.crate.find(f"{DIST}::distribute")
    k = 0
    for pc2, res, st, exc in I.enumerate(lambda: I.call(fs[0], None, [n, p], {})):
        k += 1
        if isinstance(exc, Panic):
            continue
        S.holds("distribute: returns only if p <= n", FALSE, *pc2)
    S.holds("distribute: panics if p > n", B(k > 0))


def c22_check_shape(S, a):
    mpi_theory()
    n, p, r = [isym("n0"), isym("n1")], isym("p"), isym("r")
    pc = (le(1, p), *within(r, p)) + tuple(conj(le(1, x), le(x, 2 ** 15), le(p, x)) for x in n)
    free = [isym("a0"), isym("a1")]
    for what, sh in (("the pencil's shape", None), ("any shape", free)):
        I = S.interp(pc + tuple(c for x in free for c in (le(0, x), le(x, 2 ** 15))))
        d = make_pencil(I, n, p, r, a)[0]
        shape = [x[2] for x in pencil_parts(n, p, r, a)]
        v = ref(I, base_arr("data", "F", *(sh or shape)))
        k = 0
        for pc2, _, _, exc in I.enumerate(lambda: call(I, d, "check_shape", v)):
            ctx2 = list(pc2) + [o.cond for o in I.obs if sh and o.kind in ("assert", "panic") and set(o.pc) <= set(pc2)]
            if isinstance(exc, Panic):
                if sh is None:
                    S.holds("check_shape: accepts the pencil's shape", FALSE, *pc2)
                continue
            k += 1
            if sh:
                for j in (0, 1):
                    S.holds(f"check_shape: returns only if axis {j} has the pencil's size", eq(sh[j], shape[j]), *ctx2)
        S.holds(f"check_shape: {what} can be passed", B(k > 0))
        if sh is None:
            S.side(I, "check_shape")


def c22_partition(S):
    n, p, i, j = isym("n"), isym("p"), isym("i"), isym("j")
    pc = split_pre(n, p)
    s = idiv(n, p)
    for what, ST in floors(n, p):
        S.holds(f"partition ({what}): starts at 0", eq(ST(0), 0), *pc)
        S.holds(f"partition ({what}): ends at n", eq(ST(p), n), *pc)
        w = within(i, p)
        S.holds(f"partition ({what}): sizes are n/p or n/p+1", conj(le(s, ST(i + 1) - ST(i)), le(ST(i + 1) - ST(i), s + 1)), *pc, *w)
        S.holds(f"partition ({what}): no pencil is empty", le(1, s), *pc)
        # (j-i-1)*s >= 0 is the product of two nonnegative numbers
        S.holds("partition: product of nonnegative numbers", le(0, (j - i - 1) * s), *pc, le(0, j - i - 1), le(0, s))
        S.holds(f"partition ({what}): pencils of different ranks are disjoint", le(ST(i + 1), ST(j)), *pc, *w, lt(i, j), lt(j, p),
                le(0, (j - i - 1) * s))


# ------------------------------------------------------------- C23: redistribution
# Facts about the parts of n points over p ranks (contracts of Distribution::distribute / ::new, proved in C22):
#   start(n,p,q), size(n,p,q): first index and number of the points of rank q; owner(n,p,e): rank that holds point e
def _parts(a):
    return a.args[1][:2]


def ax_start(a):
    n, p, q = a.args[1]
    g = (le(1, p), le(p, n))
    return [imp(conj(*g, le(0, q), le(q, p)), conj(le(0, P(a)), le(P(a), n))), imp(conj(*g, eq(q, 0)), eq(P(a), 0)),
            imp(conj(*g, eq(q, p)), eq(P(a), n))]


def ax_size(a):
    n, p, q = a.args[1]
    g = conj(le(1, p), le(p, n), *within(q, p))
    s = start(n, p, q)
    return [imp(g, conj(le(1, P(a)), le(0, s), le(s + P(a), n))), imp(conj(g, eq(q, p - 1)), eq(s + P(a), n)),
            imp(conj(g, eq(q, 0)), eq(s, 0))]


def ax_owner(a):
    n, p, e = a.args[1]
    o = P(a)
    return [imp(conj(le(1, p), le(p, n), *within(e, n)), conj(*within(o, p), le(start(n, p, o), e), lt(e, start(n, p, o) + size(n, p, o))))]


def ax_pair(a, b):
    if _parts(a) != _parts(b):
        return []
    n, p = _parts(a)
    g = (le(1, p), le(p, n))
    x, y = a.args[0], b.args[0]
    q, r = a.args[1][2], b.args[1][2]
    if x == "start" and y == "start":
        return [imp(conj(*g, le(0, i), lt(i, j), le(j, p)), le(start(n, p, i) + size(n, p, i), start(n, p, j))) for i, j in ((q, r), (r, q))] + [
            imp(conj(*g, le(0, i), lt(i, p), eq(j, i + 1)), eq(start(n, p, i) + size(n, p, i), start(n, p, j))) for i, j in ((q, r), (r, q))]
    if y == "owner":
        a, b, x, y, q, r = b, a, y, x, r, q
    if x == "owner" and y != "owner":
        s = start(n, p, r)
        return [imp(conj(*g, *within(r, p), le(s, q), lt(q, s + size(n, p, r))), eq(P(a), r))]
    return []


def norm_owner(args, ctx):
    n, p, e = args
    for at in e.atoms():
        if isinstance(at, IApp) and at.args[0] == "start" and at.args[1][:2] == (n, p):
            q = at.args[1][2]
            rest = e - P(at)
            if ctx.decide(conj(le(1, p), le(p, n), *within(q, p), le(0, rest), lt(rest, size(n, p, q)))):
                return q
    return None


def norm_start(args, ctx):
    n, p, q = args
    if ctx.decide(eq(q, 0)):
        return P(0)
    return None


def mpi_theory():
    prove.AXIOMS.update(start=ax_start, size=ax_size, owner=ax_owner)
    prove.AXIOMS2.append(ax_pair)
    prove.INORM.update(owner=norm_owner, start=norm_start)


def sum_rule(I, d, t, n):
    """partial sums of sizes are starts"""
    out = []
    for m, c in d.terms:
        hit = [(a, pw) for a, pw in m if isinstance(a, IApp) and a.args[0] == "size" and t in fv(P(a))]
        if len(hit) != 1 or hit[0][1] != 1 or any(t in fv(x) for x in hit[0][0].args[1][:2]):
            return None
        a = hit[0][0]
        k = P(c)
        for b, pw in m:
            if b is not a:
                if t in fv(P(b)):
                    return None
                for _ in range(pw):
                    k = k * P(b)
        np_, pp, q = a.args[1]
        l = q.lin(t)
        if not l or l[0] not in (1, -1) or t in fv(l[1]):
            return None
        s, o = l
        lo, hi = (o, o + n) if s == 1 else (o + 1 - n, o + 1)
        if not I.known(conj(le(1, pp), le(pp, np_), le(0, lo), le(hi, pp))):
            return None
        out.append((k, np_, pp, s, o))

    def st(np_, pp, q):
        return P(0) if q.const() == 0 else start(np_, pp, q)

    def closed(q):
        r = P(0)
        for k, np_, pp, s, o in out:
            r = r + k * (st(np_, pp, o + q) - st(np_, pp, o) if s == 1 else st(np_, pp, o + 1) - st(np_, pp, o + 1 - q))
        return r

    return closed if out else None


def owner_rule(I, parts, t, T):
    """start(t) <= e < start(t) + size(t) determines t"""
    ctx = None
    for q in parts:
        if not isinstance(q, CLe):
            continue
        for at in q.args[0].atoms():
            if not (isinstance(at, IApp) and at.args[0] == "start" and at.args[1][2] is P(t)):
                continue
            e = P(at) - q.args[0]
            if t in fv(e):
                continue
            n, p = at.args[1][:2]
            ctx = ctx or Ctx().add(*I.pc, *parts, le(0, t), lt(P(t), T.length))
            if not ctx.entails(conj(le(1, p), le(p, n), le(T.length, p), le(0, P(at)), le(P(at), e), lt(e, P(at) + size(n, p, t)))):
                continue
            o = P(mk(IApp, "owner", (n, p, e)))
            return conj(le(0, e), lt(e, n), *[subst(x, {t: o}) for x in parts]), o
    return None


def mpi_interp(S, pc, contracts=None):
    c = {"Distribution::new": new_contract}
    c.update(contracts or {})
    I = S.interp(pc, c)
    I.sums = (lambda d, t, n: sum_rule(I, d, t, n),)
    I.owners = (lambda parts, t, T: owner_rule(I, parts, t, T),)
    return I


def leaf_values(term, ctx, limit=60):
    """[(ctx, value)]: the term with all loop cells replaced by the values assigned to them, by cases"""
    out, stack, n = [], [(ctx, term)], 0
    while stack:
        c, x = stack.pop()
        if not c.consistent():
            continue
        n += 1
        if n > limit:
            raise prove.Undecided("too many cases")
        try:
            y = prove.resolve(x, c)
            k = 0
            while prove.latoms(y):
                y = prove.replace(y, {a: prove.unfold(a, c) for a in prove.latoms(y)}, None, c)
                k += 1
                if k > 12:
                    raise prove.Undecided("unfolding")
            out.append((c, y))
        except prove.Split as s:
            stack += [(c.add(neg(s.cond)), x), (c.add(s.cond), x)]
    return out


class Run:
    """one call of an operation of Decomp2d on rank r"""

    def __init__(self, S, n, p, r, op, ins, pc, extra=()):
        self.S, self.n, self.p, self.r = S, n, p, r
        self.pc = mpi_pc(n, p, r) + tuple(extra)
        self.I = I = mpi_interp(S, self.pc)
        d = make_decomp(I, n, p, r)
        self.args = [ref(I, base_arr(f"{nm}_{show(r)}", "F", *sh)) for nm, sh in ins]
        res = call(I, d, op, *self.args)
        self.res = I.snapshot(res) if res is not None and not isinstance(res, (tuple, Seq)) and res is not UNIT else None
        self.log = I.mpi_log
        self.pc = I.pc

    def inp(self, k=0):
        return self.I.snapshot(self.args[k])


def pencil_shape(n, p, r, contig):
    return [x[2] for x in pencil_parts(n, p, r, contig)]


def one_collective(run, kind, nm):
    S = run.S
    if len(run.log) != 1 or run.log[0]["kind"] != kind:
        S.fail(f"{nm}: exactly one collective call", f"{[l['kind'] for l in run.log]} instead of [{kind!r}]")
        return None
    rec = run.log[0]
    extra = [c for c in rec["pc"] if c not in run.pc]
    S.holds(f"{nm}: the collective is reached unconditionally", conj(*extra), *run.pc)
    if rec["root"] is not None:
        S.holds(f"{nm}: root is rank 0", eq(I_int(rec["root"]), 0), *run.pc)
    return rec


def I_int(x):
    return x.p if isinstance(x, SInt) else P(x)


def pencil_index(n, p, q, contig, i, t):
    """(global index, local index, ranges) of an element of the pencil of rank q: i along the contiguous axis, t along
    the split one"""
    a = 1 - contig
    g, l = [None, None], [None, None]
    g[contig] = l[contig] = P(i)
    l[a] = P(t)
    g[a] = start(n[a], p, q) + t
    return tuple(g), tuple(l), within(i, n[contig]) + within(t, size(n[a], p, q))


def received(S, nm, val, recv, seg, cnt, ctx, then):
    """val reads the receive buffer inside the segment [seg, seg+cnt): then(ctx, offset) closes the argument"""
    good = True
    try:
        ls = leaf_values(val, ctx)
    except prove.Undecided as u:
        S.undec(nm, str(u))
        return False
    for c, v in ls:
        if not (isinstance(v, FRead) and isinstance(v.args[0], ABase) and v.args[0].args[0] == recv.args[0]):
            S.fail(f"{nm}: is received data", f"{show(v)[:200]} instead of a received element under {', '.join(show(x) for x in c.conds[-4:])}", c.model())
            good = False
            continue
        for c, s in int_values(P(seg), c):
            u = v.args[1][0] - s
            good &= S.holds(nm + ": comes from the segment of the sending rank", conj(le(0, u), lt(u, cnt)), *c.conds, *product_facts(c, u, cnt))
            good &= then(c, u)
    return good


def int_values(p, ctx):
    """[(ctx, value)] of an integer term, by cases"""
    out, stack = [], [ctx]
    while stack:
        c = stack.pop()
        if not c.consistent():
            continue
        if len(out) + len(stack) > 30:
            raise prove.Undecided("too many cases")
        try:
            out.append((c, prove.resolve_int(p, c)))
        except prove.Split as s:
            stack += [c.add(neg(s.cond)), c.add(s.cond)]
    return out


def product_facts(ctx, *ps):
    """products of nonnegative numbers are nonnegative: (b - x)*s >= 0 for the monomials x*s in the polynomials, where
    0 <= x < b is known"""
    return []


def same_source(S, nm, sent, off, want, ctx, u=None):
    return S.zero(nm + ": is the element of the sender", fsub(aread(sent, (off,)), want), *ctx.conds)


XY = {"x": 0, "y": 1}


def c23_transpose(S, a, b):
    """pencil a (contiguous axis a) -> pencil b"""
    n, p, r, q, i, t = [isym("n0"), isym("n1")], isym("p"), isym("r"), isym("q"), isym("i"), isym("t")
    op = f"transpose_{a}_to_{b}"
    A, Bx = XY[a], XY[b]
    nm = f"Decomp2d::{op}"
    R = Run(S, n, p, r, op, [("snd", pencil_shape(n, p, r, A)), ("old", pencil_shape(n, p, r, Bx))], ())
    Q = Run(S, n, p, q, op, [("snd", pencil_shape(n, p, q, A)), ("old", pencil_shape(n, p, q, Bx))], ())
    rr, qq = one_collective(R, "alltoall", nm), one_collective(Q, "alltoall", nm)
    if rr is None or qq is None:
        return
    pc = R.pc + Q.pc
    seg, cnt = reads(rr["recv displs"], q), reads(rr["recv counts"], q)
    sseg, scnt = reads(qq["send displs"], r), reads(qq["send counts"], r)
    S.holds(f"{nm}: what rank q sends to rank r is what rank r expects from rank q", eq(scnt, cnt), *pc)
    S.holds(f"{nm}: received segments lie in the buffer", conj(le(0, seg), le(seg + cnt, adims(rr["recv"])[0])), *pc)
    S.holds(f"{nm}: sent segments lie in the buffer", conj(le(0, sseg), le(sseg + scnt, adims(qq["send"])[0])), *pc)
    # the element (s_b(r)+i, s_a(q)+t) of the global array: split axes are b's for the receiver, a's for the sender
    out = R.inp(1)
    dims_are(S, f"{nm}: result", out, pencil_shape(n, p, r, Bx), *R.pc)
    # receiver: contiguous axis Bx (global index start_q + t), split axis A' = 1-Bx (local index i)
    loc, src = [None, None], [None, None]
    loc[Bx], loc[1 - Bx] = start(n[Bx], p, q) + t, P(i)
    src[A], src[1 - A] = start(n[A], p, r) + i, P(t)
    ctx = Ctx().add(*pc, *within(i, size(n[A], p, r)), *within(t, size(n[Bx], p, q)))
    val = aread(out, tuple(loc))
    received(S, f"{nm}: element received from rank q", val, rr["recv"], seg, cnt, ctx,
             lambda c, u: same_source(S, nm, qq["send"], sseg + u, aread(Q.inp(0), tuple(src)), c))
    S.side(R.I, nm)


def c23_gather(S, c, every):
    """pencil c -> global array on the root (every: on all ranks)"""
    n, p, r, q, i, t = [isym("n0"), isym("n1")], isym("p"), isym("r"), isym("q"), isym("i"), isym("t")
    A = XY[c]
    a = 1 - A
    root = () if every else (eq(r, 0),)
    recvs = [(f"all_gather_{c}", True)] if every else [(f"gather_{c}_inplace_root", True), (f"gather_{c}_root", False)]
    sends = [(f"all_gather_{c}", ())] if every else [(f"gather_{c}", (le(1, q),)), (f"gather_{c}_inplace_root", (eq(q, 0),)),
                                                    (f"gather_{c}_root", (eq(q, 0),))]
    senders = []
    for op, extra in sends:
        ins = [("snd", pencil_shape(n, p, q, A))]
        if every or "inplace" in op:
            ins.append(("old", n))
        Q = Run(S, n, p, q, op, ins, (), extra)
        nm = f"Decomp2d::{op}"
        rec = one_collective(Q, "allgather" if every else "gather" if extra and extra[0] is le(1, q) else "gather root", nm)
        if rec is None:
            return
        S.side(Q.I, nm)
        senders.append((op, Q, rec))
    for op, inplace in recvs:
        nm = f"Decomp2d::{op}"
        R = Run(S, n, p, r, op, [("snd", pencil_shape(n, p, r, A))] + ([("old", n)] if inplace else []), (), root)
        rec = one_collective(R, "allgather" if every else "gather root", nm)
        if rec is None:
            return
        out = R.inp(1) if inplace else R.res
        dims_are(S, f"{nm}: result", out, n, *R.pc)
        seg, cnt = reads(rec["recv displs"], q), reads(rec["recv counts"], q)
        S.holds(f"{nm}: received segments lie in the buffer", conj(le(0, seg), le(seg + cnt, adims(rec["recv"])[0])), *R.pc, *within(q, p))
        g, l, rng = pencil_index(n, p, q, A, i, t)
        for op2, Q, rec2 in senders:
            pc = R.pc + Q.pc
            if not Ctx().add(*pc).consistent():
                continue
            S.holds(f"{nm}: rank q sends what is expected ({op2})", eq(adims(rec2["send"])[0], cnt), *pc)
            received(S, f"{nm}: element of rank q ({op2})", aread(out, g), rec["recv"], seg, cnt, Ctx().add(*pc, *rng),
                     lambda cc, u: same_source(S, f"{nm} ({op2})", rec2["send"], u, aread(Q.inp(0), l), cc))
        S.side(R.I, nm)


def c23_scatter(S, c):
    """global array on the root -> pencil c on every rank"""
    n, p, r, q, i, t = [isym("n0"), isym("n1")], isym("p"), isym("r"), isym("q"), isym("i"), isym("t")
    A = XY[c]
    roots = []
    for op in (f"scatter_{c}_inplace_root", f"scatter_{c}_root"):
        ins = [("snd", n)] + ([("old", pencil_shape(n, p, r, A))] if "inplace" in op else [])
        R = Run(S, n, p, r, op, ins, (), (eq(r, 0),))
        rec = one_collective(R, "scatter root", f"Decomp2d::{op}")
        if rec is None:
            return
        S.side(R.I, f"Decomp2d::{op}")
        roots.append((op, R, rec))
    for op, extra in ((f"scatter_{c}_inplace", le(1, q)), (f"scatter_{c}", le(1, q)), (f"scatter_{c}_inplace_root", eq(q, 0)), (f"scatter_{c}_root", eq(q, 0))):
        nm = f"Decomp2d::{op}"
        root = op.endswith("_root")
        ins = ([("snd", n)] if root else []) + ([("old", pencil_shape(n, p, q, A))] if "inplace" in op else [])
        Q = Run(S, n, p, q, op, ins, (), (extra,))
        rec = one_collective(Q, "scatter root" if root else "scatter", nm)
        if rec is None:
            return
        out = Q.inp(len(ins) - 1) if "inplace" in op else Q.res
        dims_are(S, f"{nm}: result", out, pencil_shape(n, p, q, A), *Q.pc)
        g, l, rng = pencil_index(n, p, q, A, i, t)
        for op2, R, rec2 in roots:
            pc = R.pc + Q.pc
            seg, cnt = reads(rec2["send displs"], q), reads(rec2["send counts"], q)
            S.holds(f"{nm}: rank q expects what is sent ({op2})", eq(adims(rec["recv"])[0], cnt), *pc)
            S.holds(f"{nm}: sent segments lie in the buffer ({op2})", conj(le(0, seg), le(seg + cnt, adims(rec2["send"])[0])), *pc)
            received(S, f"{nm}: element ({op2})", aread(out, l), rec["recv"], P(0), cnt, Ctx().add(*pc, *rng),
                     lambda cc, u: same_source(S, f"{nm} ({op2})", rec2["send"], seg + u, aread(R.inp(0), g), cc))
        S.side(Q.I, nm)


def c23_reject(S, c):
    """arrays of other shapes and calls from the wrong rank are rejected"""
    n, p, r = [isym("n0"), isym("n1")], isym("p"), isym("r")
    pen = {"x": pencil_shape(n, p, r, 0), "y": pencil_shape(n, p, r, 1), "g": n}
    o = "y" if c == "x" else "x"
    ops = [(f"transpose_{c}_to_{o}", (c, o), ()), (f"all_gather_{c}", (c, "g"), ()), (f"gather_{c}", (c,), (le(1, r),)),
           (f"gather_{c}_root", (c,), (eq(r, 0),)), (f"gather_{c}_inplace_root", (c, "g"), (eq(r, 0),)),
           (f"scatter_{c}", (), (le(1, r),)), (f"scatter_{c}_inplace", (c,), (le(1, r),)),
           (f"scatter_{c}_root", ("g",), (eq(r, 0),)), (f"scatter_{c}_inplace_root", ("g", c), (eq(r, 0),))]
    pc = mpi_pc(n, p, r)

    def outcomes(op, shapes, extra):
        I = mpi_interp(S, pc + tuple(extra))

        def run():
            I.mpi_log.clear()
            d = make_decomp(I, n, p, r)
            args = [ref(I, base_arr(f"arg{k}", "F", *sh)) for k, sh in enumerate(shapes)]
            call(I, d, op, *args)
        return I, I.enumerate(run)

    for op, shapes, rank in ops:
        nm = f"Decomp2d::{op}"
        for k in range(len(shapes)):
            free = [isym("a0"), isym("a1")]
            sh = [free if j == k else pen[x] for j, x in enumerate(shapes)]
            I, res = outcomes(op, sh, rank + (le(0, free[0]), le(0, free[1]), le(free[0], 2 ** 15), le(free[1], 2 ** 15)))
            for pc2, _, _, exc in res:
                if isinstance(exc, Panic):
                    continue
                ctx2 = list(pc2) + [o.cond for o in I.obs if o.kind == "assert" and set(o.pc) <= set(pc2)]
                for a in (0, 1):
                    S.holds(f"{nm}: returns only if argument {k} has its shape (axis {a})", eq(free[a], pen[shapes[k]][a]), *ctx2)
        if rank:
            I, res = outcomes(op, [pen[x] for x in shapes], (neg(rank[0]),))
            S.holds(f"{nm}: the wrong rank is rejected", B(all(isinstance(e, Panic) for *_, e in res)))


def c23_split(S, c):
    """split_array(_inplace): the part of the global array that belongs to the pencil"""
    n, p, r, i, t = [isym("n0"), isym("n1")], isym("p"), isym("r"), isym("i"), isym("t")
    A = XY[c]
    pc = mpi_pc(n, p, r)
    g, l, rng = pencil_index(n, p, r, A, i, t)
    G = base_arr("G", "F", *n)
    for op in (f"split_array_{c}_pencil", "split_array", "split_array_inplace"):
        nm = f"{op} ({c} pencil)"
        I = mpi_interp(S, pc)
        obj = make_decomp(I, n, p, r) if op.endswith("pencil") else make_pencil(I, n, p, r, A)[0]
        args = [ref(I, G)]
        if "inplace" in op:
            args.append(ref(I, base_arr("old", "F", *pencil_shape(n, p, r, A))))
        res = call(I, obj, op, *args)
        out = I.snapshot(args[1] if "inplace" in op else res)
        dims_are(S, f"{nm}: result", out, pencil_shape(n, p, r, A), *pc)
        S.zero(f"{nm}: entries", fsub(aread(out, l), aread(G, g)), *pc, *rng)
        S.side(I, nm)


def C23(S):
    mpi_theory()
    S.assumptions += [
        "MPI collectives behave as the standard says: segment q of the receive buffer is what rank q sends to this rank; root 0",
        "start/size/owner of the parts: contracts of Distribution::distribute and Distribution::new (C22); every index of the split axis "
        "lies in exactly one part",
        "all ranks build the decomposition with the same global shape and call the same operation",
        "extents up to 2^15 per axis (counts are cast to i32)",
    ]
    for a, b in (("x", "y"), ("y", "x")):
        S.group(f"transpose {a} {b}", lambda a=a, b=b: c23_transpose(S, a, b))
    for c in "xy":
        S.group(f"all_gather {c}", lambda c=c: c23_gather(S, c, True))
        S.group(f"gather {c}", lambda c=c: c23_gather(S, c, False))
        S.group(f"scatter {c}", lambda c=c: c23_scatter(S, c))
        S.group(f"split {c}", lambda c=c: c23_split(S, c))
        S.group(f"reject {c}", lambda c=c: c23_reject(S, c))
    S.contracts += [
        "transpose_a_to_b: if snd_q is the a-pencil of rank q of a global array for all q, rcv_r is the b-pencil of rank r of it",
        "gather/all_gather: rcv is the global array of which snd_q is the pencil; scatter: rcv_q is the pencil of rank q of snd on the root",
        "scatter followed by gather, and transposing there and back, return the original data (composition of the contracts)",
        "arrays of other shapes and calls from the wrong rank panic",
    ]


# ------------------------------------------------------------- C25: scalar collectives
def free(S, name):
    fs = S.crate.find(name)
    if not fs:
        raise Unsupported(f"{name} not found")
    return fs[0]


def is_sum(S, nm, v, cell, n, pc):
    """v = sum of cell(t) for 0 <= t < n, by induction over the loop that computes it"""
    t = isym("t")
    if not (isinstance(v, FRead) and isinstance(v.args[0], ALoop)):
        S.undec(nm, f"not the value of a loop: {show(v)[:200]}")
        return
    a, ln = v.args[0], P(v.args[1][0])
    ctx = list(pc)
    for first, term in ((P(0), lambda t: cell(t)), (P(0), lambda t: cell(n - 1 - t)), (P(1), lambda t: cell(t + 1))):
        if not ok(eq(ln, n - first), *ctx):
            continue
        base = cell(P(0)) if first.const() else ZERO
        obs = [(aread(a, (P(0),)), base, ctx), (aread(a, (t + 1,)), fadd(aread(a, (t,)), term(t)), ctx + [*within(t, ln)])]
        if all(not prove.prove_zero(fsub(x, y), Ctx().add(*c)) for x, y, c in obs):
            break
    else:
        first, term, base = P(0), lambda t: cell(t), ZERO
        obs = [(aread(a, (P(0),)), base, ctx), (aread(a, (t + 1,)), fadd(aread(a, (t,)), term(t)), ctx + [*within(t, ln)])]
    S.holds(nm + ": number of summands", eq(ln, n - first), *ctx)
    S.zero(nm + ": starts with the empty sum", fsub(obs[0][0], obs[0][1]), *obs[0][2])
    S.zero(nm + ": every rank's value is added once", fsub(obs[1][0], obs[1][1]), *obs[1][2])


def scalar_run(S, name, args, p, r, pc):
    I = S.interp(pc)
    rs = [ref(I, x) for x in args]
    I.call(free(S, name), None, [Opaque("universe", p, r), *rs], {})
    return I, [I.deref(x) for x in rs]


def one_record(S, nm, I, kind, pc):
    if len(I.mpi_log) != 1 or I.mpi_log[0]["kind"] != kind:
        S.fail(f"{nm}: exactly one collective call", f"{[x['kind'] for x in I.mpi_log]} instead of [{kind!r}]")
        return None
    rec = I.mpi_log[0]
    S.holds(f"{nm}: the collective is reached unconditionally", conj(*[c for c in rec["pc"] if c not in pc]), *pc)
    if rec["root"] is not None:
        S.holds(f"{nm}: root is rank 0", eq(I_int(rec["root"]), 0), *pc)
    return rec


def c25_broadcast(S):
    p, r = isym("p"), isym("r")
    pc = (le(1, p), le(p, 2 ** 30), *within(r, p))
    S.sat("broadcast_scalar", *pc)
    x = fsym("x")
    I, (v,) = scalar_run(S, "broadcast_scalar", [x], p, r, pc)
    rec = one_record(S, "broadcast_scalar", I, "broadcast", pc)
    if rec is None:
        return
    S.equal("broadcast_scalar: the value given is what takes part", rec["send"], x, *pc)
    S.equal("broadcast_scalar: every rank keeps the broadcast value", v, rec["recv"], *pc)
    S.side(I, "broadcast_scalar")


def c25_sum(S, name, every):
    p, r = isym("p"), isym("r")
    base = (le(1, p), le(p, 2 ** 30), *within(r, p))
    cases = [("", "allgather one", ())] if every else [(" on the root", "gather one root", (eq(r, 0),)), (" elsewhere", "gather one", (le(1, r),))]
    for wh, kind, extra in cases:
        nm = name + wh
        pc = base + extra
        S.sat(nm, *pc)
        x, old = fsym("x"), fsym("old")
        I, (x2, v) = scalar_run(S, name, [x, old], p, r, pc)
        rec = one_record(S, nm, I, kind, pc)
        if rec is None:
            continue
        S.equal(f"{nm}: the value given is what is sent", rec["send"], x, *pc)
        S.equal(f"{nm}: the value given is kept", x2, x, *pc)
        if kind == "gather one":
            S.equal(f"{nm}: the result is not touched", v, old, *pc)
        else:
            S.holds(f"{nm}: one cell per rank is received", eq(adims(rec["recv"])[0], p), *pc)
            is_sum(S, f"{nm}: the result is the sum", v, lambda t, a=rec["recv"]: aread(a, (P(t),)), p, pc)
        S.side(I, nm)


def C25(S):
    S.assumptions += ["MPI broadcast, gather and allgather behave as the standard says; root 0; all ranks call the same function",
                      "sums of scalars are exact (rounding, hence the order of summation, out of scope)"]
    S.group("broadcast", lambda: c25_broadcast(S))
    S.group("gather_sum", lambda: c25_sum(S, "gather_sum", False))
    S.group("all_gather_sum", lambda: c25_sum(S, "all_gather_sum", True))
    S.contracts += [
        "broadcast_scalar(u, data): exactly one broadcast with root 0, of data as given; data = the broadcast value",
        "gather_sum(u, data, result): on rank 0 result = sum over q < p of the value rank q gives, elsewhere result unchanged; data unchanged",
        "all_gather_sum(u, data, result): result = sum over q < p of the value rank q gives, on every rank; data unchanged",
    ]
