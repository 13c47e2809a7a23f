"""Further models of the standard library and of ndarray: less common iterator adaptors, slices and constructors"""
from interp import *
from rustparse import P as PARSER
from terms import *
P = __import__("terms").P


def pull(v, xs=None):
    return v


# ------------------------------------------------------------------ free functions
def free(I, n, segs, args, e):
    """-> (value,) or None"""
    q = segs[-2][0] if len(segs) > 1 else None
    if q in ("mem", None) and n == "replace" and len(args) == 2 and isinstance(args[0], Ref):
        old = I.read_place(args[0].place)
        I.write_place(args[0].place, I.deref(args[1]) if not isinstance(args[1], View) else args[1])
        return (old,)
    if q in ("mem", None) and n == "take" and len(args) == 1 and isinstance(args[0], Ref):
        old = I.read_place(args[0].place)
        v = I.deref(old)
        if isinstance(v, EnumV) and v.ty == "Option":
            new = NONE
        elif isinstance(v, Seq) and v.kind == "vec" or isinstance(v, ARRAY) and len(adims(v)) == 1:
            new = Seq([], "vec")
        elif isinstance(v, (Poly, SInt)):
            new = SInt(0, v.ty) if isinstance(v, SInt) else P(0)
        elif isinstance(v, SCALAR):
            new = ZERO
        else:
            return None
        I.write_place(args[0].place, new)
        return (old,)
    if q in ("iter", None):
        if n == "once" and len(args) == 1:
            return ([args[0]],)
        if n == "empty" and not args:
            return ([],)
        if n == "repeat" and len(args) == 1:
            x = args[0]
            return (It(P(mk(ISym, "infinity")), lambda t: x, "inf"),)
        if n in ("repeat_n",) and len(args) == 2:
            x = args[0]
            return (It(I.int_(args[1], e), lambda t: x),)
        if n == "zip" and len(args) == 2 and q == "iter":
            from builtins_rs import izip, as_iter
            return (izip(I, as_iter(I, args[0], e), as_iter(I, args[1], e)),)
        if n == "successors" and len(args) == 2:
            o = I.deref(args[0])
            if isinstance(o, EnumV) and o.variant == "Some":
                a = I.deref(o.xs[0])
                s = mk(ISym, fresh("s"))
                if isinstance(a, (Poly, SInt)):
                    ty = a.ty if isinstance(a, SInt) else None
                    I.bound.append(s)
                    I.quiet += 1
                    try:
                        cell = Ref(Place(I.new(SInt(P(s), ty) if ty else P(s))))
                        r = I.deref(I.call_clo(I.deref(args[1]), [cell]))
                    finally:
                        I.quiet -= 1
                        I.bound.pop()
                    if isinstance(r, EnumV) and r.variant == "Some":
                        d = I.int_(r.xs[0]) - P(s)
                        if s not in fv(d):
                            p = I.int_(a)
                            return (It(P(mk(ISym, "infinity")), lambda t: SInt(p + d * t, ty) if ty else p + d * t, "inf"),)
    if n in ("aview1", "aview2", "aview_mut1"):
        return (I.as_view(args[0], e),)
    if n in ("concatenate", "stack"):
        from builtins_rs import axis_of
        vs = [I.snapshot(x) for x in I.deref(args[1]).xs] if isinstance(I.deref(args[1]), Seq) else None
        if vs:
            ax = axis_of(I, args[0])
            d = adims(vs[0])
            if n == "stack":
                bs = tuple(mk(ISym, fresh("v")) for _ in range(len(d) + 1))
                ix = tuple(P(b) for b in bs)
                rest = ix[:ax] + ix[ax + 1:]
                I.ob("shape", conj(*[eq(x, y) for v in vs[1:] for x, y in zip(d, adims(v))]), e, "shapes in stack")
                val = aread(vs[-1], rest)
                for k in range(len(vs) - 2, -1, -1):
                    val = vite(eq(ix[ax], k), aread(vs[k], rest), val)
                return (EnumV("Result", "Ok", [mk(ALam, bs, val, d[:ax] + (P(len(vs)),) + d[ax:])]),)
            bs = tuple(mk(ISym, fresh("v")) for _ in d)
            ix = tuple(P(b) for b in bs)
            I.ob("shape", conj(*[eq(x, y) for v in vs[1:] for k, (x, y) in enumerate(zip(d, adims(v))) if k != ax]), e, "shapes in concatenate")
            offs, o = [], P(0)
            for v in vs:
                offs.append(o)
                o = o + adims(v)[ax]
            val = None
            for v, off in reversed(list(zip(vs, offs))):
                r = aread(v, ix[:ax] + (ix[ax] - off,) + ix[ax + 1:])
                val = r if val is None else vite(lt(ix[ax], off + adims(v)[ax]), r, val)
            return (EnumV("Result", "Ok", [mk(ALam, bs, val, d[:ax] + (o,) + d[ax + 1:])]),)
    if n == "arr1":
        return (I.snapshot(args[0]),)
    if n == "arr2":
        return (rows(I, I.deref(args[0]), e),)
    return None


def rows(I, v, e):
    """nested literal -> array"""
    if not isinstance(v, Seq):
        return I.snapshot(v)
    xs = [I.deref(x) for x in v.xs]
    if xs and all(isinstance(x, Seq) for x in xs):
        k = len(xs[0].xs)
        if any(len(x.xs) != k for x in xs):
            raise Unsupported("rows of different lengths", e)
        a = mk(AConst, ZERO, (P(len(xs)), P(k)))
        for i, r in enumerate(xs):
            for j, x in enumerate(r.xs):
                a = I.arr_store(a, (P(i), P(j)), I.deref(x))
        return a
    return I.snapshot(Seq(xs, "vec"))


def targs(I, node, args):
    """explicit generic arguments of a call"""
    tenv = {}
    for (g, kind, _), a in zip(node.generics, [a for a in args if isinstance(a, tuple) and a[0] in ("type", "expr")]):
        if a[0] == "expr":
            tenv[g] = I.int_(I.expr(a[1]))
        elif kind == "const":
            n = tyname(a[1])
            if isinstance(I.tenv.get(n), Poly):
                tenv[g] = I.tenv[n]
            elif n in I.crate.consts:
                tenv[g] = I.int_(I.const(n))
            else:
                raise Unsupported("const argument")
        else:
            tenv[g] = I.ty(a[1])
    return tenv


def split_axis(I, w, ax, m, e):
    n = w.dims[ax]
    I.ob("slice", conj(le(0, m), le(m, n)), e, "split in range")
    lo = View(w.src, w.dims[:ax] + (m,) + w.dims[ax + 1:], w.f, w.std and ax == 0)
    hi = View(w.src, w.dims[:ax] + (n - m,) + w.dims[ax + 1:], lambda j: w.f(tuple(j[:ax]) + (j[ax] + m,) + tuple(j[ax + 1:])), w.std and ax == 0)
    return Seq([lo, hi])


def shaped(I, w, d, e):
    """a slice as an array of dimensions d"""
    n = P(1)
    for x in d:
        n = n * x
    if len(w.dims) != 1:
        raise Unsupported("from_shape", e)
    I.ob("shape", eq(n, w.dims[0]), e, "length of the slice and shape")

    def f(j):
        lin = P(0)
        for x, k in zip(j, d):
            lin = lin * k + P(x)
        return w.f((lin,))
    return View(w.src, tuple(d), f)


def azip(I, e, n):
    """azip!((index i, a in x, &b in y) body)"""
    from builtins_rs import lanes_arg, zip_for_each
    from rustparse import lex
    p = PARSER(e.toks, "macro")
    p.eat("(")
    parts, pats = [], []
    while not p.is_(")"):
        if p.isid("index"):
            p.i += 1
            pats.append(p.pattern())
            parts.append(Opaque("index"))
        else:
            pats.append(p.pattern())
            p.eat("in")
            parts.append(lanes_arg(I, I.expr(p.expr()), e))
        if not p.take(","):
            break
    p.eat(")")
    body = p.expr()
    clo = Clo(N("closure", e.line, ps=[(q, None) for q in pats], body=body), list(I.env), I.fnstack[-1] if I.fnstack else None)
    return zip_for_each(I, parts, clo, "for_each", e)


def is_nd(I, v):
    return isinstance(v, (View,) + ARRAY) and not (isinstance(v, Seq))


def along(I, w, ax, f, e):
    """array of f(lane along ax) over the other axes"""
    from builtins_rs import lane_view
    dims = w.dims[:ax] + w.dims[ax + 1:]
    bs = tuple(mk(ISym, fresh("v")) for _ in dims)
    I.bound += list(bs)
    pc = I.pc
    I.pc = pc + tuple(c for b, n in zip(bs, dims) for c in (le(0, P(b)), lt(P(b), n)))
    try:
        v = I.elem(I.merged(lambda: f(lane_view(w, ax, tuple(P(b) for b in bs)))))
    finally:
        I.pc = pc
        if bs:
            del I.bound[-len(bs):]
    return mk(ALam, bs, v, dims) if bs else v


# ------------------------------------------------------------------ iterators
def iter_method(I, it, name, args, e):
    """-> (value,) or None"""
    from builtins_rs import ilen, iget, m_iter, It_nd, as_iter, small
    isl = isinstance(it, list)
    if not isl and getattr(it, "stages", None):
        return None
    if name == "cycle":
        n = ilen(it)
        if isl and not it:
            return ([],)
        if isl:
            xs = [I.deref(x) for x in it]
            return (It(P(mk(ISym, "infinity")), lambda t: I.seq_get(Seq(xs, "array"), imod(t, n)), "inf"),)
        return (It(P(mk(ISym, "infinity")), lambda t: it.elem(imod(t, n)), "inf"),)
    if name in ("remainder", "into_remainder") and hasattr(it, "rem"):
        return (it.rem,)
    if name == "unzip" and not isl:
        def part(k):
            return m_iter(I, It(it.n, lambda t: I.deref(it.elem(t)).xs[k], it.note), "collect", [], e)
        return (Seq([part(0), part(1)]),)
    if name == "unzip":
        xs = [I.deref(x) for x in it]
        return (Seq([Seq([I.deref(x.xs[k]) for x in xs], "vec") for k in (0, 1)]),)
    if name in ("flat_map", "flatten"):
        f = I.deref(args[0]) if name == "flat_map" else None

        def inner(x):
            return as_iter(I, I.call_clo(f, [x]) if f is not None else x, e)
        if isl:
            out = None
            for x in it:
                y = inner(x)
                if getattr(y, "stages", None):
                    return None
                out = y if out is None else m_iter(I, out, "chain", [y], e)
            return (out if out is not None else [],)
        s = mk(ISym, fresh("v"))
        I.bound.append(s)
        pc = I.pc
        I.pc = pc + (le(0, P(s)), lt(P(s), it.n))
        try:
            y = inner(it.elem(P(s)))
        finally:
            I.pc = pc
            I.bound.pop()
        if getattr(y, "stages", None) or not isinstance(y, list) and (y.note == "inf" or s in fv(y.n) or hasattr(y, "nd")):
            return None
        m = ilen(y)
        return (It_nd(I, (it.n, m), lambda ix: (lambda z: iget(I, z, ix[1]) if not isinstance(z, list) or P(ix[1]).const() is not None else I.seq_get(
            Seq([I.deref(w) for w in z], "array"), ix[1]))(inner(it.elem(ix[0])))),)
    if name == "take_while" and not isl:
        f = I.deref(args[0])
        s = mk(ISym, fresh("q"))
        I.bound.append(s)
        I.quiet += 1
        pc = I.pc
        I.pc = pc + (le(0, P(s)), lt(P(s), it.n)) if it.note != "inf" else pc + (le(0, P(s)),)
        try:
            c = I.cond(I.call_clo(f, [Ref(Place(I.new(I.deref(it.elem(P(s))))))]), e)
        finally:
            I.pc = pc
            I.quiet -= 1
            I.bound.pop()
        k = I.solve_count(c, s, e)
        return (It(k if it.note == "inf" else imin(it.n, k), it.elem),)
    if name == "try_fold" and not isl:
        f = I.deref(args[1])
        pl = Place(I.new(I.deref(args[0])))
        kind = []

        def step(x):
            r = I.deref(I.call_clo(f, [I.read_place(pl), x]))
            if not isinstance(r, EnumV) or r.variant not in ("Some", "Ok"):
                raise Unsupported("try_fold that stops", e)
            kind.append(r)
            I.write_place(pl, I.deref(r.xs[0]))
        I.for_each(it, step, e)
        if not kind:
            return None
        return (EnumV(kind[0].ty, kind[0].variant, [I.read_place(pl)]),)
    if name == "last" and not isl and it.note != "inf":
        if not I.choose_known(le(1, it.n)):
            return (NONE,)
        return (some(it.elem(it.n - 1)),)
    if name in ("min", "max") and not isl and it.note != "inf":
        # of a linear sequence of integers
        s = mk(ISym, fresh("q"))
        v = I.deref(it.elem(P(s)))
        if isinstance(v, (Poly, SInt)):
            l = I.int_(v).lin(s)
            if l and s not in fv(l[1]):
                if not I.choose_known(le(1, it.n)):
                    return (NONE,)
                return (some(I.deref(it.elem(it.n - 1 if (l[0] > 0) == (name == "max") else P(0)))),)
    return None


# ------------------------------------------------------------------ arrays
def array_method(I, recv, v, name, args, e):
    """-> (value,) or None"""
    from builtins_rs import as_iter, axis_of, for_all, m_iter
    if name in ("chunks_exact_mut", "chunks_exact"):
        w = I.as_view(recv, e)
        k = I.int_(args[0])
        n = w.dims[0]
        I.ob("chunk", le(1, k), e, "chunk size is positive")
        cnt = idiv(n, k)
        r = It(cnt, lambda t: View(w.src, (k,), lambda i, t=t: w.f((i[0] + t * k,)), w.std))
        r.rem = View(w.src, (n - cnt * k,), lambda i: w.f((i[0] + cnt * k,)), w.std)
        return (r,)
    if name in ("split_first", "split_first_mut", "split_last", "split_last_mut"):
        w = I.as_view(recv, e)
        n = w.dims[0]
        if not I.choose_known(le(1, n)):
            return (NONE,)
        if "first" in name:
            return (some(Seq([I.view_elem(w, (P(0),)), View(w.src, (n - 1,), lambda i: w.f((i[0] + 1,)), w.std)])),)
        return (some(Seq([I.view_elem(w, (n - 1,)), View(w.src, (n - 1,), w.f, w.std)])),)
    if name == "extend" and isinstance(recv, Ref):
        from builtins_rs import method_val
        it = as_iter(I, args[0], e)
        if not isinstance(it, list) and it.note == "inf":
            return None
        for_all(I, it, lambda x: method_val(I, recv, "push", [I.deref(x)], e), e)
        return (UNIT,)
    if name == "copy_within":
        w = I.as_view(recv, e)
        s = I.snapshot(I.slice_range(w, I.deref(args[0]), e))
        d = I.int_(args[1])
        I.assign_view(I.slice_range(w, Rng(d, d + adims(s)[0], False), e), s)
        return (UNIT,)
    if name in ("outer_iter", "outer_iter_mut", "axis_iter", "axis_iter_mut"):
        w = I.as_view(recv, e)
        ax = axis_of(I, args[0]) if args else 0
        dims = w.dims[:ax] + w.dims[ax + 1:]
        return (It(w.dims[ax], lambda t: View(w.src, dims, lambda j, t=t: w.f(tuple(j[:ax]) + (P(t),) + tuple(j[ax:])), w.std and ax == 0)),)
    if name in ("rotate_left", "rotate_right"):
        w = I.as_view(recv, e)
        k, n = I.int_(args[0]), w.dims[0]
        I.ob("slice", conj(le(0, k), le(k, n)), e, "rotation in range")
        s = I.snapshot(w)
        b = mk(ISym, fresh("v"))
        m = k if name == "rotate_left" else n - k
        I.assign_view(w, mk(ALam, (b,), aread(s, (iite(lt(P(b) + m, n), P(b) + m, P(b) + m - n),)), w.dims))
        return (UNIT,)
    if name in ("scaled_add",) and len(args) == 2:
        w = I.as_view(recv, e)
        a, s = I.deref(args[0]), I.snapshot(args[1])
        I.ob("shape", conj(*[eq(x, y) for x, y in zip(w.dims, adims(s))]) if len(adims(s)) == len(w.dims) else FALSE, e, "shapes of scaled_add")
        cur = I.snapshot(w)
        bs = tuple(mk(ISym, fresh("v")) for _ in w.dims)
        ix = tuple(P(b) for b in bs)
        I.assign_view(w, mk(ALam, bs, I.binop("+", aread(cur, ix), I.binop("*", a, aread(s, ix), e), e), w.dims))
        return (UNIT,)
    if name == "zip_mut_with":
        from builtins_rs import lanes_arg, zip_for_each
        zip_for_each(I, [Opaque("elems", I.as_view(recv, e)), Opaque("elems", I.as_view(args[0], e))], I.deref(args[1]), "for_each", e)
        return (UNIT,)
    if name in ("slice_axis", "slice_axis_mut") and len(args) == 2:
        w = I.as_view(recv, e)
        ax = axis_of(I, args[0])
        r = I.deref(args[1])
        if isinstance(r, Opaque) and r.kind == "Slice":
            r = r.a[0]
        if isinstance(r, Rng):
            r = [Rng(None, None, False)] * ax + [r] + [Rng(None, None, False)] * (len(w.dims) - ax - 1)
            return (I.nd_slice(w, Opaque("s!", r), e),)
    if name == "multi_slice_mut":
        w = I.as_view(recv, e)
        return (Seq([I.nd_slice(w, I.deref(x), e) for x in I.deref(args[0]).xs]),)
    if name in ("sum_axis", "map_axis", "fold_axis"):
        w = I.as_view(recv, e)
        ax = axis_of(I, args[0])
        if name == "map_axis":
            f = I.deref(args[1])
            return (along(I, w, ax, lambda lane: I.call_clo(f, [lane]), e),)
        if name == "sum_axis":
            return (along(I, w, ax, lambda lane: m_iter(I, as_iter(I, lane, e), "sum", [], e), e),)
        f = I.deref(args[2])
        return (along(I, w, ax, lambda lane: m_iter(I, as_iter(I, lane, e), "fold", [I.deref(args[1]), f], e), e),)
    if name == "insert_axis":
        w = I.as_view(recv, e)
        ax = axis_of(I, args[0])
        return (View(w.src, w.dims[:ax] + (P(1),) + w.dims[ax:], lambda j: w.f(tuple(j[:ax]) + tuple(j[ax + 1:])), w.std),)
    if name == "remove_axis":
        w = I.as_view(recv, e)
        ax = axis_of(I, args[0])
        return (View(w.src, w.dims[:ax] + w.dims[ax + 1:], lambda j: w.f(tuple(j[:ax]) + (P(0),) + tuple(j[ax:])), w.std),)
    if name == "broadcast":
        from builtins_rs import dims_of
        w = I.as_view(recv, e)
        d = dims_of(I, args[0], e)
        k = len(d) - len(w.dims)
        if k >= 0 and all(I.known(eq(a, b)) for a, b in zip(d[k:], w.dims)):
            return (some(View(w.src, d, lambda j: w.f(tuple(j[k:])), False)),)
    if name == "into_raw_vec_and_offset" and len(I.as_view(recv, e).dims) == 1:
        return (Seq([I.snapshot(recv), some(P(0))]),)
    if name == "assume_init":
        return (I.snapshot(recv),)
    return None
