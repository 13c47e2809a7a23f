"""Calls: functions of the crate, and the semantics assumed for the standard
library, num-traits / num-complex, ndarray and the FFT crates."""
from interp import *
from interp import P as PARSER  # noqa
from terms import *
from crate import Fn, tyname, tyargs
import more_rs
P = PP = __import__("terms").P

OPT = ("from_f64", "from_f32", "from_usize", "from_i32", "from_u32", "from_i64", "from_u64", "from_isize", "from_u8", "from_u16", "from_i128", "from_u128")
OPAQUE_NEW = ("DctPlanner", "FftPlanner", "RealFftPlanner")
ND = ("Array", "Array1", "Array2", "Array3", "ArrayD", "ArrayBase")


def call_path(I, f, args, e):
    segs = f.segs
    last = segs[-1][0]
    if f.qself is not None:
        ty = I.ty(f.qself) if not isinstance(f.qself, tuple) else I.ty(f.qself[0])
        return static_call(I, ty, last, args, segs[-1][1], e)
    if len(segs) == 1:
        return free_call(I, last, segs, args, e)
    q = segs[-2][0]
    # enum constructor
    ty = None
    if q in I.tenv:
        ty = I.tenv[q]
    elif len(segs) >= 3 and segs[-3][0] == "Self":
        a = I.assoc_ty(q)
        ty = I.ty(a) if a is not None else Ty(q)
    elif q and (q[0].isupper() or q in INT_BITS or q in ("f64", "f32")):
        ty = Ty(q, [I.ty(a[1]) for a in segs[-2][1] if a[0] == "type"])
    if ty is None:
        return free_call(I, last, segs, args, e)
    return static_call(I, ty, last, args, segs[-1][1], e)


def free_call(I, n, segs, args, e):
    if n == "Some":
        return some(args[0])
    if n == "Ok":
        return EnumV("Result", "Ok", args)
    if n == "Err":
        return EnumV("Result", "Err", args)
    if n == "Axis":
        return Obj("Axis", {"0": args[0]})
    if n in I.crate.structs:
        return Obj(n, {str(i): a for i, a in enumerate(args)})
    if n == "Self":
        return Obj(I.tenv["Self"].name, {str(i): a for i, a in enumerate(args)})
    fs = I.crate.free.get(n, [])
    if len(fs) > 1:
        path = "::".join(s[0] for s in segs[:-1])
        cur = I.fnstack[-1].mod if I.fnstack else ""
        g = [x for x in fs if path and x.mod.endswith(segs[-2][0])] if len(segs) > 1 else [x for x in fs if x.mod == cur]
        fs = g or fs
    if len(fs) == 1:
        tenv = more_rs.targs(I, fs[0].node, segs[-1][1])
        return I.call(fs[0], None, args, tenv, e)
    if n == "swap" and len(args) == 2:
        a, b = args[0].place, args[1].place
        x, y = I.read_place(a), I.read_place(b)
        I.write_place(a, y)
        I.write_place(b, x)
        return UNIT
    if n in ("min", "max") and len(args) == 2:
        return minmax(I, n, I.deref(args[0]), I.deref(args[1]), e)
    if n in ("drop", "forget"):
        return UNIT
    r = more_rs.free(I, n, segs, args, e)
    if r is not None:
        return r[0]
    raise Unsupported(f"function {'::'.join(s[0] for s in segs)}", e)


def minmax(I, n, a, b, e):
    if isinstance(a, (Poly, SInt)) and isinstance(b, (Poly, SInt)):
        x, y = I.int_(a), I.int_(b)
        r = imin(x, y) if n == "min" else imax(x, y)
        ty = a.ty if isinstance(a, SInt) else (b.ty if isinstance(b, SInt) else None)
        return SInt(r, ty) if ty else r
    if n == "min":
        return fite(I.binop("<=", a, b, e), a, b)
    return fite(I.binop("<=", a, b, e), b, a)


def dims_of(I, v, e=None):
    v = I.deref(v)
    if isinstance(v, Seq):
        return tuple(I.int_(x, e) for x in v.xs)
    if isinstance(v, Opaque) and v.kind in ("shape", "dim"):
        return tuple(P(x) for x in v.a[0])
    if isinstance(v, (Poly, SInt)):
        return (I.int_(v, e),)
    raise Unsupported(f"dimensions from {type(v).__name__}", e)


def as_num(I, v):
    v = I.deref(v)
    if isinstance(v, (Poly, SInt)):
        return fint(I.int_(v))
    return v


def find_assoc(I, tn, name):
    return I.crate.methods.get(tn, {}).get(name, [])


def static_call(I, ty, name, args, targs, e):
    tn = ty.name
    # enum variants
    if tn in I.crate.enums and any(v[0] == name for v in I.crate.enums[tn].variants):
        return EnumV(tn, name, args)
    fs = find_assoc(I, tn, name)
    if fs:
        fn = pick_impl(I, fs, args)
        tenv = {"Self": Ty(tn, ty.args)}
        for g, a in zip([g[0] for g in fn.impl.generics], ty.args):
            tenv[g] = a
        for (g, kind, _), a in zip(fn.node.generics, [a[1] for a in targs if a[0] == "type"]):
            tenv[g] = I.ty(a)
        if fn.node.selfp is not None:
            return I.call(fn, args[0], args[1:], {k: v for k, v in tenv.items() if k != "Self"}, e)
        return I.call(fn, None, args, tenv, e)
    if tn in I.crate.traits:
        return method_val(I, args[0], name, args[1:], e)
    if name == "clone" and len(args) == 1:
        return method_val(I, args[0], name, [], e) if isinstance(I.deref(args[0]), (Obj, EnumV)) else I.deref(args[0])
    # integers
    if tn in INT_BITS:
        if name in ("from", "try_from"):
            v = I.int_(args[0], e)
            sg, b = INT_BITS[tn]
            if v.const() is None and name == "try_from":
                I.ob("cast", conj(le(-(2 ** (b - 1)) if sg else 0, v), le(v, 2 ** (b - 1) - 1 if sg else 2 ** b - 1)), e, f"value fits {tn}")
            r = v if tn == "usize" else SInt(v, tn)
            return r if name == "from" else EnumV("Result", "Ok", [r])
        if args:
            return method_val(I, args[0], name, args[1:], e)
    if tn == "Complex":
        if name == "new":
            return cx(I.scalar(as_num(I, args[0]), e), I.scalar(as_num(I, args[1]), e))
        if name == "i":
            return cx(ZERO, ONE)
        if name == "zero":
            return cx(ZERO, ZERO)
        if name == "one":
            return cx(ONE, ZERO)
        if name == "from":
            return tocx(as_num(I, args[0]))
        if name in OPT:
            return some(tocx(as_num(I, args[0])))
        if args:
            return method_val(I, args[0], name, args[1:], e)
    if tn == "Vec":
        if name == "new":
            return Seq([], "vec")
        if name == "with_capacity":
            return Seq([], "vec")
        if name == "from":
            return to_vec(I, args[0])
    if tn in MAPS:
        if name in ("new", "with_capacity", "default"):
            return MapV()
        if name == "from":
            return MapV([(TRUE, map_key(I, x.xs[0], e), x.xs[1]) for x in map(I.deref, I.deref(args[0]).xs)])
    if tn in ("Arc", "Box", "Rc"):
        if name in ("new", "clone", "from"):
            return I.deref(args[0])
    if tn in ("Partition", "PartitionMut") and name == "new":
        return Obj(tn, {"buf": args[0], "counts": args[1], "displs": args[2]})
    if tn in OPAQUE_NEW and name == "new":
        return Opaque("planner", tn)
    if tn in ND or tn.startswith("Array"):
        r = nd_static(I, tn, name, args, e)
        if r is not None:
            return r
    if tn == "Zip" and name == "indexed":
        return Opaque("zip", [Opaque("index"), lanes_arg(I, args[0], e)])
    if tn == "Zip" and name == "from":
        return Opaque("zip", [lanes_arg(I, args[0], e)])
    if tn == "Slice" and name in ("from", "new"):
        if name == "from":
            return Opaque("Slice", I.deref(args[0]))
    if tn == "String":
        return Str("")
    # scalar types
    if name == "zero" and not args:
        return I.zero_of(ty)
    if name == "one" and not args:
        if ty.name in INT_BITS:
            return P(1) if ty.name == "usize" else SInt(1, ty.name)
        return cx(ONE, ZERO) if ty.name == "Complex" else ONE
    if name == "PI":
        return fsym("pi")
    if name in ("nan", "infinity", "epsilon", "max_value", "min_value", "min_positive_value"):
        return fsym(name)
    if name == "from" and len(args) == 1:
        v = as_num(I, args[0])
        v = single(v) if tn == "f32" else v
        return v if tn in ("f64", "f32") else some(v)
    if name in OPT and len(args) == 1:
        return some(single(as_num(I, args[0])) if name == "from_f32" else as_num(I, args[0]))
    if name == "default":
        return I.zero_of(ty)
    if args:
        return method_val(I, args[0], name, args[1:], e)
    raise Unsupported(f"{tn}::{name}", e)


def fits(I, it, o):
    """the implementation block is for the runtime type of o"""
    st = I.crate.structs.get(tyname(it.ty))
    if st is None or not isinstance(o, Obj):
        return True
    sg = [g[0] for g in st.generics]
    ia = tyargs(it.ty)
    gens = [g[0] for g in it.generics]
    for fname, fty in st.fields:
        n = tyname(fty)
        if n in sg and fname in o.fields and sg.index(n) < len(ia):
            an = tyname(ia[sg.index(n)])
            rt = I.rt_type(o.fields[fname])
            if an not in gens and rt is not None and rt.name != an:
                return False
    return True


def assoc_env(I, it, o, tenv):
    """associated types of an implementation block"""
    for x in it.a.get("items_x", ()):
        if x.k == "type" and x.name not in tenv:
            try:
                tenv[x.name] = I.ty(x.ty, dict(tenv))
            except Unsupported:
                pass


def pick_impl(I, fs, args, o=None):
    fs = [f for f in fs if o is None or f.impl is None or fits(I, f.impl, o)] or fs
    if len(fs) == 1:
        return fs[0]
    # several impl blocks: choose by arity, then by the current impl's generics
    g = [f for f in fs if len(f.node.params) + (1 if f.node.selfp is not None else 0) == len(args)]
    return (g or fs)[0]


def nd_static(I, tn, name, args, e):
    if name in ("zeros", "default"):
        d = dims_of(I, args[0], e)
        return mk(AConst, ZERO, d)
    if name == "ones":
        return mk(AConst, ONE, dims_of(I, args[0], e))
    if name == "from_elem":
        return I.make_array(args[1], dims_of(I, args[0], e), e)
    if name == "eye":
        n = I.int_(args[0], e)
        i, j = mk(ISym, fresh("v")), mk(ISym, fresh("v"))
        return mk(ALam, (i, j), fite(eq(P(i), P(j)), ONE, ZERO), (n, n))
    if name in ("from_vec", "from"):
        return I.as_view(args[0], e) if "View" in tn else I.snapshot(args[0])
    if name == "uninit":
        return mk(ABase, fresh("uninit"), "F", dims_of(I, args[0], e))
    if name in ("from_shape_fn",):
        d = dims_of(I, args[0], e)
        bs = tuple(mk(ISym, fresh("v")) for _ in d)
        I.bound += list(bs)
        pc = I.pc
        I.pc = pc + tuple(c for b, n in zip(bs, d) for c in (le(0, P(b)), lt(P(b), n)))
        try:
            ix = [P(b) for b in bs]
            v = I.elem(I.merged(lambda: I.call_clo(I.deref(args[1]), [ix[0] if len(d) == 1 else Seq(ix)])))
        finally:
            I.pc = pc
            del I.bound[-len(bs):]
        return mk(ALam, bs, fint(v) if isinstance(v, Poly) else v, d)
    if name == "from_diag":
        a = I.snapshot(args[0])
        n = adims(a)[0]
        i, j = mk(ISym, fresh("v")), mk(ISym, fresh("v"))
        return mk(ALam, (i, j), vite(eq(P(i), P(j)), aread(a, (P(i),)), ZERO), (n, n))
    if name == "from_shape" and "View" in tn:
        return EnumV("Result", "Ok", [more_rs.shaped(I, I.as_view(args[1], e), dims_of(I, args[0], e), e)])
    if name == "from_iter":
        return I.snapshot(m_iter(I, as_iter(I, args[0], e), "collect", [], e))
    if name in ("from_shape_vec",):
        d = dims_of(I, args[0], e)
        a = I.snapshot(args[1])
        if len(d) == 1:
            return EnumV("Result", "Ok", [a])
        return EnumV("Result", "Ok", [reshape(I, a, d)])
    return None


def reshape(I, a, d):
    """row-major reinterpretation of a vector as an array of dims d"""
    bs = tuple(mk(ISym, fresh("v")) for _ in d)
    lin = P(0)
    for b, n in zip(bs, d):
        lin = lin * n + P(b)
    return mk(ALam, bs, aread(a, (lin,)), tuple(d))


def to_vec(I, v, e=None):
    w = I.deref(v)
    if isinstance(w, Seq):
        return Seq([I.deref(x) for x in w.xs], "vec")
    return I.snapshot(v)


# ---------------------------------------------------------------- methods
def call_method(I, recv, e):
    args = [I.expr(a) for a in e.args]
    if e.name == "swap_axes" and isinstance(recv, View):
        # changes the view held by the variable
        recv = Ref(I.place(e.e))
    return method_val(I, recv, e.name, args, e, e.a.get("targs"))


def lookup_method(I, o, name):
    """crate method of an object: own impls, traits' default methods, enum_dispatch"""
    tn = o.ty
    fs = I.crate.methods.get(tn, {}).get(name)
    if fs:
        return fs, o
    for im in I.crate.impl_traits.get(tn, []):
        if im.trait is None:
            continue
        if not fits(I, im, o):
            continue
        t = tyname(im.trait)
        m = I.crate.trait_methods.get(t, {}).get(name)
        if m is not None and m.node.body is not None:
            return [m], o
    # enum_dispatch
    if isinstance(o, EnumV) and o.xs:
        p = I.deref(o.xs[0])
        if isinstance(p, (Obj, EnumV)):
            return None, p
    # blanket impls / supertraits: any trait default with this name
    c = [m[name] for t, m in I.crate.trait_methods.items() if name in m and m[name].node.body is not None]
    if len(c) == 1:
        return c, o
    return None, None


def derived_clone(I, v, e):
    """#[derive(Clone)]: field by field; fields whose type implements Clone by hand run that code"""
    if not any("clone" in m for m in I.crate.methods.values()):
        return v
    one = lambda x: method_val(I, Ref(Place(I.new(I.deref(x)))), "clone", [], e) if isinstance(I.deref(x), (Obj, EnumV)) and not isinstance(x, Ref) else x
    if isinstance(v, Obj):
        return Obj(v.ty, {k: one(x) for k, x in v.fields.items()})
    return EnumV(v.ty, v.variant, [one(x) for x in v.xs])


def method_val(I, recv, name, args, e, targs=None):
    v = I.deref(recv)
    if isinstance(v, Obj) and v.ty == "#Iter":
        import iterstate
        return iterstate.method(I, recv, v, name, args, e)
    # user types
    if isinstance(v, (Obj, EnumV)) and v.ty not in ("Option", "Result", "Axis"):
        fs, o = lookup_method(I, v, name)
        if fs is None and name == "clone":
            return derived_clone(I, v, e)
        if fs is None and o is not None:
            pl = recv.place if isinstance(recv, Ref) else Place(I.new(v))
            while isinstance(I.read_place(pl), Ref):
                pl = I.read_place(pl).place
            return method_val(I, Ref(Place(pl.cell, pl.path + (("f", "0"),))), name, args, e, targs)
        if fs:
            fn = pick_impl(I, fs, [None] + list(args), o)
            ta = [I.ty(a[1]) for a in (targs or []) if isinstance(a, tuple) and a[0] == "type"] if targs else []
            tenv = I.method_tenv(fn, v, ta)
            tenv.setdefault("Self", Ty(v.ty))
            for im in [fn.impl] if fn.impl is not None else I.crate.impl_traits.get(v.ty, []):
                if fits(I, im, v):
                    assoc_env(I, im, v, tenv)
            return I.call(fn, recv, args, tenv, e)
        if name == "clone":
            return v
    h = I.hooks.get(name)
    if h is not None:
        r = h(I, recv, v, args, e)
        if r is not NotImplemented:
            return r
    if isinstance(v, EnumV):
        return m_option(I, recv, v, name, args, e)
    if isinstance(v, (Poly, SInt)):
        return m_int(I, v, name, args, e)
    if name == "write" and isinstance(recv, Ref) and isinstance(v, SCALAR + (Cx,)) and len(args) == 1:
        # MaybeUninit::write
        I.write_place(recv.place, I.deref(args[0]))
        return recv
    if isinstance(v, Cx) or isinstance(v, SCALAR):
        return m_scalar(I, v, name, args, e)
    if isinstance(v, COND):
        if name in ("clone",):
            return v
        if name == "then":
            pass
    if isinstance(v, Rng):
        if name == "contains":
            x = I.int_(args[0], e)
            hi = I.int_(v.hi)
            return conj(le(I.int_(v.lo), x), le(x, hi) if v.incl else lt(x, hi))
        if name == "len":
            return I.clip(I.int_(v.hi) - I.int_(v.lo) + (1 if v.incl else 0))
        return m_iter(I, mkiter(I, recv, e), name, args, e)
    if isinstance(v, (It, list)):
        return m_iter(I, v, name, args, e)
    if isinstance(v, MapV):
        return m_map(I, recv, v, name, args, e)
    if isinstance(v, Opaque):
        return m_opaque(I, recv, v, name, args, e)
    if name == "push" and (isinstance(v, Seq) and v.kind == "vec" or isinstance(v, ARRAY) or isinstance(v, Obj) and v.ty == "GVec"):
        pl = recv.place
        while isinstance(I.read_place(pl), Ref):
            pl = I.read_place(pl).place
        I.push(pl, args[0], e)
        return UNIT
    if isinstance(v, Obj) and v.ty == "GVec":
        v = I.as_view(recv)
    if isinstance(v, Seq) and v.kind == "tuple":
        if name == "clone":
            return v
        if name == "f":
            return Seq(v.xs)
    if isinstance(v, (View, Seq) + ARRAY):
        return m_array(I, recv, v, name, args, e)
    if isinstance(v, Obj) and v.ty == "Axis" and name == "index":
        return v.fields["0"]
    if isinstance(v, Str):
        return v
    raise Unsupported(f"method {name} on {type(v).__name__}", e)


MAPS = ("HashMap", "BTreeMap")


def map_key(I, k, e):
    """keys are integers or tuples of integers"""
    k = I.deref(k)
    if isinstance(k, Seq):
        return tuple(I.int_(x, e) for x in k.xs)
    if isinstance(k, (Poly, SInt)):
        return (I.int_(k, e),)
    if isinstance(k, (View,) + ARRAY):
        w = I.as_view(k, e)
        n = w.dims[0].const() if len(w.dims) == 1 else None
        if n is not None:
            a = I.snapshot(w)
            return tuple(I.int_(aread(a, (P(i),)), e) for i in range(int(n)))
    raise Unsupported("key of a map", e)


def key_eq(a, b):
    return conj(*[eq(x, y) for x, y in zip(a, b)]) if len(a) == len(b) else FALSE


def map_get(I, m, k):
    """value stored under k, or None"""
    for g, x, v in reversed(m.ents):
        if I.choose_known(conj(g, key_eq(x, k))):
            return v
    return None


def m_map(I, recv, m, name, args, e):
    def put(v):
        pl = recv.place
        while isinstance(I.read_place(pl), Ref):
            pl = I.read_place(pl).place
        I.write_place(pl, v)
    if name in ("get", "contains_key", "insert", "entry", "index"):
        k = map_key(I, args[0], e)
    if name in ("get", "index"):
        v = map_get(I, m, k)
        if name == "index":
            if v is None:
                raise Panic("no entry for the key", getattr(e, "line", None))
            return v
        return some(v) if v is not None else EnumV("Option", "None")
    if name == "contains_key":
        return disj(*[conj(g, key_eq(x, k)) for g, x, _ in m.ents])
    if name == "insert":
        new = MapV(m.ents + ((TRUE, k, args[1]),))
        put(new)
        return UNIT
    if name == "entry":
        return Opaque("entry", recv, k)
    if name in ("len", "is_empty", "keys", "values"):
        n = P(0)
        for i, (g, x, _) in enumerate(m.ents):
            n = n + iite(conj(g, *[neg(conj(h, key_eq(y, x))) for h, y, _ in m.ents[:i]]), P(1), P(0))
        if name in ("keys", "values"):
            return Opaque("map " + name, n)
        return n if name == "len" else eq(n, 0)
    if name == "clone":
        return m
    raise Unsupported(f"method {name} of a map", e)


def m_entry(I, v, name, args, e):
    mref, k = v.a
    m = I.deref(mref)
    if name in ("or_insert", "or_insert_with"):
        old = map_get(I, m, k)
        if old is not None:
            return old
        x = args[0] if name == "or_insert" else I.call_clo(I.deref(args[0]), [])
        m_map(I, mref, I.deref(mref), "insert", [Seq(list(k)), x], e)
        return x
    raise Unsupported(f"method {name} of an entry", e)


def m_option(I, recv, v, name, args, e):
    ok = v.variant in ("Some", "Ok")
    if name in ("unwrap", "expect", "unwrap_or", "unwrap_or_default", "unwrap_or_else"):
        if ok:
            return v.xs[0]
        if name == "unwrap_or":
            return args[0]
        raise Panic("unwrap of " + v.variant, getattr(e, "line", None))
    if name in ("is_some", "is_ok"):
        return B(ok)
    if name in ("is_none", "is_err"):
        return B(not ok)
    if name in ("as_ref", "as_mut", "as_deref", "clone", "copied", "cloned", "ok", "take"):
        if name in ("copied", "cloned") and ok:
            return some(I.deref(v.xs[0]))
        if name in ("as_ref", "as_mut") and ok and isinstance(recv, Ref):
            x = v.xs[0]
            if isinstance(x, (Ref, View)):
                return EnumV(v.ty, v.variant, [x])
            pl = recv.place
            return EnumV(v.ty, v.variant, [Ref(Place(pl.cell, pl.path + (("f", "0"),)))])
        return v
    if name == "map":
        return some(I.call_clo(I.deref(args[0]), [v.xs[0]])) if ok else v
    if name == "filter":
        return v if ok and I.choose_known(I.cond(I.call_clo(I.deref(args[0]), [v.xs[0]]), e)) else NONE
    if name in ("is_some_and", "is_ok_and"):
        return I.cond(I.call_clo(I.deref(args[0]), [v.xs[0]]), e) if ok else FALSE
    if name == "zip":
        o = I.deref(args[0])
        return some(Seq([v.xs[0], o.xs[0]])) if ok and o.variant == "Some" else NONE
    if name == "map_err":
        return v if ok else EnumV("Result", "Err", [I.call_clo(I.deref(args[0]), [v.xs[0]])])
    if name == "map_or":
        return I.call_clo(I.deref(args[1]), [v.xs[0]]) if ok else args[0]
    if name == "map_or_else":
        return I.call_clo(I.deref(args[1]), [v.xs[0]]) if ok else I.call_clo(I.deref(args[0]), [])
    if name == "and_then":
        return I.call_clo(I.deref(args[0]), [v.xs[0]]) if ok else v
    if name in ("or", "or_else"):
        return v if ok else args[0] if name == "or" else I.call_clo(I.deref(args[0]), [])
    if name in ("ok_or", "ok_or_else"):
        return EnumV("Result", "Ok", [v.xs[0]]) if ok else EnumV("Result", "Err", [args[0]] if name == "ok_or" else [])
    raise Unsupported(f"Option::{name}", e)


def m_int(I, v, name, args, e):
    ty = v.ty if isinstance(v, SInt) else "usize"
    w = (lambda p: SInt(p, ty)) if ty != "usize" else (lambda p: p)
    x = I.int_(v)
    if name in ("clone", "to_owned", "into", "borrow"):
        return v
    if name == "try_into":
        return EnumV("Result", "Ok", [v])
    if name in ("pow", "powi"):
        k = I.int_(args[0]).const()
        if k is None or k > 8:
            raise Unsupported("integer power", e)
        r = P(1) if ty == "usize" else SInt(1, ty)
        for i in range(k):
            r = I.int_op("*", r, v, e) if i else v
        return r
    if name == "saturating_sub":
        return w(imax(0, x - I.int_(args[0])))
    if name in ("saturating_add",) and ty == "usize":
        return x + I.int_(args[0])
    if name in ("wrapping_add", "wrapping_sub", "wrapping_mul"):
        y = I.int_(args[0])
        return I.fit({"add": x + y, "sub": x - y, "mul": x * y}[name[9:]], ty, e, "wrap")
    if name in ("min", "max"):
        return minmax(I, name, v, I.deref(args[0]), e)
    if name == "abs":
        return SInt(iite(le(0, x), x, -x), ty)
    if name == "rem_euclid" and I.known(le(0, x)):
        return w(imod(x, I.int_(args[0])))
    if name == "div_euclid" and I.known(le(0, x)):
        return w(idiv(x, I.int_(args[0])))
    if name == "div_ceil":
        y = I.int_(args[0])
        return w(idiv(x + y - 1, y))
    if name == "is_power_of_two":
        return mk(CSym, "pow2", (x,))
    if name in ("eq", "ne", "lt", "le", "gt", "ge"):
        return I.int_op({"eq": "==", "ne": "!=", "lt": "<", "le": "<=", "gt": ">", "ge": ">="}[name], v, I.deref(args[0]), e)
    if name in ("add", "sub", "mul", "div", "rem"):
        return I.int_op({"add": "+", "sub": "-", "mul": "*", "div": "/", "rem": "%"}[name], v, I.deref(args[0]), e)
    if name in ("checked_sub", "checked_add", "checked_mul"):
        op = {"checked_sub": "-", "checked_add": "+", "checked_mul": "*"}[name]
        if op == "-":
            y = I.int_(args[0])
            return some(x - y) if I.choose_known(le(y, x)) else NONE
        return some(I.int_op(op, v, I.deref(args[0]), e))
    if name == "cmp":
        y = I.int_(args[0])
        for c, o in ((lt(x, y), "Less"), (eq(x, y), "Equal")):
            if I.choose_known(c):
                return EnumV("Ordering", o, [])
        return EnumV("Ordering", "Greater", [])
    if name in ("abs_diff",):
        y = I.int_(args[0])
        return w(iite(le(y, x), x - y, y - x))
    if name in ("unwrap", "f"):
        return v
    if name == "to_f64" or name == "to_f32":
        return some(fint(x) if name == "to_f64" else single(fint(x)))
    raise Unsupported(f"integer method {name}", e)


def cpow(I, v, k, e):
    """v^k, k a constant or symbolic"""
    c = k.const()
    if c is not None and 0 <= c <= 8:
        if c == 0:
            return cx(ONE, ZERO) if isinstance(v, Cx) else ONE
        r = v
        for _ in range(c - 1):
            r = I.binop("*", r, v, e)
        return r
    if v is fc(-1):
        return fite(eq(imod(k, 2), 0), ONE, fc(-1))
    if isinstance(v, Cx):
        if v.re is ZERO:
            # (i y)^k = y^k i^k
            y = fapp("pow", v.im, k)
            m = imod(k, 4)
            return cx(fmul(y, fapp("cosq", m)), fmul(y, fapp("sinq", m)))
        return cx(fapp("cpow.re", v.re, v.im, k), fapp("cpow.im", v.re, v.im, k))
    return fapp("pow", v, k)


def m_scalar(I, v, name, args, e):
    if name in ("clone", "to_owned", "into", "unwrap", "borrow"):
        return v
    if name == "powi" or (name in ("pow", "powf", "powu") and isinstance(I.deref(args[0]), (Poly, SInt))):
        k = I.int_(args[0])
        return cpow(I, v, k, e)
    if name in ("powf",) and isinstance(I.deref(args[0]), FConst) and I.deref(args[0]).args[0].denominator == 1:
        return cpow(I, v, P(int(I.deref(args[0]).args[0])), e)
    if name == "powc" or name == "powf":
        return fapp("powf", v, I.deref(args[0]))
    if name in ("conj",):
        return cx(v.re, fneg(v.im)) if isinstance(v, Cx) else v
    if name == "re":
        return tocx(v).re
    if name in ("norm_sqr",):
        v = tocx(v)
        return fadd(fmul(v.re, v.re), fmul(v.im, v.im))
    if name in ("recip", "inv"):
        return I.binop("/", ONE, v, e)
    if name in ("scale",):
        return I.binop("*", v, I.deref(args[0]), e)
    if name in ("unscale",):
        return I.binop("/", v, I.deref(args[0]), e)
    if name == "mul_add":
        return I.binop("+", I.binop("*", v, I.deref(args[0]), e), I.deref(args[1]), e)
    if name in ("is_zero",):
        return I.equal(v, ZERO, e) if isinstance(v, SCALAR) else conj(I.equal(v.re, ZERO, e), I.equal(v.im, ZERO, e))
    if name in ("to_f64", "to_f32"):
        return some(v if name == "to_f64" else single(v))
    if name in ("add", "sub", "mul", "div"):
        return I.binop({"add": "+", "sub": "-", "mul": "*", "div": "/"}[name], v, I.deref(args[0]), e)
    if name == "neg":
        return cx(fneg(v.re), fneg(v.im)) if isinstance(v, Cx) else fneg(v)
    if name in ("sin", "cos", "tan", "sqrt", "exp", "ln", "abs", "floor", "ceil", "round", "norm", "signum", "acos", "asin", "atan"):
        if isinstance(v, Cx):
            if name in ("abs", "norm"):
                return fapp("cabs", v.re, v.im)
            raise Unsupported("complex " + name, e)
        return fapp(name, v)
    if name in ("min", "max"):
        return minmax(I, name, v, I.deref(args[0]), e)
    raise Unsupported(f"scalar method {name}", e)


# -------------------------------------------------------------- iterators
def mkiter(I, v, e):
    w = v
    r = I.iter(w, e)
    return r


def as_iter(I, v, e, mutable=False):
    """iterator over an array-like value / iterator"""
    w = I.deref(v)
    if isinstance(w, (It, list)):
        return w
    if isinstance(w, Obj) and w.ty == "#Iter":
        import iterstate
        if v is not w:
            raise Unsupported("iterator shared with another one", e)
        return iterstate.remaining(I, w)
    if isinstance(w, (View,) + ARRAY):
        vv = I.as_view(v, e)
        if len(vv.dims) == 1:
            return It(vv.dims[0], lambda t: I.view_elem(vv, (t,)))
        if len(vv.dims) == 2 and vv.dims[1].const() is not None and vv.dims[1].const() <= 4:
            return It(vv.dims[0], lambda t: View(vv.src, vv.dims[1:], lambda j, t=t: vv.f((t,) + tuple(j))))
        return It_nd(I, vv.dims, lambda ix: I.view_elem(vv, ix))
    if isinstance(w, Seq):
        return I.iter(v, e)
    return I.iter(v, e)


def It_nd(I, dims, get):
    """elements (or lanes) of an n-dimensional view in logical order"""
    n = P(1)
    for d in dims:
        n = n * d

    def elem(t):
        # 0 <= t < n: the leading index needs no remainder
        idx = []
        for d in reversed(dims[1:]):
            idx.append(imod(t, d))
            t = idiv(t, d)
        idx.append(P(t))
        return get(tuple(reversed(idx)))

    it = It(n, elem)
    if len(dims) > 1:
        it.nd = (tuple(dims), get)
    return it


def ilen(it):
    return P(len(it)) if isinstance(it, list) else it.n


def iget(I, it, t):
    if isinstance(it, list):
        c = P(t).const()
        if c is not None:
            return it[c]
        return I.seq_get(Seq([I.deref(x) for x in it], "array"), P(t))
    return it.elem(P(t))


def izip(I, a, b):
    if getattr(a, "stages", None) or getattr(b, "stages", None):
        raise Unsupported("zip of a filtered iterator")
    if isinstance(a, list) and isinstance(b, list):
        return [Seq([x, y]) for x, y in zip(a, b)]
    if isinstance(a, list) or isinstance(b, list):
        l, o = (a, b) if isinstance(a, list) else (b, a)
        if o.note == "inf" or I.known(le(len(l), o.n)):
            return [Seq([iget(I, a, P(i)), iget(I, b, P(i))]) for i in range(len(l))]
        n = imin(len(l), o.n)
        xs = [o.elem(P(i)) for i in range(len(l))]

        def pickl(t):
            return I.seq_get(Seq([I.deref(x) for x in l], "array"), t)
        if isinstance(a, list):
            return It(n, lambda t: Seq([pickl(t), b.elem(t)]))
        return It(n, lambda t: Seq([a.elem(t), pickl(t)]))
    if a.note == "inf":
        n = b.n
    elif b.note == "inf":
        n = a.n
    elif a.n is b.n or I.known(eq(a.n, b.n)):
        n = a.n
    elif I.known(le(a.n, b.n)):
        n = a.n
    elif I.known(le(b.n, a.n)):
        n = b.n
    else:
        n = imin(a.n, b.n)
    nd = getattr(a, "nd", None), getattr(b, "nd", None)
    r = It(n, lambda t: Seq([a.elem(t), b.elem(t)]), "inf" if a.note == "inf" and b.note == "inf" else None)
    if nd[0] is not None and nd[1] is not None and I.same_dims(nd[0][0], nd[1][0]):
        r.nd = (nd[0][0], lambda ix: Seq([nd[0][1](ix), nd[1][1](ix)]))
    return r


def small(I, it):
    """short iterators of known length become lists"""
    if isinstance(it, list):
        return it
    c = it.n.const()
    if it.note is None and c is not None and 0 <= c <= 6 and not getattr(it, "stages", None):
        return [it.elem(P(i)) for i in range(c)]
    return it


def m_iter(I, it, name, args, e):
    if isinstance(it, It):
        it = small(I, it)
    isl = isinstance(it, list)
    stages = getattr(it, "stages", ())
    if not isl and (stages and name in ("map", "copied", "cloned", "rev") or name in ("filter", "filter_map")):
        # filtered iterators run their closures inside the loop that consumes them
        r = It(it.n, (lambda t: it.elem(it.n - 1 - t)) if name == "rev" else it.elem, it.note)
        if hasattr(it, "nd") and name != "rev":
            r.nd = it.nd
        st = {"rev": (), "copied": (("deref", None),), "cloned": (("deref", None),)}.get(name)
        r.stages = tuple(stages) + (((name, I.deref(args[0])),) if st is None else st)
        return r
    if stages and name == "count":
        pl = Place(I.new(P(0)))
        I.for_each(it, lambda x: I.write_place(pl, I.read_place(pl) + 1), e)
        return I.read_place(pl)
    if stages and name not in ("for_each", "sum", "product", "fold", "all", "any", "iter", "into_iter", "by_ref"):
        raise Unsupported(f"{name} after filter", e)
    n = ilen(it)
    if name in ("iter", "iter_mut", "into_iter", "by_ref", "into_par_iter", "par_iter", "par_iter_mut", "par_bridge"):
        return it
    if name in ("copied", "cloned"):
        if isl:
            return [I.deref(x) for x in it]
        return It(it.n, lambda t: I.deref(it.elem(t)), it.note)
    if name == "zip":
        return izip(I, it, as_iter(I, args[0], e))
    if name == "enumerate":
        if isl:
            return [Seq([P(i), x]) for i, x in enumerate(it)]
        return It(it.n, lambda t: Seq([P(t), it.elem(t)]), it.note)
    if name == "rev":
        if isl:
            return list(reversed(it))
        return It(it.n, lambda t: it.elem(it.n - 1 - t), it.note)
    if name == "take":
        k = I.int_(args[0], e)
        if isl:
            c = k.const()
            if c is not None:
                return it[:c]
            return It(imin(len(it), k), lambda t: I.seq_get(Seq([I.deref(x) for x in it], "array"), t))
        if it.note == "inf":
            return It(k, it.elem)
        if I.known(le(k, it.n)):
            return small(I, It(k, it.elem))
        if I.known(le(it.n, k)):
            return it
        return It(imin(k, it.n), it.elem)
    if name == "skip":
        k = I.int_(args[0], e)
        if isl:
            c = k.const()
            if c is None:
                raise Unsupported("skip", e)
            return it[c:]
        if it.note == "inf":
            return It(it.n, lambda t: it.elem(t + k), "inf")
        return It(I.clip(it.n - k), lambda t: it.elem(t + k))
    if name == "step_by":
        k = I.int_(args[0], e).const()
        if not k:
            raise Unsupported("step_by", e)
        if isl:
            return it[::k]
        return It(idiv(it.n + (k - 1), k), lambda t: it.elem(t * k), it.note)
    if name == "chain":
        o = as_iter(I, args[0], e)
        if getattr(o, "stages", None):
            raise Unsupported("chain of a filtered iterator", e)
        if isl and isinstance(o, list):
            return it + o
        n1 = n

        def el(t):
            # positions are decided by the caller's path condition
            d = I.known(lt(t, n1))
            if d is None:
                d = I.choose(lt(t, n1))
            return iget(I, it, t) if d else iget(I, o, t - n1)
        return It(n1 + ilen(o), el)
    if name == "map":
        f = I.deref(args[0])
        if isl:
            return [I.call_clo(f, [x]) for x in it]
        return It(it.n, lambda t: I.call_clo(f, [it.elem(t)]), it.note)
    if name == "for_each":
        f = I.deref(args[0])
        if isl:
            for x in it:
                I.call_clo(f, [x])
            return UNIT
        I.for_each(it, lambda x: I.call_clo(f, [x]), e)
        return UNIT
    if name in ("collect", "to_vec"):
        if isl:
            return Seq([I.deref(x) for x in it], "vec")
        if it.note == "inf":
            raise Unsupported("collect of an infinite iterator", e)
        return collect(I, it, e)
    if name in ("sum", "product"):
        if stages:
            raise Unsupported("sum after filter", e)
        op, unit = ("+", P(0)) if name == "sum" else ("*", P(1))
        if isl:
            acc = None
            for x in it:
                x = I.deref(x)
                acc = x if acc is None else I.binop(op, acc, x, e)
            if acc is None:
                return unit
            return acc
        cell = I.new(None)
        probe = I.deref(it.elem(P(0)))
        I.store[cell] = unit if isinstance(probe, (Poly, SInt)) else (ZERO if name == "sum" else ONE)
        pl = Place(cell)
        I.for_each(it, lambda x: I.write_place(pl, I.binop(op, I.read_place(pl), I.deref(x), e)), e)
        return I.read_place(pl)
    if name == "fold":
        f = I.deref(args[1])
        if isl:
            acc = args[0]
            for x in it:
                acc = I.call_clo(f, [acc, x])
            return acc
        pl = Place(I.new(I.deref(args[0])))
        I.for_each(it, lambda x: I.write_place(pl, I.deref(I.call_clo(f, [I.read_place(pl), x]))), e)
        return I.read_place(pl)
    if name == "scan" and isl:
        st = Place(I.new(I.deref(args[0])))
        f = I.deref(args[1])
        out = []
        for x in it:
            r = I.deref(I.call_clo(f, [Ref(st), x]))
            if r.variant == "None":
                break
            out.append(r.xs[0])
        return out
    if name == "scan":
        st = Place(I.new(I.deref(args[0])))
        f = I.deref(args[1])
        store0, st0 = dict(I.store), I.deref(args[0])
        out = Place(I.new(mk(AConst, P(0), (it.n,))))

        def step(x):
            seq = I.deref(x)
            r = I.deref(I.call_clo(f, [Ref(st), seq.xs[1]]))
            if r.variant == "None":
                raise Unsupported("scan that stops", e)
            I.write_place(Place(out.cell, (("i", (I.int_(seq.xs[0]),)),)), I.deref(r.xs[0]))
        try:
            I.for_each(It(it.n, lambda t: Seq([P(t), it.elem(t)])), step, e)
        except Unsupported as u:
            if "sort of stored value" not in str(u):
                raise
            # a sequence of reals
            I.store = store0
            st = Place(I.new(st0))
            out = Place(I.new(mk(AConst, ZERO, (it.n,))))
            I.for_each(It(it.n, lambda t: Seq([P(t), it.elem(t)])), step, e)
        res = I.read_place(out)
        return It(it.n, lambda t: aread(res, (t,)))
    if name in ("len", "count"):
        return n
    if name == "last" and isl:
        return some(it[-1]) if it else NONE
    if name == "nth" and isl:
        k = I.int_(args[0]).const()
        return some(it[k]) if k < len(it) else NONE
    if name in ("all", "any"):
        f = I.deref(args[0])
        if isl:
            cs = [I.cond(I.call_clo(f, [x])) for x in it]
            return conj(*cs) if name == "all" else disj(*cs)
        pl = Place(I.new(TRUE if name == "all" else FALSE))

        def step2(x):
            c = I.cond(I.call_clo(f, [x]))
            I.write_place(pl, conj(I.read_place(pl), c) if name == "all" else disj(I.read_place(pl), c))
        I.for_each(it, step2, e)
        return I.read_place(pl)
    if name in ("filter",) and isl:
        f = I.deref(args[0])
        out = []
        for x in it:
            c = I.known(I.cond(I.call_clo(f, [x])))
            if c is None:
                raise Unsupported("filter", e)
            if c:
                out.append(x)
        return out
    if name in ("min", "max") and isl and it:
        acc = I.deref(it[0])
        for x in it[1:]:
            acc = minmax(I, name, acc, I.deref(x), e)
        return some(acc)
    r = more_rs.iter_method(I, it, name, args, e)
    if r is not None:
        return r[0]
    raise Unsupported(f"iterator method {name}", e)


def collect(I, it, e):
    sym = mk(ISym, fresh("v"))
    I.bound.append(sym)
    pc = I.pc
    I.pc = pc + (le(0, P(sym)), lt(P(sym), it.n))
    try:
        v = I.merged(lambda: I.deref(it.elem(P(sym))))
        if isinstance(v, Seq):
            xs = [I.elem(x) for x in v.xs]
            s2 = mk(ISym, fresh("v"))
            val = xs[-1]
            for k in range(len(xs) - 2, -1, -1):
                val = vite(eq(P(s2), k), xs[k], val)
            return mk(ALam, (sym, s2), val, (it.n, P(len(xs))))
        v = I.elem(v)
    finally:
        I.pc = pc
        I.bound.pop()
    return mk(ALam, (sym,), v, (it.n,))


# ------------------------------------------------------------------ arrays
def fft_result(I, kind, a, n, sort, dims, e, extra=()):
    I.externs.add(kind)
    return mk(AApp, kind, (a, P(n)) + tuple(extra), tuple(P(d) for d in dims), sort)


def m_opaque(I, recv, v, name, args, e):
    k = v.kind
    if k == "entry":
        return m_entry(I, v, name, args, e)
    if k in ("map keys", "map values") and name in ("len", "count"):
        return v.a[0]
    if k == "planner":
        if name in ("plan_dct1", "plan_fft_forward", "plan_fft_inverse", "plan_dct2", "plan_dct3", "plan_dct4"):
            n = I.int_(args[0], e)
            if v.a[0] == "DctPlanner" and name == "plan_dct1":
                I.ob("fftlen", le(2, n), e, "DCT-I needs at least two points")
            return Opaque("plan", v.a[0], name, n)
    if k == "plan":
        return m_plan(I, v, name, args, e)
    if k == "zip":
        if name == "and":
            return Opaque("zip", v.a[0] + [lanes_arg(I, args[0], e)])
        if name in ("for_each", "par_for_each"):
            return zip_for_each(I, v.a[0], I.deref(args[0]), name, e)
    if k in ("universe", "world"):
        if name == "world":
            return Opaque("world", *v.a)
        if name in ("size", "rank") and k == "world":
            return SInt(v.a[0] if name == "size" else v.a[1], "i32")
        if name == "process_at_rank":
            return Opaque("process", I.int_(args[0], e), *v.a)
    if k in ("world", "process") and name in COLLECTIVES:
        return m_collective(I, v, name, args, e)
    if k == "lanes":
        if name in ("into_iter", "iter", "iter_mut"):
            view, ax = v.a
            return It_nd(I, [d for i, d in enumerate(view.dims) if i != ax], lambda ix: lane_view(view, ax, ix))
    if k in ("shape", "dim"):
        if name in ("clone", "to_vec", "into", "f", "to_owned", "iter"):
            return Seq([P(x) for x in v.a[0]], "array")
        if name == "len":
            return P(len(v.a[0]))
    if name == "clone":
        return v
    raise Unsupported(f"method {name} on {k}", e)


# collective: (kind, sending argument, receiving argument)
COLLECTIVES = {
    "all_to_all_varcount_into": ("alltoall", 0, 1), "all_gather_varcount_into": ("allgather", 0, 1),
    "gather_varcount_into": ("gather", 0, None), "gather_varcount_into_root": ("gather root", 0, 1),
    "scatter_varcount_into": ("scatter", None, 0), "scatter_varcount_into_root": ("scatter root", 0, 1),
    "broadcast_into": ("broadcast", 0, 0), "all_gather_into": ("allgather one", 0, 1),
    "gather_into": ("gather one", 0, None), "gather_into_root": ("gather one root", 0, 1),
}


def m_collective(I, v, name, args, e):
    """MPI operation: what is sent is recorded, what is received is arbitrary (the specification relates both)"""
    kind, s, r = COLLECTIVES[name]
    rec = {"kind": kind, "root": v.a[0] if v.kind == "process" else None, "pc": I.pc}
    for side, k in (("send", s), ("recv", r)):
        if k is None:
            continue
        x = I.deref(args[k])
        if isinstance(x, Obj) and x.ty in ("Partition", "PartitionMut"):
            rec[side + " counts"], rec[side + " displs"] = I.snapshot(x.fields["counts"]), I.snapshot(x.fields["displs"])
            w = I.as_view(x.fields["buf"], e)
        elif isinstance(x, SCALAR + (Cx,)):
            if side == "send":
                rec["send"] = x
            else:
                rec["recv"] = fsym(fresh("recv"))
                pl = args[k].place
                while isinstance(I.read_place(pl), Ref):
                    pl = I.read_place(pl).place
                I.write_place(pl, rec["recv"])
            continue
        else:
            w = I.as_view(args[k], e)
        if side == "send":
            rec["send"] = I.snapshot(w)
        else:
            a = I.snapshot(w)
            rec["recv"] = mk(ABase, fresh("recv"), asort(a), w.dims)
            I.assign_view(w, rec["recv"])
    I.externs.add("mpi " + kind.split()[0])
    I.mpi_log.append(rec)
    return UNIT


def m_plan(I, v, name, args, e):
    fam, pl, n = v.a
    if name in ("len", "get_fft_len"):
        return n
    if name == "process_dct1" or (name == "process" and fam == "FftPlanner"):
        w = I.as_view(args[0], e)
        a = I.snapshot(w)
        if name == "process_dct1":
            I.ob("extlen", eq(w.dims[0], n), e, "length of the DCT buffer")
            r = fft_result(I, "dct1", a, n, asort(a), w.dims, e)
        else:
            I.ob("extlen", eq(w.dims[0], n), e, "length of the FFT buffer")
            r = fft_result(I, "fft+" if pl == "plan_fft_inverse" else "fft-", I.acx(a), n, "C", w.dims, e)
        I.assign_view(w, r)
        return UNIT
    if name == "process" and fam == "RealFftPlanner":
        x, y = I.as_view(args[0], e), I.as_view(args[1], e)
        a = I.snapshot(x)
        if pl == "plan_fft_forward":
            I.ob("extlen", conj(eq(x.dims[0], n), eq(y.dims[0], idiv(n, 2) + 1)), e, "lengths of the real FFT buffers")
            r = fft_result(I, "rfft", a, n, "C", y.dims, e)
        else:
            I.ob("extlen", conj(eq(x.dims[0], idiv(n, 2) + 1), eq(y.dims[0], n)), e, "lengths of the real FFT buffers")
            # the crate reports an error for non-zero imaginary parts of the real modes
            I.ob("extreal", mk(CSym, "hermitian", (a, n)), e, "imaginary parts of the real modes vanish")
            r = fft_result(I, "irfft", I.acx(a), n, "F", y.dims, e)
        I.assign_view(y, r)
        # the input is scratch space afterwards
        if isinstance(x.src, Place):
            I.assign_view(x, mk(ABase, fresh("scratch"), asort(a), x.dims))
        return EnumV("Result", "Ok", [UNIT])
    if name == "clone":
        return v
    raise Unsupported(f"plan method {name}", e)


def lanes_arg(I, v, e):
    w = I.deref(v)
    if isinstance(w, Opaque) and w.kind == "lanes":
        return w
    return Opaque("elems", I.as_view(v, e))


def lane_view(view, ax, others):
    """one-dimensional lane along ax at the other coordinates"""
    def f(i, view=view, ax=ax, others=tuple(others)):
        return view.f(others[:ax] + (i[0],) + others[ax:])
    w = View(view.src, (view.dims[ax],), f, ax == len(view.dims) - 1 and view.std)
    if view.std:
        # the stride is one when all later axes have length one
        w.unit = disj(le(view.dims[ax], 1), conj(*[eq(d, 1) for d in view.dims[ax + 1:]]))
    return w


def zip_for_each(I, parts, clo, name, e):
    """Zip over lanes or elements: one call for an arbitrary position"""
    ixd = parts[0].kind == "index"
    if ixd:
        parts = parts[1:]
    p0 = parts[0]
    if all(p.kind == "elems" for p in parts):
        d0 = p0.a[0].dims
        for p in parts[1:]:
            I.require("zip", conj(*[eq(a, b) for a, b in zip(d0, p.a[0].dims)]) if len(d0) == len(p.a[0].dims) else FALSE, e, "equal shapes in Zip")
        outer = d0
        mkargs = lambda o: ([o[0] if len(o) == 1 else Seq(list(o))] if ixd else []) + [I.view_elem(p.a[0], o) for p in parts]  # noqa: E731
    elif all(p.kind == "lanes" for p in parts) and not ixd:
        od = [tuple(d for i, d in enumerate(p.a[0].dims) if i != p.a[1]) for p in parts]
        for o in od[1:]:
            I.require("zip", conj(*[eq(a, b) for a, b in zip(od[0], o)]) if len(od[0]) == len(o) else FALSE, e, "equal shapes in Zip")
        outer = od[0]
        mkargs = lambda o: [lane_view(p.a[0], p.a[1], o) for p in parts]  # noqa: E731
    else:
        raise Unsupported("Zip of mixed producers", e)
    if I.lanes_log is not None:
        I.lanes_log(parts, clo, name, outer, mkargs, e)
        return UNIT
    if not outer:
        I.call_clo(clo, mkargs(()))
        return UNIT

    def level(k, pre):
        if k == len(outer):
            I.call_clo(clo, mkargs(pre))
            return
        I.for_each(It(outer[k], lambda t: t), lambda t: level(k + 1, pre + (P(t),)), e)

    level(0, ())
    return UNIT


def permute(view, perm):
    """axes reordered: new axis i is old axis perm[i]"""
    def f(j, view=view, perm=tuple(perm)):
        old = [None] * len(perm)
        for i, p in enumerate(perm):
            old[p] = j[i]
        return view.f(tuple(old))
    return View(view.src, tuple(view.dims[p] for p in perm), f, False)


def flat_view(w):
    """the elements of a row-major view as one slice"""
    n = P(1)
    for d in w.dims:
        n = n * d

    def f(j):
        t, idx = P(j[0]), []
        for d in reversed(w.dims[1:]):
            idx.append(imod(t, d))
            t = idiv(t, d)
        idx.append(P(t))
        return w.f(tuple(reversed(idx)))
    r = View(w.src, (n,), f)
    r.flat_of = w
    return r


def is_vecish(v):
    return isinstance(v, Seq)


def for_all(I, it, body, e):
    it = small(I, it)
    if isinstance(it, list):
        for x in it:
            body(x)
    else:
        I.for_each(it, body, e)


def m_array(I, recv, v, name, args, e):
    if name in ("view", "view_mut", "as_ref", "as_mut", "borrow", "borrow_mut", "reborrow", "into_dimensionality", "into_dyn", "as_deref"):
        w = I.as_view(recv, e)
        return EnumV("Result", "Ok", [w]) if name == "into_dimensionality" else w
    if name in ("as_slice", "as_slice_mut", "as_slice_memory_order", "as_slice_memory_order_mut"):
        w = I.as_view(recv, e)
        if isinstance(v, Seq) or (isinstance(v, ARRAY) and len(adims(v)) == 1):
            return some(w) if not vec_type(I, recv) else w
        if not w.std:
            # a strided lane has no slice unless it is short
            if getattr(w, "unit", None) is None:
                raise Unsupported("as_slice of a strided view", e)
            if not I.choose_known(w.unit):
                return NONE
        if len(w.dims) > 1 and not (len(w.dims) == 2 and w.dims[1].const() is not None):
            return some(flat_view(w))
        return some(w)
    if name in ("clone", "to_owned", "into_owned", "to_vec", "into_vec", "into_raw_vec", "into_boxed_slice"):
        if isinstance(v, Seq):
            return Seq([I.deref(x) for x in v.xs], "vec" if name == "to_vec" else v.kind)
        return I.snapshot(recv)
    if name == "into":
        return v
    if name == "unwrap":
        return recv
    if name in ("iter", "iter_mut", "into_iter", "par_iter", "par_iter_mut"):
        return as_iter(I, recv, e)
    if name in ("len",):
        if isinstance(v, Seq):
            return P(len(v.xs))
        w = I.as_view(recv, e)
        n = P(1)
        for d in w.dims:
            n = n * d
        return w.dims[0] if len(w.dims) == 1 or (len(w.dims) == 2 and w.dims[1].const() is not None) else n
    if name == "is_empty":
        w = I.as_view(recv, e)
        return eq(w.dims[0], 0)
    if name in ("get_unchecked", "get_unchecked_mut", "uget", "uget_mut"):
        idx = I.indices(args[0], e)
        return I.index_at(recv, v, idx, e, "unchecked")
    if name in ("get", "get_mut"):
        idx = I.indices(args[0], e)
        w = I.as_view(recv, e)
        c = conj(*[conj(le(0, i), lt(i, d)) for i, d in zip(idx, w.dims)])
        d = I.known(c)
        if d is None:
            d = I.choose(c)
        return some(I.view_elem(w, idx)) if d else NONE
    if name in ("first", "last", "first_mut", "last_mut"):
        w = I.as_view(recv, e)
        n = w.dims[0]
        d = I.known(le(1, n))
        if d is None:
            d = I.choose(le(1, n))
        return some(I.view_elem(w, (P(0) if "first" in name else n - 1,))) if d else NONE
    if name == "copy_from_slice" or name == "clone_from_slice":
        w = I.as_view(recv, e)
        s = I.snapshot(args[0])
        I.ob("shape", eq(w.dims[0], adims(s)[0]), e, "copy_from_slice lengths")
        if isinstance(v, Seq) and isinstance(I.deref(args[0]), Seq):
            for i in range(len(v.xs)):
                I.view_write(w, (P(i),), aread(s, (P(i),)))
            return UNIT
        I.assign_view(w, s)
        return UNIT
    if name == "swap" and len(args) == 2:
        w = I.as_view(recv, e)
        i, j = I.int_(args[0]), I.int_(args[1])
        I.ob("index", conj(le(0, i), lt(i, w.dims[0]), le(0, j), lt(j, w.dims[0])), e, "index in range")
        x, y = I.view_read(w, (i,)), I.view_read(w, (j,))
        I.view_write(w, (i,), y)
        I.view_write(w, (j,), x)
        return UNIT
    if name == "reverse":
        w = I.as_view(recv, e)
        if isinstance(v, Seq):
            I.write_place(recv.place, Seq(list(reversed(v.xs)), v.kind))
            return UNIT
        s = I.snapshot(w)
        b = mk(ISym, fresh("v"))
        I.assign_view(w, mk(ALam, (b,), aread(s, (w.dims[0] - 1 - P(b),)), w.dims))
        return UNIT
    if name in ("concat",) and isinstance(v, Seq):
        return concat(I, [I.deref(x) if not isinstance(x, View) else x for x in v.xs], e)
    if name in ("split_at", "split_at_mut"):
        w = I.as_view(recv, e)
        if len(args) == 2:
            return more_rs.split_axis(I, w, axis_of(I, args[0]), I.int_(args[1]), e)
        m = I.int_(args[0])
        return Seq([I.slice_range(w, Rng(P(0), m, False), e), I.slice_range(w, Rng(m, None, False), e)])
    if name in ("chunks", "chunks_mut"):
        w = I.as_view(recv, e)
        k = I.int_(args[0])
        I.ob("chunk", le(1, k), e, "chunk size is positive")
        n = w.dims[0]
        return It(idiv(n + k - 1, k), lambda t: View(w.src, (imin(k, n - t * k),), lambda i, t=t: w.f((i[0] + t * k,)), w.std))
    if name == "windows":
        w = I.as_view(recv, e)
        k = I.int_(args[0])
        return It(I.clip(w.dims[0] - k + 1), lambda t: View(w.src, (k,), lambda i, t=t: w.f((i[0] + t,)), w.std))
    if name in ("shape", "raw_dim", "dim"):
        w = I.as_view(recv, e)
        return Seq([P(d) for d in w.dims], "array" if name != "dim" or len(w.dims) > 1 else "array") if name != "dim" or len(w.dims) > 1 else w.dims[0]
    if name == "ndim":
        return P(len(I.as_view(recv, e).dims))
    if name == "len_of":
        return I.as_view(recv, e).dims[axis_of(I, args[0])]
    if name in ("nrows", "ncols"):
        w = I.as_view(recv, e)
        return w.dims[0] if name == "nrows" else w.dims[-1]
    if name == "is_standard_layout":
        return TRUE if I.as_view(recv, e).std else mk(CSym, "standard", (id(v),))
    if name in ("indexed_iter", "indexed_iter_mut"):
        w = I.as_view(recv, e)
        if len(w.dims) == 1:
            return It(w.dims[0], lambda t: Seq([t, I.view_elem(w, (t,))]))
        return It_nd(I, w.dims, lambda ix: Seq([Seq(list(ix)), I.view_elem(w, ix)]))
    if name in ("lanes", "lanes_mut"):
        w = I.as_view(recv, e)
        return Opaque("lanes", w, axis_of(I, args[0]))
    if name in ("rows", "rows_mut", "genrows", "genrows_mut"):
        w = I.as_view(recv, e)
        return Opaque("lanes", w, len(w.dims) - 1)
    if name in ("columns", "columns_mut", "gencolumns"):
        w = I.as_view(recv, e)
        return Opaque("lanes", w, 0)
    if name in ("slice", "slice_mut") and not args:
        return recv
    if name in ("slice", "slice_mut", "slice_move"):
        w = I.as_view(recv, e)
        s = I.deref(args[0])
        return I.nd_slice(w, s, e)
    if name in ("row", "row_mut"):
        w = I.as_view(recv, e)
        i = I.int_(args[0])
        I.ob("index", conj(le(0, i), lt(i, w.dims[0])), e, "index in range")
        return View(w.src, w.dims[1:], lambda j, w=w, i=i: w.f((i,) + tuple(j)), w.std)
    if name in ("column", "column_mut"):
        w = I.as_view(recv, e)
        i = I.int_(args[0])
        I.ob("index", conj(le(0, i), lt(i, w.dims[1])), e, "index in range")
        return View(w.src, w.dims[:1], lambda j, w=w, i=i: w.f((j[0], i)), False)
    if name in ("index_axis", "index_axis_mut"):
        w = I.as_view(recv, e)
        ax, i = axis_of(I, args[0]), I.int_(args[1])
        I.ob("index", conj(le(0, i), lt(i, w.dims[ax])), e, "index in range")
        return View(w.src, w.dims[:ax] + w.dims[ax + 1:], lambda j, w=w, i=i, ax=ax: w.f(tuple(j[:ax]) + (i,) + tuple(j[ax:])), w.std and ax == 0)
    if name in ("diag", "diag_mut"):
        w = I.as_view(recv, e)
        a, b = w.dims
        n = a if a is b or I.known(eq(a, b)) else (a if I.known(le(a, b)) else (b if I.known(le(b, a)) else imin(a, b)))
        return View(w.src, (n,), lambda j, w=w: w.f((j[0], j[0])), False)
    if name in ("t", "reversed_axes"):
        w = I.as_view(recv, e)
        return permute(w, list(range(len(w.dims)))[::-1])
    if name == "permuted_axes":
        w = I.as_view(recv, e)
        return permute(w, [p.const() for p in dims_of(I, args[0])])
    if name == "swap_axes":
        w = I.as_view(recv, e)
        i, j = I.int_(args[0]).const(), I.int_(args[1]).const()
        perm = list(range(len(w.dims)))
        perm[i], perm[j] = perm[j], perm[i]
        pl = recv.place
        while isinstance(I.read_place(pl), Ref):
            pl = I.read_place(pl).place
        old = I.read_place(pl)
        I.write_place(pl, permute(old, perm) if isinstance(old, View) else I.snapshot(permute(w, perm)))
        return UNIT
    if name in ("mapv", "map", "mapv_into", "par_mapv"):
        f = I.deref(args[0])
        return I.amap(recv, lambda x: I.call_clo(f, [x]))
    if name in ("mapv_inplace", "map_inplace", "par_mapv_inplace"):
        f = I.deref(args[0])
        w = I.as_view(recv, e)
        if name == "map_inplace":
            for_all(I, It_nd(I, w.dims, lambda ix: I.view_elem(w, ix)), lambda x: I.call_clo(f, [x]), e)
            return UNIT
        I.assign_view(w, I.amap(w, lambda x: I.call_clo(f, [x])))
        return UNIT
    if name == "assign":
        w = I.as_view(recv, e)
        s = I.snapshot(args[0])
        ds = adims(s)
        I.ob("shape", conj(*[eq(a, b) for a, b in zip(w.dims, ds)]) if len(ds) == len(w.dims) else FALSE, e, "assign shapes")
        assign_nd(I, w, s, e)
        return UNIT
    if name == "fill":
        w = I.as_view(recv, e)
        assign_nd(I, w, mk(AConst, I.elem(args[0]), w.dims), e)
        return UNIT
    if name == "dot":
        return nd_dot(I, I.snapshot(recv), I.snapshot(args[0]), e)
    if name in ("into_shape", "into_shape_with_order", "to_shape"):
        d = dims_of(I, args[0], e)
        s = I.snapshot(recv)
        if len(adims(s)) == 1:
            return EnumV("Result", "Ok", [s if len(d) == 1 else reshape(I, s, d)])
    if name in ("sum",):
        return m_iter(I, as_iter(I, recv, e), "sum", [], e)
    if name == "contains":
        w = I.as_view(recv, e)
        if isinstance(v, Seq):
            return disj(*[I.equal(I.deref(x), I.deref(args[0]), e) for x in v.xs])
    if name == "f":
        return v
    if name in ("zip", "enumerate", "rev", "take", "skip", "map_while", "step_by"):
        return m_iter(I, as_iter(I, recv, e), name, args, e)
    if name in ("resize",) and isinstance(v, Seq):
        I.write_place(recv.place, I.make_array(args[1], (I.int_(args[0]),), e))
        return UNIT
    if name == "extend_from_slice" and isinstance(v, Seq):
        o = I.deref(args[0])
        if isinstance(o, Seq):
            I.write_place(recv.place, Seq(v.xs + [I.deref(x) for x in o.xs], "vec"))
            return UNIT
    r = more_rs.array_method(I, recv, v, name, args, e)
    if r is not None:
        return r[0]
    raise Unsupported(f"array method {name}", e)


def vec_type(I, recv):
    return False


def axis_of(I, a):
    a = I.deref(a)
    if isinstance(a, Obj):
        a = a.fields["0"]
    c = I.int_(a).const()
    if c is None:
        raise Unsupported("symbolic axis")
    return c


def assign_nd(I, w, s, e):
    bs = tuple(P(mk(ISym, fresh("v"))) for _ in w.dims)
    base = I.read_place(w.src) if isinstance(w.src, Place) else None
    if len(w.dims) == 1 or (isinstance(base, ARRAY) and tuple(w.f(bs)) == bs and I.same_dims(adims(base), w.dims)):
        I.assign_view(w, s)
        return

    def level(k, pre):
        if k == len(w.dims):
            I.view_write(w, pre, aread(s, pre))
            return
        I.for_each(It(w.dims[k], lambda t: t), lambda t: level(k + 1, pre + (P(t),)), e)

    level(0, ())


def concat(I, xs, e):
    views = [I.as_view(x, e) for x in xs]
    n = P(0)
    for v in views:
        n = n + v.dims[0]
    b = mk(ISym, fresh("v"))
    off = P(0)
    val = None
    snaps = [I.snapshot(v) for v in views]
    offs = []
    for v in views:
        offs.append(off)
        off = off + v.dims[0]
    for s, o in reversed(list(zip(snaps, offs))):
        x = aread(s, (P(b) - o,))
        val = x if val is None else vite(lt(P(b), o + adims(s)[0]), x, val)
    return mk(ALam, (b,), val, (n,))


def nd_dot(I, a, b, e):
    da, db = adims(a), adims(b)
    I.ob("shape", eq(da[-1], db[0]), e, "dot shapes")
    out = tuple(da[:-1]) + tuple(db[1:])
    srt = "C" if "C" in (asort(a), asort(b)) else "F"
    if not out:
        return m_iter(I, small(I, It(da[0], lambda t: I.binop("*", aread(a, (t,)), aread(b, (t,)), e))), "sum", [], e)
    return mk(AApp, "dot", (a, b), out, srt)
