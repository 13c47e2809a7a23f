"""`let mut it = <iterator>` in a function that calls `it.next()`: the iterator becomes a value with a position"""
from interp import *
from terms import *


def names_in(n, out=None):
    """method names and control keywords used in a piece of syntax"""
    out = set() if out is None else out
    if isinstance(n, N):
        out.add(n.a.get("name") if n.k == "mcall" else n.k)
        for x in n.a.values():
            names_in(x, out)
    elif isinstance(n, (list, tuple)):
        for x in n:
            names_in(x, out)
    return out


def idents(n, out=None):
    """variable names occurring in a piece of syntax"""
    out = set() if out is None else out
    if isinstance(n, N):
        if n.k == "pident":
            out.add(n.name)
        if n.k == "path" and len(n.segs) == 1:
            out.add(n.segs[0][0])
        if n.k == "macro":
            out |= {t.s for t in n.toks if t.k == "id"}
        for x in n.a.values():
            idents(x, out)
    elif isinstance(n, (list, tuple)):
        for x in n:
            idents(x, out)
    return out


_memo = {}


def used(I):
    fn = I.fnstack[-1] if I.fnstack else None
    if fn is None:
        return set()
    k = id(fn.node)
    if k not in _memo:
        _memo[k] = (fn.node, names_in(fn.node))
    return _memo[k][1]


STEP = {"next", "next_back", "nth", "by_ref"}


def wrap(I, v, e):
    """the value bound by `let mut`"""
    if not (isinstance(v, (It, list, Rng)) and STEP & used(I)):
        return v
    if getattr(v, "stages", None):
        raise Unsupported("state of a filtered iterator", e)
    if isinstance(v, Rng):
        v = I.iter(v, e)
    if isinstance(v, list):
        xs = v
        v = It(P(len(xs)), lambda t: xs[P(t).const()] if P(t).const() is not None else I.seq_get(Seq([I.deref(x) for x in xs], "array"), t))
    return Obj("#Iter", {"it": v, "pos": P(0), "back": P(0)})


def is_state(v):
    return isinstance(v, Obj) and v.ty == "#Iter"


def place_of(I, recv, v):
    if not isinstance(recv, Ref):
        return Place(I.new(v))
    pl = recv.place
    while isinstance(I.read_place(pl), Ref):
        pl = I.read_place(pl).place
    return pl


def field(pl, n):
    return Place(pl.cell, pl.path + (("f", n),))


def parts(v):
    it, pos, back = v.fields["it"], v.fields["pos"], v.fields["back"]
    if it.note == "inf":
        return it, pos, back, None
    return it, pos, back, it.n - pos - back


def remaining(I, v):
    it, pos, back, rem = parts(v)
    if rem is None:
        return It(it.n, lambda t: it.elem(t + pos), "inf")
    return It(rem if I.known(le(0, rem)) else I.clip(rem), lambda t: it.elem(t + pos), it.note)


def consume(I, v, e):
    """all that remains, for a consumer that may be followed by other uses of the iterator"""
    from builtins_rs import small
    pl = place_of(I, v, I.deref(v))
    o = I.deref(v)
    if {"break", "return", "try"} & used(I):
        raise Unsupported("iterator used after an early exit", e)
    r = remaining(I, o)
    it, pos, back, rem = parts(o)
    if rem is None:
        raise Unsupported("infinite iteration", e)
    I.write_place(field(pl, "pos"), pos + r.n)
    return r


def step(I, pl, v, name, args):
    it, pos, back, rem = parts(v)
    k = I.int_(args[0]) if name == "nth" else P(0)
    if name == "next_back":
        I.write_place(field(pl, "back"), back + 1)
        return it.elem(it.n - 1 - back)
    I.write_place(field(pl, "pos"), pos + k + 1)
    return it.elem(pos + k)


def need(v, name, args, I):
    rem = parts(v)[3]
    return TRUE if rem is None else le((I.int_(args[0]) if name == "nth" else P(0)) + 1, rem)


def method(I, recv, v, name, args, e):
    from builtins_rs import m_iter
    pl = place_of(I, recv, v)
    if name in ("next", "next_back", "nth"):
        c = need(v, name, args, I)
        d = I.known(c)
        if d is None:
            d = I.choose(c)
        if d:
            return some(step(I, pl, v, name, args))
        if name == "nth":
            I.write_place(field(pl, "pos"), v.fields["it"].n - v.fields["back"])
        return NONE
    if name in ("by_ref", "iter", "into_iter"):
        return recv
    if name == "clone":
        return v
    if name == "len":
        return remaining(I, v).n
    byref = e.e.k == "mcall" and e.e.name == "by_ref" or e.e.k in ("paren", "ref")
    if name == "take":
        if byref and {"break", "return", "try"} & used(I):
            raise Unsupported("iterator used after an early exit", e)
        r = m_iter(I, remaining(I, v), "take", args, e)
        n = P(len(r)) if isinstance(r, list) else r.n
        I.write_place(field(pl, "pos"), v.fields["pos"] + n)
        return r
    if byref or name in ("all", "any", "find", "find_map", "position", "try_for_each", "try_fold", "peek", "rposition"):
        raise Unsupported(f"{name} on an iterator that is used again", e)
    return m_iter(I, remaining(I, v), name, args, e)


def unwrap_step(I, e):
    """X.next().unwrap(): an obligation instead of a fork"""
    m = e.e
    if not (m.k == "mcall" and m.name in ("next", "next_back", "nth") and e.name in ("unwrap", "expect")):
        return None
    r = I.recv(m.e)
    v = I.deref(r)
    if not is_state(v):
        return None
    args = [I.expr(a) for a in m.args]
    I.ob("index", need(v, m.name, args, I), e, "the iterator has another element")
    return (step(I, place_of(I, r, v), v, m.name, args),)


def while_let(I, e):
    """while let Some(p) = it.next() { .. }"""
    c = e.c
    m = c.e
    if not (c.pat.k == "ptstruct" and len(c.pat.ps) == 1 and m.k == "mcall" and m.name == "next" and not m.args):
        return False
    r = I.recv(m.e)
    v = I.deref(r)
    if not is_state(v):
        return False
    if {"break", "return", "try"} & names_in(e.b):
        raise Unsupported("while let with an early exit", e)
    pl = place_of(I, r, v)
    it, pos, back, rem = parts(v)
    if rem is None:
        raise Unsupported("infinite iteration", e)
    inner = names_in(e.b)
    if STEP & inner:
        raise Unsupported("while let that advances the iterator", e)
    rest = remaining(I, v)
    I.write_place(field(pl, "pos"), pos + rest.n)
    lst = I.iter(rest, e)

    def body(x):
        I.env.append({})
        try:
            I.bind(c.pat.ps[0], x)
            try:
                I.block(e.b)
            except Continue as k:
                if k.lab not in (None, e.a.get("label")) or not isinstance(lst, list):
                    raise
        finally:
            I.env.pop()
    if isinstance(lst, list):
        for x in lst:
            body(x)
    else:
        I.for_each(lst, body, e)
    return True
