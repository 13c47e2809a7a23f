"""C26: the frame of every function. A result is determined by the arguments (and the object the method is called on)
if no function reaches memory in another way: per item and per function of the crate, over the syntax of the code as
it is parsed from /repo on this run.

Obligations (Rust's type system, which the compiler enforces, supplies the rest: memory reached through `&T` without
interior mutability does not change while it is shared, and distinct `&mut` do not overlap):
 - no mutable state outside the arguments: a static is neither `static mut` nor of a type with interior mutability
 - no field of a type of the crate has interior mutability, so `&self` leaves an object as it was
 - a function uses nothing that differs between calls, threads or processes: clocks, environment, files, thread
   identity, random numbers, addresses, order of hash maps
 - unsafe code is limited to the unchecked element accesses (in range: C21)
State outside the arguments is a failed obligation; anything this file does not know is undecided."""
from rustparse import N

CELLS = {"Cell", "RefCell", "UnsafeCell", "SyncUnsafeCell", "OnceCell", "OnceLock", "Mutex", "ReentrantMutex", "RwLock", "Once",
         "Condvar", "FairMutex", "DashMap", "AtomicCell", "ThreadLocal", "CachedThreadLocal", "Barrier", "ArcSwap"}
# written once: whether the value depends on who writes it first is left to the bounded check
WRITE_ONCE = {"OnceCell", "OnceLock", "Once"}
LAZY = {"LazyLock", "LazyCell", "Lazy"}
AMBIENT = {"env", "fs", "time", "net", "process", "thread", "thread_rng", "random", "rand", "Instant", "SystemTime", "ThreadId",
           "RandomState", "DefaultHasher", "getrandom", "fastrand", "current_thread_index", "current_num_threads", "hint", "io",
           "stdin", "args", "var", "available_parallelism", "Location", "backtrace", "Backtrace"}
RAW = {"transmute", "transmute_copy", "from_raw_parts", "from_raw_parts_mut", "from_raw", "into_raw", "MaybeUninit", "uninit", "NonNull", "ptr",
       "addr_of", "addr_of_mut", "zeroed", "ManuallyDrop", "alloc", "get_mut_unchecked", "type_name", "asm", "uninitialized", "leak"}
RAWM = {"as_ptr", "as_mut_ptr", "set_len", "assume_init", "uninit", "leak", "uget", "uget_mut", "raw_view", "raw_view_mut", "build_uninit",
        "as_raw", "addr", "expose_provenance", "cast_mut", "as_mut_ptr_range"}
UNSAFE_OK = {"get_unchecked", "get_unchecked_mut"}
MAPS = {"HashMap", "HashSet"}
STD = {"ops", "clone", "fmt", "iter", "f64", "f32", "sync", "collections", "convert", "cmp", "slice", "vec", "marker", "mem", "any",
       "borrow", "default", "usize", "option", "result", "array", "num", "i32", "string", "boxed", "rc", "cell", "error", "hash"}
CRATES = {"std", "core", "alloc", "ndarray", "num_traits", "num_complex", "rustdct", "rustfft", "realfft", "enum_dispatch", "mpi_crate",
          "mpi_fork_fnsp", "crate", "super", "self", "Self", "rayon"}
FIELD = {"usize", "isize", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "i128", "u128", "f32", "f64", "bool", "char", "Vec", "Option",
         "Array", "Array1", "Array2", "Array3", "ArrayD", "Arc", "Rc", "Box", "HashMap", "BTreeMap", "Complex", "String", "PhantomData", "Dct1", "Fft",
         "RealToComplex", "ComplexToReal", "Universe", "SystemCommunicator", "Count", "Dim", "Ix1", "Ix2", "Ix3", "Range", "Self"}


def nodes(x):
    """every node below x"""
    st = [x]
    while st:
        x = st.pop()
        if isinstance(x, N):
            yield x
            st.extend(x.a.values())
        elif isinstance(x, (list, tuple)):
            st.extend(x)


def idents(toks):
    out = []
    st = list(toks or [])
    while st:
        t = st.pop()
        if isinstance(t, (list, tuple)):
            st.extend(t)
        elif getattr(t, "k", None) == "id":
            out.append(t.s)
    return out


def names(x):
    """identifiers of types, paths and macro arguments below x"""
    out = set()
    for n in nodes(x):
        if n.k in ("tpath", "path"):
            out |= {s[0] for s in n.segs}
        elif n.k == "macro":
            out |= set(n.path) | set(idents(n.a.get("toks")))
        elif n.k == "item_macro":
            out |= set(n.path) | set(idents(n.a.get("toks")))
    return out


def is_cell(s):
    return s in CELLS or s.startswith("Atomic")


def leaves(tree, pre=()):
    if not isinstance(tree, tuple):
        return
    path, how, sub = tree
    full = tuple(pre) + tuple(path)
    if how == "group":
        for t in sub:
            yield from leaves(t, full)
    else:
        yield full, how, sub


class Items:
    """every item of the crate, nested ones included, with the file it is in"""

    def __init__(self, crate):
        self.statics, self.consts, self.types, self.alias, self.uses, self.macros, self.mods = [], [], [], [], [], [], set()
        self.bad = []
        for f, its in crate.parsed.items():
            self.f = f[len(crate.root):].lstrip("/")
            self.walk(crate, its, f)

    def walk(self, crate, its, f):
        for it in its:
            if not crate.enabled(it):
                continue
            if it.k == "item_macro":
                m = crate.macros_by_file.get(f, {}).get(it.path[-1]) or crate.macros.get(it.path[-1])
                if m is None:
                    self.macros.append((self.f, it))
                    continue
                import rustparse as R
                self.walk(crate, R.P(m.expand(it.toks, f), f).items(), f)
                continue
            if it.k == "const":
                (self.statics if it.a.get("static") else self.consts).append((self.f, it))
            elif it.k in ("struct", "enum"):
                self.types.append((self.f, it))
            elif it.k == "type":
                self.alias.append((self.f, it))
            elif it.k == "use":
                self.uses.append((self.f, it))
            elif it.k == "mod":
                self.mods.add(it.name)
            if it.k in ("mod", "impl", "trait") and it.a.get("items"):
                self.walk(crate, it.items, f)
            elif it.k != "macro_rules":
                inner = [n.item for n in nodes([v for k, v in it.a.items() if k != "items"]) if n.k == "sitem"]
                if inner:
                    self.walk(crate, inner, f)


def C26(S):
    if not hasattr(S, "items26"):
        S.items26 = Items(S.crate)
    S.trusted.append("Rust's ownership rules (the compiler rejects code that breaks them): shared memory without interior mutability does not "
                     "change, distinct mutable references do not overlap; closures given to rayon through par_for_each capture only what they may share")
    S.trusted.append("rustdct, rustfft and realfft plans, ndarray and the MPI communicator keep no state that changes a result")
    S.contracts.append("every function: reads only its arguments, immutable constants and fresh memory; writes only its &mut arguments, its result and fresh memory")
    S.group("state outside the arguments", lambda: state(S))
    S.group("state inside shared objects", lambda: fields(S))
    S.group("imports", lambda: imports(S))
    S.group("functions", lambda: functions(S))
    S.group("receivers", lambda: receivers(S))


OK = "syntactic (frame of the parsed code)"


def state(S):
    it = S.items26
    for f, s in it.statics:
        nm = f"{f}: static {s.name} holds no mutable state"
        cells = sorted(x for x in names([s.ty]) if is_cell(x))
        if s.a.get("mut"):
            S.fail(nm, f"static mut (line {s.line}): every function that uses it depends on what ran before")
        elif set(cells) - WRITE_ONCE:
            S.fail(nm, f"type with interior mutability {cells} (line {s.line}): every function that uses it depends on what ran before")
        elif cells:
            S.undec(nm, f"written once, of type {cells} (line {s.line})")
        else:
            S.ok(nm, OK)
    for f, m in it.macros:
        nm = f"{f}: {m.path[-1]}! holds no mutable state"
        ids = set(idents(m.a.get("toks")))
        cells = sorted(x for x in ids if is_cell(x))
        if m.path[-1] in ("thread_local", "lazy_static", "scoped_thread_local") and set(cells) - WRITE_ONCE:
            S.fail(nm, f"type with interior mutability {cells} (line {m.line}): every function that uses it depends on what ran before")
        else:
            S.undec(nm, f"item macro outside the crate: {m.path[-1]}! (line {m.line})")
    # function-local macro calls that declare state
    for fn in S.crate.fns:
        for n in nodes(fn.node):
            if n.k == "macro" and n.path[-1] in ("thread_local", "lazy_static"):
                cells = sorted(x for x in idents(n.a.get("toks")) if is_cell(x))
                nm = f"{fn.path}: {n.path[-1]}! holds no mutable state"
                if set(cells) - WRITE_ONCE:
                    S.fail(nm, f"type with interior mutability {cells} (line {n.line}): the results depend on what ran before")
                else:
                    S.undec(nm, "item macro")
    for f, s in it.consts:
        ns = names([s.ty])
        nm = f"{f}: const {s.name} is a value"
        if any(is_cell(x) for x in ns):
            S.undec(nm, "constant of a type with interior mutability")
        else:
            S.ok(nm, OK)
    S.ok("every static of the crate was looked at", OK)


def fields(S):
    it = S.items26
    known = {t.name for _, t in it.types} | {t.name for _, t in it.alias}
    for f, t in it.alias:
        if any(is_cell(x) or x in LAZY for x in names(t.a.get("ty"))):
            S.undec(f"{f}: type {t.name} has no interior mutability", "alias of a type with interior mutability")
    for f, t in it.types:
        nm = f"{f}: {t.k} {t.name} has no interior mutability"
        ns = {s[0] if len(n.segs) == 1 else n.segs[-1][0] for n in nodes([v for k, v in t.a.items() if k not in ("where", "generics", "attrs")])
              if n.k == "tpath" for s in [n.segs[-1]]}
        gen = {g[0] for g in t.a.get("generics") or ()}
        cells = sorted(x for x in ns if is_cell(x) or x in LAZY)
        raw = any(n.k == "tptr" for n in nodes(list(t.a.values())))
        other = sorted(ns - FIELD - known - gen)
        hard = [x for x in cells if x not in LAZY | WRITE_ONCE]
        if hard:
            S.fail(nm, f"field of type {hard} (line {t.line}): an operation on a shared object can change it")
        elif cells:
            S.undec(nm, f"field written once, of type {cells} (line {t.line})")
        elif raw or other:
            S.undec(nm, f"unknown field types {other}" + (" and raw pointers" if raw else ""))
        else:
            S.ok(nm, OK)


def imports(S):
    it = S.items26
    mods = set(it.mods) | set(S.crate.structs) | set(S.crate.enums) | set(S.crate.traits)
    for f, u in it.uses:
        for path, how, alias in leaves(u.tree):
            nm = f"{f}: use {'::'.join(path)}" + ("::*" if how == "glob" else "")
            if how == "as" and alias and path and alias != path[-1] and alias != "_":
                if is_cell(path[-1]) or path[-1] in AMBIENT | RAW | MAPS | LAZY:
                    S.undec(nm, f"renamed to {alias}")
                    continue
            if path[0] not in CRATES | mods:
                S.undec(nm, "a crate whose functions are not known to be free of state")
            elif path[0] in ("std", "core") and len(path) > 1 and path[1] not in STD:
                S.undec(nm, "a module of the standard library that reaches beyond the arguments")
            elif path[0] == "rayon" or any(x in AMBIENT | RAW for x in path[1:]):
                S.undec(nm, "reaches beyond the arguments")
            else:
                S.ok(nm, OK)


def functions(S):
    seen = {}
    for fn in S.crate.fns:
        nm = f"{fn.path}: frame"
        seen[nm] = seen.get(nm, 0) + 1
        if seen[nm] > 1:
            nm += f" ({seen[nm]})"
        S.functions.add(fn.path)
        why = body(S, fn)
        if why:
            S.undec(nm, "; ".join(sorted(why))[:400])
        else:
            S.ok(nm, OK)


def body(S, fn):
    why = set()
    node = fn.node
    statics = {s.name for _, s in S.items26.statics}
    maps = {x for x in names(node) if x in MAPS}
    for n in nodes(node):
        if n.k == "tptr":
            why.add(f"raw pointer (line {n.line})")
        elif n.k in ("path", "tpath"):
            segs = [s[0] for s in n.segs]
            if len(segs) > 1 and segs[0] in ("std", "core", "alloc") and segs[1] not in STD:
                why.add(f"{'::'.join(segs)} (line {n.line})")
            for x in segs:
                if is_cell(x) or x in RAW or (x in AMBIENT and len(segs) > 1):
                    why.add(f"{'::'.join(segs)} (line {n.line})")
            if n.k == "path" and len(segs) == 1 and segs[0] in statics and node.name != segs[0]:
                pass  # a static that holds no mutable state: obligation of its own
        elif n.k == "mcall":
            if n.name in RAWM:
                why.add(f".{n.name}() (line {n.line})")
            if maps and n.name in ("values", "into_values", "drain", "into_keys", "retain", "values_mut"):
                why.add(f"order of a hash map: .{n.name}() (line {n.line})")
        elif n.k == "unsafe":
            for m in nodes(n.b):
                if m.k == "mcall" and m.name in RAWM | {"offset", "add_ptr", "read", "write"} or m.k == "tptr":
                    why.add(f"unsafe code beyond element access (line {m.line})")
                if m.k == "deref" and m.a.get("e") is not None and m.e.k in ("cast", "path") and m.e.k == "cast":
                    why.add(f"pointer dereference (line {m.line})")
                if m.k == "path" and len(m.segs) == 1 and m.segs[0][0] in statics:
                    why.add(f"static {m.segs[0][0]} in unsafe code (line {m.line})")
        elif n.k == "macro":
            ids = set(idents(n.a.get("toks")))
            if n.path[-1] in ("asm", "env", "option_env", "file", "line", "addr_of", "addr_of_mut"):
                why.add(f"{n.path[-1]}! (line {n.line})")
            for x in ids:
                if is_cell(x) or x in RAWM or x in ("Instant", "SystemTime", "thread", "transmute"):
                    why.add(f"{x} in {n.path[-1]}! (line {n.line})")
    return why


def receivers(S):
    """the operations take the object by shared reference (or by value): with no interior mutability it stays as it was"""
    ops = [t for t in S.crate.traits if t.startswith("Base") or t == "StencilOperations"]
    for t in ops:
        for name, fn in S.crate.trait_methods.get(t, {}).items():
            sp = fn.node.a.get("selfp")
            nm = f"{t}::{name}: takes the object by shared reference"
            if sp is not None and sp[0] == "ref" and sp[1]:
                S.undec(nm, "receiver &mut self")
            else:
                S.ok(nm, OK)
