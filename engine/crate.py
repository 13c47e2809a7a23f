"""Loading of the crate: parse every source file, expand the crate's own macros,
index functions, impls, traits, structs."""
import glob
import os
import re
import rustparse as R
from rustparse import N


class Fn:
    def __init__(self, node, path, impl=None, trait=None, mod=""):
        self.node, self.path, self.impl, self.trait, self.mod = node, path, impl, trait, mod
        self.name = node.name

    def __repr__(self):
        return f"<fn {self.path}>"


def tyname(t):
    """last path segment of a type, with references removed"""
    while t is not None and t.k == "tref":
        t = t.ty
    if t is not None and t.k == "tpath":
        return t.segs[-1][0]
    return None


def tyargs(t):
    while t is not None and t.k == "tref":
        t = t.ty
    if t is not None and t.k == "tpath":
        return [a[1] for a in t.segs[-1][1] if isinstance(a, tuple) and a[0] == "type"]
    return []


class Crate:
    def __init__(self, root, features=("mpi",)):
        self.root = root
        self.features = features
        self.fns = []  # all Fn
        self.free = {}  # name -> [Fn]
        self.methods = {}  # type name -> name -> [Fn]
        self.traits = {}  # trait name -> N
        self.trait_methods = {}  # trait -> name -> Fn
        self.impl_traits = {}  # type name -> [impl node]
        self.structs, self.enums, self.consts = {}, {}, {}
        self.macros = {}
        self.files = []
        self.blanket = []
        # macros are textually scoped; collect all definitions first
        parsed = {}
        for f in sorted(glob.glob(os.path.join(root, "**", "*.rs"), recursive=True)):
            parsed[f] = R.parse_file(f)
            self.files.append(f)
        self.parsed = parsed
        self.macros_by_file = {}
        for f, its in parsed.items():
            for it in its:
                if it.k == "macro_rules":
                    self.macros_by_file.setdefault(f, {})[it.name] = R.Macro(it)
                    self.macros.setdefault(it.name, R.Macro(it))
        for f, its in parsed.items():
            mod = os.path.relpath(f, root)[:-3].replace("/mod", "").replace("/", "::")
            if mod == "lib":
                mod = ""
            self.load(its, mod, f)

    def enabled(self, it):
        for a in it.a.get("attrs", ()):
            b = a.replace(" ", "")
            if b.startswith("cfg("):
                c = b[4:-1]
                if c == "test":
                    return False
                m = re.match(r'feature="(.*)"$', c)
                if m and m.group(1) not in self.features:
                    return False
                m = re.match(r'not\(feature="(.*)"\)$', c)
                if m and m.group(1) in self.features:
                    return False
            if b == "test":
                return False
        return True

    def expand_items(self, its, f):
        out = []
        for it in its:
            if not self.enabled(it):
                continue
            if it.k == "item_macro":
                m = self.macros_by_file.get(f, {}).get(it.path[-1]) or self.macros.get(it.path[-1])
                if m is None:
                    continue  # external item macro
                p = R.P(m.expand(it.toks, f), f)
                out += self.expand_items(p.items(), f)
            else:
                out.append(it)
        return out

    def load(self, its, mod, f):
        for it in self.expand_items(its, f):
            it.file = f
            if it.k == "fn":
                fn = Fn(it, f"{mod}::{it.name}", mod=mod)
                self.fns.append(fn)
                self.free.setdefault(it.name, []).append(fn)
            elif it.k == "mod" and it.items is not None:
                self.load(it.items, f"{mod}::{it.name}", f)
            elif it.k == "struct":
                it.a["mod"] = mod
                self.structs.setdefault(it.name, it)
            elif it.k == "enum":
                self.enums.setdefault(it.name, it)
            elif it.k == "const":
                self.consts.setdefault(it.name, it)
            elif it.k == "trait":
                self.traits[it.name] = it
                for m in self.expand_items(it.items, f):
                    if m.k == "fn":
                        m.file = f
                        fn = Fn(m, f"{mod}::{it.name}::{m.name}", trait=it, mod=mod)
                        if m.body is not None:
                            self.fns.append(fn)
                        self.trait_methods.setdefault(it.name, {})[m.name] = fn
            elif it.k == "impl":
                tn = tyname(it.ty)
                if any(g[0] == tn and g[1] == "type" for g in it.generics):
                    self.blanket.append(it)
                    continue
                its2 = self.expand_items(it.items, f)
                self.impl_traits.setdefault(tn, []).append(it)
                for m in its2:
                    if m.k == "fn":
                        m.file = f
                        tr = f" as {tyname(it.trait)}" if it.trait is not None else ""
                        fn = Fn(m, f"{mod}::<{tn}{tr}>::{m.name}", impl=it, mod=mod)
                        self.fns.append(fn)
                        self.methods.setdefault(tn, {}).setdefault(m.name, []).append(fn)
                it.a["items_x"] = its2

    def find(self, spec):
        """functions by 'Type::name' or 'name' (free)"""
        if "::" in spec:
            t, n = spec.rsplit("::", 1)
            return self.methods.get(t, {}).get(n, []) or ([self.trait_methods[t][n]] if n in self.trait_methods.get(t, {}) else [])
        return self.free.get(spec, [])


if __name__ == "__main__":
    c = Crate("/repo/src")
    print(len(c.fns), sorted(c.methods))
    for f in c.fns:
        print(f.path)
