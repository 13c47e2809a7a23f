"""Lexer and parser for the Rust source of the crate under verification.

The whole file is parsed on every run; nothing is dropped except comments and
white space.  `unparse` re-emits the token stream of a parsed node so that the
self test can compare it with the source (see selftest.py).
"""
import re


class ParseError(Exception):
    pass


class Tok:
    __slots__ = ("k", "s", "line", "joint", "node")

    def __init__(self, k, s, line, joint=False, node=None):
        self.k, self.s, self.line, self.joint, self.node = k, s, line, joint, node

    def __repr__(self):
        return f"{self.k}:{self.s}@{self.line}"


_tok = re.compile(
    r"""(?P<ws>\s+)
  |(?P<lc>//[^\n]*)
  |(?P<rawstr>b?r(?P<h>\#*)"(?:.|\n)*?"(?P=h))
  |(?P<str>b?"(?:[^"\\]|\\(?:.|\n))*")
  |(?P<char>b?'(?:[^'\\]|\\(?:x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}|.))')
  |(?P<life>'[A-Za-z_][A-Za-z0-9_]*)
  |(?P<num>0x[0-9a-fA-F_]+(?:[ui](?:8|16|32|64|128|size))?|0b[01_]+(?:[ui](?:8|16|32|64|128|size))?|0o[0-7_]+
     |[0-9][0-9_]*(?:\.(?![.A-Za-z_])[0-9_]*)?(?:[eE][+-]?[0-9_]+)?(?:_?(?:[ui](?:8|16|32|64|128|size)|f32|f64))?)
  |(?P<id>(?:r\#)?[A-Za-z_][A-Za-z0-9_]*)
  |(?P<p>[-+*/%^!&|=<>@.,;:\#$?~(){}\[\]])""",
    re.X,
)


def lex(src):
    out, i, line = [], 0, 1
    n = len(src)
    while i < n:
        if src.startswith("/*", i):  # nested block comments
            d, j = 1, i + 2
            while d:
                a, b = src.find("/*", j), src.find("*/", j)
                if b < 0:
                    raise ParseError(f"unterminated comment line {line}")
                if 0 <= a < b:
                    d, j = d + 1, a + 2
                else:
                    d, j = d - 1, b + 2
            line += src.count("\n", i, j)
            i = j
            continue
        m = _tok.match(src, i)
        if not m:
            raise ParseError(f"lex error line {line}: {src[i:i+20]!r}")
        s = m.group(0)
        k = m.lastgroup
        if k == "h":
            k = "rawstr"
        if k == "num" and "." in s and s.endswith(".") is False:
            pass
        if k not in ("ws", "lc"):
            j = m.end()
            out.append(Tok("str" if k == "rawstr" else k, s, line, joint=(k == "p" and j < n and src[j] in "-+*/%^!&|=<>@.,;:#$?~")))
        line += s.count("\n")
        i = m.end()
    return out


class N:
    """AST node."""

    __slots__ = ("k", "a", "line", "file")

    def __init__(self, k, line=0, **a):
        self.k, self.a, self.line, self.file = k, a, line, None

    def __getattr__(self, n):
        try:
            return self.a[n]
        except KeyError:
            raise AttributeError(f"{self.k}.{n}")

    def __repr__(self):
        return f"{self.k}({', '.join(f'{k}={v!r}' for k, v in self.a.items())})"


CLOSE = {"(": ")", "[": "]", "{": "}"}
BINPREC = {
    "*": 11, "/": 11, "%": 11, "+": 10, "-": 10, "<<": 9, ">>": 9, "&": 8, "^": 7, "|": 6,
    "==": 5, "!=": 5, "<": 5, ">": 5, "<=": 5, ">=": 5, "&&": 4, "||": 3,
}
ASSIGN = ["=", "+=", "-=", "*=", "/=", "%=", "^=", "&=", "|=", "<<=", ">>="]
OPS3 = ["..=", "...", "<<=", ">>="]
OPS2 = ["::", "->", "=>", "..", "&&", "||", "==", "!=", "<=", ">=", "<<", ">>", "+=", "-=", "*=", "/=", "%=", "^=", "&=", "|="]


class P:
    def __init__(self, toks, file="?"):
        self.t, self.i, self.file = toks, 0, file

    # ---- token helpers -------------------------------------------------
    def err(self, what):
        t = self.t[self.i] if self.i < len(self.t) else None
        raise ParseError(f"{self.file}:{t.line if t else 'eof'}: expected {what}, got {t}")

    def line(self):
        return self.t[self.i].line if self.i < len(self.t) else (self.t[-1].line if self.t else 0)

    def eof(self):
        return self.i >= len(self.t)

    def peek(self, o=0):
        j = self.i + o
        return self.t[j] if j < len(self.t) else None

    def op(self):
        """longest operator at the cursor, or None"""
        t = self.peek()
        if t is None or t.k != "p":
            return None
        s = t.s
        j = self.i
        while len(s) < 3 and self.t[j].joint and j + 1 < len(self.t) and self.t[j + 1].k == "p":
            j += 1
            s += self.t[j].s
        if s[:3] in OPS3:
            return s[:3]
        if s[:2] in OPS2:
            return s[:2]
        return s[0]

    def is_(self, s):
        t = self.peek()
        if t is None:
            return False
        if t.k == "p":
            return self.op() == s
        return t.k in ("id",) and t.s == s

    def isid(self, s=None):
        t = self.peek()
        return t is not None and t.k == "id" and (s is None or t.s == s)

    def take(self, s):
        if self.is_(s):
            self.i += len(s) if self.t[self.i].k == "p" else 1
            return True
        return False

    def take1(self, c):
        """take a single punctuation character even if joined (for > in generics)"""
        t = self.peek()
        if t is not None and t.k == "p" and t.s == c:
            self.i += 1
            return True
        return False

    def eat(self, s):
        if not self.take(s):
            self.err(repr(s))

    def eat1(self, c):
        if not self.take1(c):
            self.err(repr(c))

    def ident(self):
        t = self.peek()
        if t is None or t.k != "id":
            self.err("identifier")
        self.i += 1
        return t.s[2:] if t.s.startswith("r#") else t.s

    def tree(self):
        """one token tree; returns list of tokens"""
        t = self.peek()
        if t is None:
            self.err("token")
        if t.k == "p" and t.s in CLOSE:
            c = CLOSE[t.s]
            out = [t]
            self.i += 1
            while not (self.peek() is not None and self.peek().k == "p" and self.peek().s == c):
                out += self.tree()
            out.append(self.t[self.i])
            self.i += 1
            return out
        if t.k == "p" and t.s in ")]}":
            self.err("token tree")
        self.i += 1
        return [t]

    def delimited(self):
        """tokens inside the next bracket group"""
        t = self.tree()
        return t[0].s, t[1:-1]

    # ---- attributes, visibility ----------------------------------------
    def attrs(self):
        out = []
        while self.is_("#"):
            self.take1("#")
            self.take1("!")
            _, toks = self.delimited()
            out.append(" ".join(t.s for t in toks))
        return out

    def vis(self):
        if self.isid("pub"):
            self.i += 1
            if self.is_("(") and self.peek(1) and self.peek(1).s in ("crate", "super", "self", "in"):
                self.tree()
            return True
        if self.isid("crate") and self.peek(1) and self.peek(1).s != "::" and self.peek(1).k == "id":
            self.i += 1
            return True
        return False

    # ---- items -----------------------------------------------------------
    def items(self):
        out = []
        while not self.eof() and not self.is_("}"):
            out.append(self.item())
        return out

    def at_item(self):
        """does an item (not an expression statement) start here? attributes already consumed"""
        t = self.peek()
        if t is None or t.k != "id":
            return False
        n = self.peek(1)
        s = t.s
        if s in ("fn", "struct", "enum", "impl", "trait", "use", "mod", "type", "static", "pub", "extern"):
            return True
        if s == "const":
            return not (n and n.s == "{")
        if s == "unsafe":
            return bool(n and n.s in ("fn", "impl", "trait"))
        if s == "macro_rules" and n and n.s == "!":
            return True
        return False

    def item(self):
        attrs = self.attrs()
        ln = self.line()
        self.vis()
        t = self.peek()
        if t is None:
            self.err("item")
        quals = []
        while self.isid() and self.peek().s in ("const", "unsafe", "async", "extern", "default"):
            n = self.peek(1)
            if self.peek().s == "const" and n and not (n.k == "id" and n.s in ("fn", "unsafe", "extern")):
                break
            if self.peek().s == "extern" and n and n.k == "id" and n.s == "crate":
                break
            quals.append(self.ident())
            if self.peek() and self.peek().k == "str":
                self.i += 1
        s = self.peek().s
        if s == "fn":
            r = self.fn()
        elif s in ("struct", "union"):
            r = self.struct()
        elif s == "enum":
            r = self.enum()
        elif s == "impl":
            r = self.impl()
        elif s == "trait":
            r = self.trait()
        elif s == "use":
            self.i += 1
            tree = self.usetree()
            self.eat(";")
            r = N("use", ln, tree=tree)
        elif s == "mod":
            self.i += 1
            name = self.ident()
            if self.take(";"):
                r = N("mod", ln, name=name, items=None)
            else:
                self.eat("{")
                its = self.items()
                self.eat("}")
                r = N("mod", ln, name=name, items=its)
        elif s in ("const", "static"):
            self.i += 1
            mut = bool(self.take("mut"))
            name = self.ident()
            ty = None
            if self.take(":"):
                ty = self.type()
            e = None
            if self.take("="):
                e = self.expr()
            self.eat(";")
            r = N("const", ln, name=name, ty=ty, e=e, static=s == "static", mut=mut)
        elif s == "type":
            self.i += 1
            name = self.ident()
            g = self.generics()
            if self.take(":"):
                self.bounds()
            ty = None
            self.where()
            if self.take("="):
                ty = self.type()
            self.where()
            self.eat(";")
            r = N("type", ln, name=name, ty=ty, generics=g)
        elif s == "extern":
            self.i += 1
            self.eat("crate")
            name = self.ident()
            if self.take("as"):
                self.ident()
            self.eat(";")
            r = N("extern", ln, name=name)
        elif s == "macro_rules":
            self.i += 2
            name = self.ident()
            _, toks = self.delimited()
            self.take(";")
            r = N("macro_rules", ln, name=name, toks=toks)
        elif t.k == "id":
            path = self.path_simple()
            self.eat("!")
            d, toks = self.delimited()
            if d != "{":
                self.take(";")
            r = N("item_macro", ln, path=path, toks=toks)
        else:
            self.err("item")
        r.a["attrs"] = attrs
        r.file = self.file
        return r

    def path_simple(self):
        segs = []
        self.take("::")
        segs.append(self.ident())
        while self.is_("::"):
            self.take("::")
            segs.append(self.ident())
        return segs

    def usetree(self):
        pre = []
        self.take("::")
        while True:
            if self.take("{"):
                subs = []
                while not self.is_("}"):
                    subs.append(self.usetree())
                    if not self.take(","):
                        break
                self.eat("}")
                return (pre, "group", subs)
            if self.take("*"):
                return (pre, "glob", None)
            pre.append(self.ident())
            if self.take("::"):
                continue
            if self.take("as"):
                return (pre, "as", self.ident())
            return (pre, "as", pre[-1])

    def generics(self):
        out = []
        if not self.is_("<"):
            return out
        self.eat1("<")
        while not self.is_p(">"):
            self.attrs()
            t = self.peek()
            if t.k == "life":
                self.i += 1
                if self.take(":"):
                    self.bounds()
            elif self.isid("const"):
                self.i += 1
                n = self.ident()
                self.eat(":")
                ty = self.type()
                if self.take("="):
                    self.expr_noangle()
                out.append((n, "const", ty))
            else:
                n = self.ident()
                b = None
                if self.take(":"):
                    b = self.bounds()
                if self.take("="):
                    self.type()
                out.append((n, "type", b))
            if not self.take(","):
                break
        self.eat1(">")
        return out

    def is_p(self, c):
        t = self.peek()
        return t is not None and t.k == "p" and t.s == c

    def bounds(self):
        out = []
        while True:
            t = self.peek()
            if t is None:
                break
            if t.k == "life":
                self.i += 1
            elif self.take("?"):
                self.type_path()
            elif self.is_("("):
                self.tree()
            elif t.k == "id" and t.s == "for":
                self.i += 1
                self.generics()
                out.append(self.type_path())
            elif t.k == "id" or self.is_("::"):
                out.append(self.type_path())
            else:
                break
            if not self.take("+"):
                break
        return out

    def where(self):
        out = []
        if not self.isid("where"):
            return out
        self.i += 1
        while True:
            t = self.peek()
            if t is None or self.is_("{") or self.is_(";") or self.is_("="):
                break
            if t.k == "life":
                self.i += 1
                self.eat(":")
                self.bounds()
            else:
                ty = self.type()
                self.eat(":")
                out.append((ty, self.bounds()))
            if not self.take(","):
                break
        return out

    def fn(self):
        ln = self.line()
        self.eat("fn")
        name = self.ident()
        g = self.generics()
        self.eat("(")
        params, selfp = [], None
        while not self.is_(")"):
            self.attrs()
            save = self.i
            # self parameter
            ref = mut = False
            if self.take1("&"):
                ref = True
                if self.peek().k == "life":
                    self.i += 1
            if self.isid("mut"):
                self.i += 1
                mut = True
            if self.isid("self"):
                self.i += 1
                selfp = ("ref" if ref else "val", mut)
                if self.take(":"):
                    self.type()
            else:
                self.i = save
                pat = self.pattern()
                self.eat(":")
                params.append((pat, self.type()))
            if not self.take(","):
                break
        self.eat(")")
        ret = None
        if self.take("->"):
            ret = self.type()
        w = self.where()
        body = None
        if not self.take(";"):
            body = self.block()
        return N("fn", ln, name=name, generics=g, params=params, selfp=selfp, ret=ret, where=w, body=body)

    def fields_named(self):
        out = []
        self.eat("{")
        while not self.is_("}"):
            self.attrs()
            self.vis()
            n = self.ident()
            self.eat(":")
            out.append((n, self.type()))
            if not self.take(","):
                break
        self.eat("}")
        return out

    def fields_tuple(self):
        out = []
        self.eat("(")
        while not self.is_(")"):
            self.attrs()
            self.vis()
            out.append((str(len(out)), self.type()))
            if not self.take(","):
                break
        self.eat(")")
        return out

    def struct(self):
        ln = self.line()
        self.i += 1
        name = self.ident()
        g = self.generics()
        self.where()
        if self.take(";"):
            return N("struct", ln, name=name, generics=g, fields=[], kind="unit")
        if self.is_("("):
            f = self.fields_tuple()
            self.where()
            self.eat(";")
            return N("struct", ln, name=name, generics=g, fields=f, kind="tuple")
        return N("struct", ln, name=name, generics=g, fields=self.fields_named(), kind="named")

    def enum(self):
        ln = self.line()
        self.i += 1
        name = self.ident()
        g = self.generics()
        self.where()
        self.eat("{")
        vs = []
        while not self.is_("}"):
            self.attrs()
            vn = self.ident()
            kind, f = "unit", []
            if self.is_("("):
                kind, f = "tuple", self.fields_tuple()
            elif self.is_("{"):
                kind, f = "named", self.fields_named()
            disc = None
            if self.take("="):
                disc = self.expr()
            vs.append((vn, kind, f, disc))
            if not self.take(","):
                break
        self.eat("}")
        return N("enum", ln, name=name, generics=g, variants=vs)

    def impl(self):
        ln = self.line()
        self.i += 1
        g = self.generics() if self.is_("<") else []
        self.take("!")
        ty = self.type()
        tr = None
        if self.isid("for"):
            self.i += 1
            tr, ty = ty, self.type()
        w = self.where()
        self.eat("{")
        while self.is_("#") and self.peek(1) and self.peek(1).s == "!":
            self.attrs()
        its = self.items()
        self.eat("}")
        return N("impl", ln, generics=g, ty=ty, trait=tr, where=w, items=its)

    def trait(self):
        ln = self.line()
        self.i += 1
        name = self.ident()
        g = self.generics()
        sup = []
        if self.take(":"):
            sup = self.bounds()
        self.where()
        self.eat("{")
        its = self.items()
        self.eat("}")
        return N("trait", ln, name=name, generics=g, sup=sup, items=its)

    # ---- types ---------------------------------------------------------
    def type(self):
        ln = self.line()
        t = self.peek()
        if t is None:
            self.err("type")
        if t.k == "frag":
            self.i += 1
            return t.node
        if self.take1("&"):
            if self.peek().k == "life":
                self.i += 1
            mut = False
            if self.isid("mut"):
                self.i += 1
                mut = True
            return N("tref", ln, mut=mut, ty=self.type())
        if self.take1("*"):
            m = self.ident()
            return N("tptr", ln, mut=m == "mut", ty=self.type())
        if self.take("!"):
            return N("tnever", ln)
        if self.take("("):
            ts = []
            comma = False
            while not self.is_(")"):
                ts.append(self.type())
                comma = self.take(",")
                if not comma:
                    break
            self.eat(")")
            if len(ts) == 1 and not comma:
                return ts[0]
            return N("ttuple", ln, ts=ts)
        if self.take("["):
            ty = self.type()
            if self.take(";"):
                e = self.expr()
                self.eat("]")
                return N("tarray", ln, ty=ty, n=e)
            self.eat("]")
            return N("tslice", ln, ty=ty)
        if self.isid("_"):
            self.i += 1
            return N("tinfer", ln)
        if self.isid("impl") or self.isid("dyn"):
            self.i += 1
            return N("tdyn", ln, bounds=self.bounds())
        if self.isid("for"):
            self.i += 1
            self.generics()
            return self.type()
        if self.isid("fn") or self.isid("unsafe") or self.isid("extern"):
            while not self.isid("fn"):
                self.i += 1
            self.i += 1
            self.tree()
            if self.take("->"):
                self.type()
            return N("tfn", ln)
        return self.type_path()

    def generic_args(self):
        """after '<' has been seen (not consumed)"""
        out = []
        self.eat1("<")
        while not self.is_p(">"):
            t = self.peek()
            if t.k == "life":
                self.i += 1
            elif t.k == "num" or self.is_("{") or self.is_("-"):
                out.append(("expr", self.primary()))
            elif t.k == "id" and self.peek(1) and self.peek(1).k == "p" and self.peek(1).s == "=" and not self.peek(1).joint:
                n = self.ident()
                self.eat("=")
                out.append(("bind", n, self.type()))
            else:
                out.append(("type", self.type()))
            if not self.take(","):
                break
        self.eat1(">")
        return out

    def type_path(self):
        ln = self.line()
        segs = []
        qself = None
        if self.is_p("<"):
            self.eat1("<")
            qself = self.type()
            tr = None
            if self.take("as"):
                tr = self.type_path()
            self.eat1(">")
            self.eat("::")
            if tr is not None:
                segs += [("<as>", tr)]
        self.take("::")
        while True:
            t = self.peek()
            if t is not None and t.k == "frag":
                # $ty::X  or plain $ty
                self.i += 1
                if not segs and not self.is_("::"):
                    return t.node
                qself = t.node
                self.eat("::")
                continue
            n = self.ident()
            args = []
            if self.is_("::") and self.peek(2) is not None and self.peek(2).k == "p" and self.peek(2).s == "<":
                self.take("::")
            if self.is_p("<"):
                args = self.generic_args()
            elif self.is_("(") and n in ("Fn", "FnMut", "FnOnce"):
                self.tree()
                if self.take("->"):
                    self.type()
            segs.append((n, args))
            if not self.take("::"):
                break
        return N("tpath", ln, qself=qself, segs=segs)

    # ---- patterns ------------------------------------------------------
    def pattern(self):
        ln = self.line()
        self.take("|")
        ps = [self.pattern1()]
        while self.is_("|"):
            self.take("|")
            ps.append(self.pattern1())
        return ps[0] if len(ps) == 1 else N("por", ln, ps=ps)

    def pattern1(self):
        ln = self.line()
        t = self.peek()
        if t is None:
            self.err("pattern")
        if t.k == "frag":
            self.i += 1
            return N("pconst", ln, e=t.node) if t.node.k != "pident" else t.node
        if self.take1("&"):
            m = False
            if self.isid("mut"):
                self.i += 1
                m = True
            return N("pref", ln, p=self.pattern1(), mut=m)
        if self.take("("):
            ps = []
            comma = False
            while not self.is_(")"):
                ps.append(self.pattern())
                comma = self.take(",")
                if not comma:
                    break
            self.eat(")")
            if len(ps) == 1 and not comma and ps[0].k != "prest":
                return ps[0]
            return N("ptuple", ln, ps=ps)
        if self.take("["):
            ps = []
            while not self.is_("]"):
                ps.append(self.pattern())
                if not self.take(","):
                    break
            self.eat("]")
            return N("pslice", ln, ps=ps)
        if self.take(".."):
            return N("prest", ln)
        if self.isid("_"):
            self.i += 1
            return N("pwild", ln)
        if t.k in ("num", "str", "char") or self.is_("-") or (t.k == "id" and t.s in ("true", "false")):
            e = self.unary()
            if self.is_("..=") or self.is_(".."):
                o = self.op()
                self.take(o)
                hi = None
                tt = self.peek()
                if tt is not None and (tt.k in ("num", "char") or self.is_("-") or tt.k == "id"):
                    hi = self.unary()
                return N("prange", ln, lo=e, hi=hi, incl=o == "..=")
            return N("pconst", ln, e=e)
        byref = mut = False
        if self.isid("ref"):
            self.i += 1
            byref = True
        if self.isid("mut"):
            self.i += 1
            mut = True
        n = self.peek(1)
        if byref or mut or (t.k == "id" and not (n and n.k == "p" and (n.s in "({" or (n.s == ":" and n.joint and self.peek(2).s == ":") or n.s == "!"))):
            name = self.ident()
            sub = None
            if self.take("@"):
                sub = self.pattern1()
            if not byref and not mut and sub is None and (name[0].isupper()):
                if self.is_("..=") or self.is_(".."):
                    pass
                return N("ppath", ln, path=N("path", ln, qself=None, segs=[(name, [])]))
            return N("pident", ln, name=name, byref=byref, mut=mut, sub=sub)
        path = self.expr_path()
        if self.is_("("):
            self.take("(")
            ps = []
            while not self.is_(")"):
                ps.append(self.pattern())
                if not self.take(","):
                    break
            self.eat(")")
            return N("ptstruct", ln, path=path, ps=ps)
        if self.is_("{"):
            self.take("{")
            fs = []
            while not self.is_("}"):
                self.attrs()
                if self.take(".."):
                    break
                r = m = False
                if self.isid("ref"):
                    self.i += 1
                    r = True
                if self.isid("mut"):
                    self.i += 1
                    m = True
                fn_ = self.ident()
                if self.take(":"):
                    fs.append((fn_, self.pattern()))
                else:
                    fs.append((fn_, N("pident", ln, name=fn_, byref=r, mut=m, sub=None)))
                if not self.take(","):
                    break
            self.eat("}")
            return N("pstruct", ln, path=path, fs=fs)
        return N("ppath", ln, path=path)

    # ---- expressions -----------------------------------------------------
    def block(self):
        ln = self.line()
        self.eat("{")
        stmts, tail = [], None
        while not self.is_("}"):
            if self.take(";"):
                continue
            attrs = self.attrs()
            l2 = self.line()
            if self.isid("let"):
                self.i += 1
                pat = self.pattern()
                ty = None
                if self.take(":"):
                    ty = self.type()
                e = els = None
                if self.take("="):
                    e = self.expr()
                    if self.isid("else"):
                        self.i += 1
                        els = self.block()
                self.eat(";")
                stmts.append(N("let", l2, pat=pat, ty=ty, e=e, els=els))
                continue
            if self.at_item():
                stmts.append(N("sitem", l2, item=self.item()))
                continue
            e = self.expr_stmt()
            if self.take(";"):
                stmts.append(N("sexpr", l2, e=e, semi=True))
            elif self.is_("}"):
                tail = e
            else:
                if e.k in ("if", "match", "for", "while", "loop", "block", "unsafe", "macro"):
                    stmts.append(N("sexpr", l2, e=e, semi=False))
                else:
                    self.err("; or }")
        self.eat("}")
        if tail is None and stmts and stmts[-1].k == "sexpr" and not stmts[-1].semi and stmts[-1].e.k in ("if", "match", "block", "unsafe", "loop"):
            pass
        return N("block", ln, stmts=stmts, tail=tail)

    def expr_stmt(self):
        """expression in statement position: block-like expressions end the statement"""
        t = self.peek()
        if t is not None and ((t.k == "id" and t.s in ("if", "match", "for", "while", "loop", "unsafe")) or self.is_("{") or (t.k == "life")):
            e = self.primary()
            if self.is_(".") or self.is_("?"):
                e = self.postfix(e)
                return self.binary_rest(e)
            return e
        return self.expr()

    def expr(self, ns=False):
        return self.assign(ns)

    def expr_noangle(self):
        return self.primary()

    def assign(self, ns):
        ln = self.line()
        l = self.range(ns)
        o = self.op()
        if o in ASSIGN:
            self.take(o)
            r = self.assign(ns)
            return N("assign", ln, op=o, l=l, r=r)
        return l

    def range(self, ns):
        ln = self.line()
        o = self.op()
        if o in ("..", "..="):
            self.take(o)
            hi = None
            if self.starts_expr(ns):
                hi = self.binary(0, ns)
            return N("range", ln, lo=None, hi=hi, incl=o == "..=")
        l = self.binary(0, ns)
        o = self.op()
        if o in ("..", "..="):
            self.take(o)
            hi = None
            if self.starts_expr(ns):
                hi = self.binary(0, ns)
            return N("range", ln, lo=l, hi=hi, incl=o == "..=")
        return l

    def starts_expr(self, ns):
        t = self.peek()
        if t is None:
            return False
        if t.k == "p":
            o = self.op()
            if o == "{":
                return not ns
            return o in ("(", "[", "-", "!", "*", "&", "&&", "|", "||", "<", "::")
        if t.k == "id" and t.s in ("as", "else", "in"):
            return False
        return True

    def binary(self, minp, ns):
        l = self.cast(ns)
        return self.binary_rest(l, minp, ns)

    def binary_rest(self, l, minp=0, ns=False):
        while True:
            o = self.op()
            if o is None or o not in BINPREC or BINPREC[o] <= minp:
                return l
            ln = self.line()
            self.take(o)
            r = self.binary(BINPREC[o], ns)
            l = N("bin", ln, op=o, l=l, r=r)

    def cast(self, ns):
        e = self.unary(ns)
        while self.isid("as"):
            ln = self.line()
            self.i += 1
            e = N("cast", ln, e=e, ty=self.type())
        return e

    def unary(self, ns=False):
        ln = self.line()
        o = self.op()
        if o == "-":
            self.take("-")
            return N("unary", ln, op="-", e=self.unary(ns))
        if o == "!":
            self.take("!")
            return N("unary", ln, op="!", e=self.unary(ns))
        if o == "*":
            self.take("*")
            return N("deref", ln, e=self.unary(ns))
        if o in ("&", "&&"):
            self.take(o)
            mut = False
            if self.isid("mut"):
                self.i += 1
                mut = True
            e = N("ref", ln, mut=mut, e=self.unary(ns))
            return e if o == "&" else N("ref", ln, mut=False, e=e)
        return self.postfix(self.primary(ns))

    def args(self):
        out = []
        self.eat("(")
        while not self.is_(")"):
            self.attrs()
            out.append(self.expr())
            if not self.take(","):
                break
        self.eat(")")
        return out

    def postfix(self, e):
        while True:
            ln = self.line()
            if self.is_("?"):
                self.take("?")
                e = N("try", ln, e=e)
            elif self.is_("("):
                e = N("call", ln, f=e, args=self.args())
            elif self.is_("["):
                self.take("[")
                ix = self.expr()
                self.eat("]")
                e = N("index", ln, e=e, ix=ix)
            elif self.is_("."):
                self.take(".")
                t = self.peek()
                if t.k == "num":
                    self.i += 1
                    for part in t.s.split("."):
                        e = N("field", ln, e=e, name=part)
                elif t.k == "id" and t.s == "await":
                    self.err("no await")
                else:
                    n = self.ident()
                    targs = []
                    if self.is_("::"):
                        self.take("::")
                        targs = self.generic_args()
                    if self.is_("("):
                        e = N("mcall", ln, e=e, name=n, targs=targs, args=self.args())
                    else:
                        e = N("field", ln, e=e, name=n)
            else:
                return e

    def expr_path(self):
        ln = self.line()
        segs, qself = [], None
        if self.is_p("<"):
            self.eat1("<")
            qself = self.type()
            tr = None
            if self.take("as"):
                tr = self.type_path()
            self.eat1(">")
            self.eat("::")
            if tr is not None:
                segs.append(("<as>", tr))
        self.take("::")
        while True:
            t = self.peek()
            if t is not None and t.k == "frag":
                self.i += 1
                if t.node.k.startswith("t"):
                    qself = t.node
                self.eat("::")
                continue
            n = self.ident()
            args = []
            if self.is_("::") and self.peek(2) is not None and self.peek(2).k == "p" and self.peek(2).s == "<":
                self.take("::")
                args = self.generic_args()
            segs.append((n, args))
            if not self.is_("::"):
                break
            self.take("::")
        return N("path", ln, qself=qself, segs=segs)

    def primary(self, ns=False):
        t = self.peek()
        ln = self.line()
        if t is None:
            self.err("expression")
        if t.k == "frag":
            if t.node.k.startswith("t") and self.peek(1) is not None and self.peek(1).s == ":":
                return self.expr_path()
            self.i += 1
            return t.node
        if t.k == "num":
            self.i += 1
            return N("lit", ln, v=t.s, kind="num")
        if t.k in ("str", "char"):
            self.i += 1
            return N("lit", ln, v=t.s, kind=t.k)
        if t.k == "life":
            lab = t.s
            self.i += 1
            self.eat(":")
            e = self.primary()
            e.a["label"] = lab
            return e
        if t.k == "p":
            if self.is_("("):
                self.take("(")
                es, comma = [], False
                while not self.is_(")"):
                    es.append(self.expr())
                    comma = self.take(",")
                    if not comma:
                        break
                self.eat(")")
                if len(es) == 1 and not comma:
                    return N("paren", ln, e=es[0])
                return N("tuple", ln, es=es)
            if self.is_("["):
                self.take("[")
                es = []
                if not self.is_("]"):
                    es.append(self.expr())
                    if self.take(";"):
                        n = self.expr()
                        self.eat("]")
                        return N("repeat", ln, e=es[0], n=n)
                    while self.take(","):
                        if self.is_("]"):
                            break
                        es.append(self.expr())
                self.eat("]")
                return N("array", ln, es=es)
            if self.is_("{"):
                return self.block()
            o = self.op()
            if o in ("|", "||"):
                return self.closure(False)
            if o == "<" or t.s == "<":
                return self.expr_path()
            if o == "::":
                return self.expr_path()
            self.err("expression")
        s = t.s
        if s == "true" or s == "false":
            self.i += 1
            return N("lit", ln, v=s, kind="bool")
        if s == "if":
            return self.if_()
        if s == "match":
            self.i += 1
            e = self.expr(ns=True)
            self.eat("{")
            arms = []
            while not self.is_("}"):
                self.attrs()
                pat = self.pattern()
                guard = None
                if self.isid("if"):
                    self.i += 1
                    guard = self.expr()
                self.eat("=>")
                body = self.expr_arm()
                arms.append((pat, guard, body))
            self.eat("}")
            return N("match", ln, e=e, arms=arms)
        if s == "unsafe" and self.peek(1).s == "{":
            self.i += 1
            b = self.block()
            return N("unsafe", ln, b=b)
        if s == "for":
            self.i += 1
            pat = self.pattern()
            self.eat("in")
            e = self.expr(ns=True)
            return N("for", ln, pat=pat, e=e, b=self.block())
        if s == "while":
            self.i += 1
            c = self.cond()
            return N("while", ln, c=c, b=self.block())
        if s == "loop":
            self.i += 1
            return N("loop", ln, b=self.block())
        if s == "return":
            self.i += 1
            return N("return", ln, e=self.expr() if self.starts_expr(False) else None)
        if s in ("break", "continue"):
            self.i += 1
            lab = None
            if self.peek() and self.peek().k == "life":
                lab = self.peek().s
                self.i += 1
            e = None
            if s == "break" and self.starts_expr(ns):
                e = self.expr(ns)
            return N(s, ln, lab=lab, e=e)
        if s == "move":
            self.i += 1
            return self.closure(True)
        # path, macro, struct literal
        path = self.expr_path()
        if self.is_("!") and not (self.peek(1) is not None and self.peek(1).s == "="):
            self.take("!")
            d, toks = self.delimited()
            return N("macro", ln, path=[x[0] for x in path.segs], toks=toks, delim=d)
        if self.is_("{") and not ns and path.segs and (path.segs[-1][0][0].isupper()):
            self.take("{")
            fs, base = [], None
            while not self.is_("}"):
                self.attrs()
                if self.take(".."):
                    base = self.expr()
                    break
                tt = self.peek()
                if tt.k == "num":
                    self.i += 1
                    n = tt.s
                else:
                    n = self.ident()
                if self.take(":"):
                    fs.append((n, self.expr()))
                else:
                    fs.append((n, N("path", ln, qself=None, segs=[(n, [])])))
                if not self.take(","):
                    break
            self.eat("}")
            return N("slit", ln, path=path, fs=fs, base=base)
        return path

    def expr_arm(self):
        t = self.peek()
        if self.is_("{"):
            e = self.block()
            if self.take(","):
                return e
            if self.is_(".") or self.is_("?"):
                e = self.binary_rest(self.postfix(e))
                self.take(",")
            return e
        e = self.expr()
        if not self.take(",") and not self.is_("}"):
            if e.k not in ("if", "match", "for", "while", "loop", "unsafe", "block"):
                self.err(", or }")
        return e

    def cond(self):
        ln = self.line()
        if self.isid("let"):
            self.i += 1
            pat = self.pattern()
            self.eat("=")
            e = self.binary(4, True)
            c = N("letcond", ln, pat=pat, e=e)
            while self.is_("&&"):
                self.take("&&")
                r = self.cond() if self.isid("let") else self.binary(4, True)
                c = N("bin", ln, op="&&", l=c, r=r)
            return c
        return self.expr(ns=True)

    def if_(self):
        ln = self.line()
        self.eat("if")
        c = self.cond()
        b = self.block()
        els = None
        if self.isid("else"):
            self.i += 1
            els = self.if_() if self.isid("if") else self.block()
        return N("if", ln, c=c, b=b, els=els)

    def closure(self, mv):
        ln = self.line()
        ps = []
        if self.take("||"):
            pass
        else:
            self.eat1("|")
            while not self.is_p("|"):
                self.attrs()
                p = self.pattern1()
                ty = None
                if self.take(":"):
                    ty = self.type()
                ps.append((p, ty))
                if not self.take(","):
                    break
            self.eat1("|")
        if self.take("->"):
            self.type()
            body = self.block()
        else:
            body = self.expr()
        return N("closure", ln, ps=ps, body=body)


# ---- macro_rules -----------------------------------------------------------
FRAGS = {"expr", "ty", "ident", "literal", "tt", "path", "pat", "block", "meta", "stmt", "vis", "lifetime", "item"}


def _parse_matcher(toks):
    """list of ('tok',t) | ('var',name,frag) | ('rep',[..],sep,op) | ('grp',open,[..])"""
    out, i = [], 0
    while i < len(toks):
        t = toks[i]
        if t.k == "p" and t.s == "$":
            n = toks[i + 1]
            if n.k == "p" and n.s == "(":
                j = _match(toks, i + 1)
                sub = _parse_matcher(toks[i + 2 : j])
                j += 1
                sep = None
                if not (toks[j].k == "p" and toks[j].s in "*+?"):
                    sep = toks[j]
                    j += 1
                out.append(("rep", sub, sep, toks[j].s))
                i = j + 1
                continue
            if n.k == "id" and i + 3 < len(toks) + 0 and toks[i + 2].s == ":" and toks[i + 3].s in FRAGS:
                out.append(("var", n.s, toks[i + 3].s))
                i += 4
                continue
            out.append(("var", n.s, None))
            i += 2
            continue
        if t.k == "p" and t.s in CLOSE:
            j = _match(toks, i)
            out.append(("grp", t, _parse_matcher(toks[i + 1 : j]), toks[j]))
            i = j + 1
            continue
        out.append(("tok", t))
        i += 1
    return out


def _match(toks, i):
    d = 0
    for j in range(i, len(toks)):
        if toks[j].k == "p":
            if toks[j].s in CLOSE:
                d += 1
            elif toks[j].s in ")]}":
                d -= 1
                if d == 0:
                    return j
    raise ParseError("unbalanced")


def _frag(p, kind):
    s = p.i
    if kind == "expr":
        n = p.expr()
    elif kind == "ty":
        n = p.type()
    elif kind == "ident":
        t = p.peek()
        p.ident()
        return [t]
    elif kind == "literal":
        n = p.unary()
    elif kind == "path":
        n = p.type_path()
    elif kind == "pat":
        n = p.pattern()
    elif kind == "block":
        n = p.block()
    elif kind == "meta":
        p.path_simple()
        if p.is_("="):
            p.take("=")
            p.expr()
        elif not p.eof() and p.peek().k == "p" and p.peek().s in CLOSE:
            p.tree()
        return p.t[s : p.i]
    elif kind == "tt":
        return p.tree()
    elif kind == "lifetime":
        p.i += 1
        return p.t[s : p.i]
    elif kind == "vis":
        p.vis()
        return p.t[s : p.i]
    else:
        raise ParseError("fragment " + str(kind))
    if kind == "expr" and n.k not in ("path", "lit", "paren"):
        n = N("paren", n.line, e=n)
    return [Tok("frag", " ".join(t.s for t in p.t[s : p.i]), p.t[s].line, node=n)]


def _do_match(pats, p, end=None):
    env = {}
    for k, m in enumerate(pats):
        if m[0] == "tok":
            t = p.peek()
            if t is None or t.s != m[1].s:
                raise ParseError("no match")
            p.i += 1
        elif m[0] == "var":
            env[m[1]] = _frag(p, m[2])
        elif m[0] == "grp":
            t = p.peek()
            if t is None or t.s != m[1].s:
                raise ParseError("no match")
            j = _match(p.t, p.i)
            q = P(p.t[p.i + 1 : j], p.file)
            env.update(_do_match(m[2], q))
            if not q.eof():
                raise ParseError("no match")
            p.i = j + 1
        else:
            reps = []
            first = True
            while not p.eof():
                save = p.i
                try:
                    if not first and m[2] is not None:
                        if p.peek().s != m[2].s:
                            break
                        p.i += 1
                    e = _do_match(m[1], p)
                except ParseError:
                    p.i = save
                    break
                if p.i == save:
                    break
                reps.append(e)
                first = False
                if m[3] == "?":
                    break
            names = _names(m[1])
            for n in names:
                env[n] = ("rep", [r[n] for r in reps])
            env.setdefault("#reps", {})
    env.pop("#reps", None)
    return env


def _names(pats):
    out = []
    for m in pats:
        if m[0] == "var":
            out.append(m[1])
        elif m[0] == "grp":
            out += _names(m[2])
        elif m[0] == "rep":
            out += _names(m[1])
    return out


def _transcribe(body, env):
    out = []
    for m in body:
        if m[0] == "tok":
            out.append(m[1])
        elif m[0] == "var":
            if m[1] == "crate":
                out.append(Tok("id", "crate", 0))
                continue
            v = env[m[1]]
            if isinstance(v, tuple):
                raise ParseError("repetition depth of $" + m[1])
            out += v
        elif m[0] == "grp":
            out.append(m[1])
            out += _transcribe(m[2], env)
            out.append(m[3])
        else:
            names = [n for n in _names(m[1]) if isinstance(env.get(n), tuple)]
            if not names:
                raise ParseError("repetition without variable")
            k = len(env[names[0]][1])
            for r in range(k):
                e2 = dict(env)
                for n in names:
                    e2[n] = env[n][1][r]
                if r and m[2] is not None:
                    out.append(m[2])
                out += _transcribe(m[1], e2)
    return out


class Macro:
    def __init__(self, node):
        self.name = node.name
        self.rules = []
        toks = node.toks
        i = 0
        while i < len(toks):
            j = _match(toks, i)
            pat = toks[i + 1 : j]
            i = j + 1
            if not (toks[i].s == "=" and toks[i + 1].s == ">"):
                raise ParseError("macro_rules arrow")
            i += 2
            j = _match(toks, i)
            self.rules.append((_parse_matcher(pat), _parse_matcher(toks[i + 1 : j])))
            i = j + 1
            if i < len(toks) and toks[i].s == ";":
                i += 1

    def expand(self, toks, file):
        last = None
        for pat, body in self.rules:
            p = P(toks, file)
            try:
                env = _do_match(pat, p)
                if not p.eof():
                    raise ParseError("trailing tokens")
            except ParseError as e:
                last = e
                continue
            return _transcribe(body, env)
        raise ParseError(f"no rule of {self.name}! matches: {last}")


def parse_file(path):
    src = open(path).read()
    p = P(lex(src), path)
    while p.is_("#") and p.peek(1) and p.peek(1).s == "!":
        p.attrs()
    its = p.items()
    if not p.eof():
        p.err("end of file")
    return its
