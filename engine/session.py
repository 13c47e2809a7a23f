"""Bookkeeping of one verification run: executing functions of the crate under a
precondition, discharging obligations, counting, evidence."""
import os
import pickle
import select
import time
import traceback
from interp import *
import prove
from prove import Ctx, prove_zero, prove_cond
from terms import *
from crate import Crate
from terms import P

LAY = 3


class Skip(Exception):
    """the obligation could not be generated (construct outside the executed subset)"""


class Session:
    def __init__(self, crate, prop, tier):
        self.crate, self.prop, self.tier = crate, prop, tier
        self.obligations = 0
        self.discharged = 0
        self.failed, self.undecided = [], []
        self.functions = set()
        self.contracts = []
        self.externs = set()
        self.assumptions = []
        self.trusted = []
        self.bounded = []
        self.vacuity = {}
        self.names = []
        self.backends = {"z3": 0, "exact polynomial identity": 0, "syntactic (interned terms)": 0}
        self.t0 = time.time()
        self.tasks = []
        self.cpu_s = 0.0
        self.stats = {"z3_calls": 0, "z3_time": 0.0, "leaves": 0, "sz": 0, "abstracted": 0, "unfold": 0}
        self.sizes = ("n", "m", "n0", "n1", "n2")

    # --------------------------------------------------------------- results
    def hints(self, model):
        hs = []
        for k, v in (model or {}).items():
            if k.split("#")[0] in self.sizes or k.startswith("n"):
                if 0 < v <= 10 ** 7:
                    hs.append(v)
        return sorted(set(hs))

    def ok(self, name, how):
        self.obligations += 1
        self.discharged += 1
        self.backends[how] = self.backends.get(how, 0) + 1
        self.names.append(name)

    def fail(self, name, why, model=None, complete=True):
        """complete: the prover found values (or an execution path) for which the obligation does not hold, as opposed
        to a proof search that gave up"""
        self.obligations += 1
        self.failed.append({"name": name, "why": why, "hints": self.hints(model), "complete": complete})

    def undec(self, name, why, hints=()):
        self.undecided.append({"name": name, "why": why, "hints": list(hints)})

    # ------------------------------------------------------------ obligations
    def zero(self, name, term, *conds, maxunf=7):
        """term == 0 for all values of its variables that satisfy conds"""
        if isinstance(term, Cx):
            a = self.zero(name + " (re)", term.re, *conds, maxunf=maxunf)
            b = self.zero(name + " (im)", term.im, *conds, maxunf=maxunf)
            return a and b
        ctx = Ctx().add(*conds)
        if not ctx.consistent():
            self.fail(name, "the precondition is unsatisfiable (vacuous)")
            return False
        e0, s0 = prove.STATS["exact"], prove.STATS["sz"]
        try:
            fs = prove_zero(term, ctx, maxunf=maxunf)
        except prove.Deadline:
            self.undec(name, "time limit of the prover")
            return False
        if not fs:
            self.ok(name, "syntactic (interned terms)" if term is ZERO else "exact polynomial identity")
            return True
        f = fs[0]
        models = [q.ctx.model() for q in fs]
        m = {}
        hs = []
        for q in models:
            hs += self.hints(q)
        why = (f.why or "identity does not hold") + f": {show(f.term)[:220]} under " + ", ".join(
            show(c) for c in f.ctx.conds[-6:])[:220]
        self.obligations += 1
        self.failed.append({"name": name, "why": why, "hints": sorted(set(hs)), "complete": f.complete})
        return False

    def equal(self, name, a, b, *conds, **kw):
        if a is b:
            self.ok(name, "syntactic (interned terms)")
            return True
        if isinstance(a, Cx) or isinstance(b, Cx):
            a, b = tocx(a), tocx(b)
            return self.zero(name, cx(fsub(a.re, b.re), fsub(a.im, b.im)), *conds, **kw)
        return self.zero(name, fsub(a, b), *conds, **kw)

    def holds(self, name, cond, *conds, depth=2):
        ctx = Ctx().add(*conds)
        if not ctx.consistent():
            self.fail(name, "the precondition is unsatisfiable (vacuous)")
            return False
        if cond is TRUE:
            self.ok(name, "syntactic (interned terms)")
            return True
        try:
            r, m = prove_cond(cond, ctx, depth)
        except prove.Deadline:
            self.undec(name, "time limit of the prover")
            return False
        if r:
            self.ok(name, "z3")
            return True
        self.fail(name, f"not entailed: {show(cond)[:300]}", m, m is not None and "?" not in m)
        return False

    def sat(self, name, *conds):
        """vacuity check: the precondition has a model"""
        c = Ctx().add(*conds)
        self.vacuity[name] = bool(c.consistent())
        if not self.vacuity[name]:
            self.fail(name, "precondition unsatisfiable")

    # --------------------------------------------------------------- running
    def interp(self, pc=(), contracts=None):
        I = Interp(self.crate, contracts)
        I.pc = tuple(pc)
        return I

    def side(self, I, label, kinds=None, facts=(), divisors=True):
        """discharge the obligations recorded while executing; facts: lemmas proved before"""
        self.functions |= I.calls
        self.externs |= I.externs
        seen = set()
        for o in I.obs:
            if kinds is not None and o.kind not in kinds:
                continue
            key = (o.cond, o.pc, o.kind, o.where)
            if key in seen:
                continue
            seen.add(key)
            nm = f"{label}: {o.name()} {o.what}"
            if o.kind == "extreal":
                # CSym("hermitian", (a, n)): the modes that must be real are
                a, n = o.cond.args[1]
                if asort(a) == "C":
                    self.zero(nm + " (constant mode)", tocx(aread(a, (P(0),))).im, *o.pc)
                    self.zero(nm + " (highest mode, even n)", tocx(aread(a, (idiv(n, 2),))).im, *o.pc, eq(imod(n, 2), 0))
                continue
            try:
                r, m = prove_cond(o.cond, Ctx().add(*o.pc, *facts))
            except prove.Deadline:
                self.undec(nm, "time limit of the prover")
                continue
            if r:
                self.ok(nm, "z3")
            else:
                self.fail(nm, f"not entailed: {show(o.cond)[:300]}", m, m is not None and "?" not in m)
        if divisors and kinds is None:
            self.nonzero(I, label)

    def nonzero(self, I, label):
        """divisors met during the execution do not vanish (those that are arithmetic in sizes and indices)"""
        seen = set()
        for d, pc, line, fn in I.divisors:
            if (d, pc) in seen:
                continue
            seen.add((d, pc))
            nm = f"{label}: {fn}:{line} divisor is not zero"
            try:
                r, m = prove.prove_nonzero(d, Ctx().add(*pc))
            except prove.Deadline:
                self.undec(nm, "time limit of the prover")
                continue
            if r is True:
                self.ok(nm, "z3")
            elif r is False:
                # not definite: the quotient may be unused
                self.fail(nm, f"the divisor {show(d)[:200]} can be zero", m, False)
            else:
                t = f"divisor assumed nonzero at {fn}:{line}"
                if t not in self.trusted:
                    self.trusted.append(t)

    def group(self, name, f):
        """register one group of obligations; constructs outside the subset make it undecided"""
        # the closures run later: a loop variable must be bound when the group is registered
        assert set(f.__code__.co_freevars) <= {"S", "nd", "keys"}, f"{name}: late-bound {f.__code__.co_freevars}"
        self.tasks.append((name, f))

    KEYS = ("obligations", "discharged", "failed", "undecided", "functions", "contracts", "externs", "assumptions",
            "trusted", "bounded", "vacuity", "backends")

    def run_all(self, jobs=8):
        """every group in a process of its own"""
        pend = list(self.tasks)
        self.tasks = []
        run = {}
        while pend or run:
            while pend and len(run) < jobs:
                name, f = pend.pop(0)
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    code = 1
                    try:
                        os.close(r)
                        self.reset()
                        self.one(name, f)
                        d = {k: getattr(self, k) for k in self.KEYS}
                        d["stats"] = prove.STATS
                        d["cpu"] = time.process_time()
                        with os.fdopen(w, "wb") as fh:
                            pickle.dump(d, fh)
                        code = 0
                    finally:
                        os._exit(code)
                os.close(w)
                run[r] = (pid, name, bytearray())
            rd, _, _ = select.select(list(run), [], [], 1.0)
            for r in rd:
                b = os.read(r, 1 << 16)
                pid, name, buf = run[r]
                if b:
                    buf.extend(b)
                    continue
                os.close(r)
                del run[r]
                os.waitpid(pid, 0)
                try:
                    self.absorb(pickle.loads(bytes(buf)))
                except Exception:  # noqa: BLE001
                    self.undec(name, "the process of this group ended abnormally (memory or stack)")

    def reset(self):
        self.obligations = self.discharged = 0
        self.failed, self.undecided, self.contracts, self.assumptions, self.trusted, self.bounded = [], [], [], [], [], []
        self.functions, self.externs, self.vacuity = set(), set(), {}
        self.backends = {}

    def absorb(self, d):
        self.obligations += d["obligations"]
        self.discharged += d["discharged"]
        for k in ("failed", "undecided"):
            getattr(self, k).extend(d[k])
        for k in ("contracts", "assumptions", "trusted", "bounded"):
            for x in d[k]:
                if x not in getattr(self, k):
                    getattr(self, k).append(x)
        self.functions |= d["functions"]
        self.externs |= d["externs"]
        self.vacuity.update(d["vacuity"])
        for k, v in d["backends"].items():
            self.backends[k] = self.backends.get(k, 0) + v
        for k in self.stats:
            self.stats[k] += d["stats"].get(k, 0)
        self.cpu_s += d["cpu"]

    def one(self, name, f):
        try:
            f()
        except Unsupported as u:
            self.undec(name, f"outside the executed subset: {u}")
        except (prove.Deadline,):
            self.undec(name, "time limit")
        except prove.Undecided as u:
            self.undec(name, f"undecided: {u}")
        except Panic as p:
            self.fail(name, f"the code panics under the precondition: {p.what} (line {p.line})")
        except NeedFork as u:
            self.undec(name, f"control flow not merged: {u.cond!r}"[:300])
        except RecursionError:
            self.undec(name, "recursion depth")
        except Exception as x:  # noqa: BLE001
            self.undec(name, "engine error: " + "".join(traceback.format_exception(x)[-4:])[-900:])

    def result(self):
        if self.stats["sz"]:
            self.backends["random evaluation modulo 2^61-1 (leaves too large to expand)"] = self.stats["sz"]
        return {
            "obligations": self.obligations, "discharged": self.discharged,
            "failed": self.failed, "undecided": self.undecided,
            "functions": sorted(self.functions), "backends": {k: v for k, v in self.backends.items() if v},
            "solver_s": round(self.cpu_s, 2), "z3_calls": self.stats["z3_calls"],
            "z3_s": round(self.stats["z3_time"], 2), "case_leaves": self.stats["leaves"],
            "trusted": self.trusted + sorted("external: " + x for x in self.externs),
            "contracts": self.contracts, "vacuity": self.vacuity, "bounded": self.bounded,
            "assumptions": self.assumptions,
        }
