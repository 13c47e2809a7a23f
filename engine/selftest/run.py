"""Self-test of the symbolic executor and prover: every function a_* of lib.rs computes out[k] = 2*v[k]; the engine must
prove that, and must not prove out[k] = 3*v[k].  usage: python3-vt run.py [regex] ; `--rust DIR` writes a crate whose test
runs the functions (the contract holds on the real compiler as well)."""
import os
import re
import sys
import threading

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.setrecursionlimit(30000)
threading.stack_size(1 << 28)
# constructs outside the executed subset: the engine reports "undecided"
OPEN = {"a_recursive", "a_successors", "a_linspace", "a_position", "a_rc", "a_refcell"}


def rust(d):
    src = open(os.path.join(HERE, "lib.rs")).read()
    calls = "".join(
        f"for n in [5, 6, 7, 8, 13] {{ let v: Vec<f64> = (0..n).map(|x| (x * x + 3) as f64).collect(); let mut o = vec![-1.0; n]; {f}(&v, &mut o);"
        f" for i in 0..n {{ assert!((o[i] - 2.0 * v[i]).abs() < 1e-9, \"{f} {{}} {{}}\", n, i); }} }}\n"
        for f in re.findall(r"pub fn (a_\w+)", src))
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    open(os.path.join(d, "src", "lib.rs"), "w").write(src + "\n#[cfg(test)] mod t { use super::*; #[test] fn all() {\n" + calls + "} }\n")
    open(os.path.join(d, "Cargo.toml"), "w").write(
        '[package]\nname = "mini"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\n'
        'ndarray = { version = "*", features = ["rayon"] }\n')


def one(crate, name, factor):
    import prove
    from session import Session
    import specs as s
    prove.set_deadline(60)
    S = Session(crate, "X", "quick")

    def run():
        n, k = s.isym("n"), s.isym("k")
        I = S.interp((s.le(5, n), s.le(n, 2 ** 15)))
        v = s.base_arr("v", "F", n)
        r, o = s.ref(I, v), s.ref(I, s.base_arr("o", "F", n))
        I.call(crate.free[name][0], None, [r, o], {})
        S.equal(name, s.reads(I.snapshot(o), k), s.fmul(s.fc(factor), s.reads(v, k)), *I.pc, *s.within(k, n))
        S.side(I, name)
    S.one(name, run)
    return S


def main():
    if sys.argv[1:2] == ["--rust"]:
        return rust(sys.argv[2])
    from crate import Crate
    rx = re.compile(sys.argv[1] if len(sys.argv) > 1 else ".")
    c = Crate(os.path.dirname(os.path.abspath(os.path.join(HERE, "lib.rs"))))
    bad = 0
    names = [n for n in c.free if n.startswith("a_") and rx.search(n)]
    for n in names:
        S = one(c, n, 2)
        if S.failed or (n not in OPEN and S.undecided):
            bad += 1
            print(n, "not proved:", [f["why"][:150] for f in S.failed][:2], [u["why"][-170:] for u in S.undecided][:1])
        S = one(c, n, 3)
        if not S.failed and not S.undecided:
            bad += 1
            print(n, "UNSOUND: a wrong contract is accepted")
    print(f"{len(names)} functions, {bad} unexpected results")
    os._exit(1 if bad else 0)


t = threading.Thread(target=main)
t.start()
t.join()
