"""Build and confirm planted bugs: tools/plant.py [ids...]  (scratch copy under /tmp/plant)."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/plant/repo"
BUGS = {}
TOML = '''[package]
name = "demo"
version = "0.1.0"
edition = "2021"
publish = false
[workspace]
[[bin]]
name = "demo"
path = "demo.rs"
[dependencies]
funspace = {{ path = "{repo}"{feat} }}
ndarray = {{ version = "0.17", features = ["rayon"] }}
num-complex = "0.4"
num-traits = "0.2"
{extra}[profile.dev]
opt-level = 1
debug = false
incremental = false
'''
SH = '''#!/bin/bash
# exit 0 when the property holds for the demonstrated input, nonzero otherwise
H=$(cd "$(dirname "$0")" && pwd)
R=$PWD
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
export HOME=/root PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
unset CARGO_TARGET_DIR
cp -r "$H/demo.rs" "$W/"
%s
cat > "$W/Cargo.toml" <<EOT
%s
EOT
cp "$R/Cargo.lock" "$W/" 2>/dev/null
cd "$W" || exit 99
cargo build --offline --target-dir "$W/t" >"$W/log" 2>&1 || { cat "$W/log"; exit 98; }
timeout 120 "$W/t/debug/demo"
'''


def bug(id, prop, needs, breaks, edits, demo, mpi=False, release=False):
    BUGS[id] = dict(prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, mpi=mpi, release=release)


exec(open(os.path.join(V, "tools", "bugs.py")).read())


def sh(cmd, cwd=None, timeout=1200):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)


def main():
    ids = sys.argv[1:] or list(BUGS)
    if not os.path.exists(S):
        os.makedirs("/tmp/plant", exist_ok=True)
        sh("cp -a /repo /tmp/plant/repo")
    for i in ids:
        b = BUGS[i]
        sh("git checkout -q -- . && git fetch -q /repo && git reset -q --hard $(git -C /repo rev-parse HEAD)", S)
        bad = False
        for f, old, new in b["edits"]:
            p = os.path.join(S, f)
            t = open(p).read()
            nth = 1
            single = not isinstance(old, tuple)
            if isinstance(old, tuple):
                old, nth = old
            if t.count(old) < nth or (single and t.count(old) != 1):
                print(i, "EDIT", f, t.count(old)); bad = True; continue
            pos = -1
            for _ in range(nth):
                pos = t.index(old, pos + 1)
            t = t[:pos] + new + t[pos + len(old):]
            open(p, "w").write(t)
        if bad:
            continue
        d = os.path.join(V, "seeded", i)
        os.makedirs(d, exist_ok=True)
        r = sh("git diff", S)
        open(os.path.join(d, "patch.diff"), "w").write(r.stdout)
        open(os.path.join(d, "demo.rs"), "w").write(b["demo"])
        ex = 'mpi-fork-fnsp = "0.6"\n[patch.crates-io]\nmpi-fork-fnsp = { path = "stub" }\n' if b["mpi"] else ""
        toml = TOML.format(repo="$R", feat=', features = ["mpi"]' if b["mpi"] else "", extra=ex)
        if b["release"]:
            toml = toml.replace("opt-level = 1", "opt-level = 1\ndebug-assertions = false")
        if b["mpi"]:
            if os.path.exists(os.path.join(d, "stub")):
                shutil.rmtree(os.path.join(d, "stub"))
            shutil.copytree(os.path.join(V, "harness_mpi", "stub"), os.path.join(d, "stub"), ignore=shutil.ignore_patterns("target"))
        open(os.path.join(d, "demo.sh"), "w").write(SH % ('cp -r "$H/stub" "$W/"' if b["mpi"] else "", toml.strip()))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        # confirm: stable tests pass in the scratch copy, demo fails there and passes on /repo
        t = sh("sed 's#/repo#/tmp/plant/repo#g' /opt/vp/env.inc.sh > /tmp/plant/env.sh; . /tmp/plant/env.sh; "
               "cargo test --workspace --features mpi --no-fail-fast --locked --offline -- --test-threads 8 2>&1 | "
               "grep -E 'test result|FAILED|panicked|error'", S)
        ok = "FAILED" not in t.stdout and "error" not in t.stdout and t.stdout.count("test result: ok") >= 2
        d1 = sh(f"bash {d}/demo.sh", S)
        d0 = sh(f"bash {d}/demo.sh", "/repo")
        good = ok and d0.returncode == 0 and d1.returncode not in (0, 98, 99, 124)
        print(i, "GOOD" if good else "BAD", "tests", ok, "demo clean", d0.returncode, "patched", d1.returncode, flush=True)
        if not good:
            print(t.stdout[-600:], d0.stdout[-800:], d0.stderr[-500:], d1.stdout[-800:], d1.stderr[-500:])
    sh("git checkout -q -- .", S)


main()
