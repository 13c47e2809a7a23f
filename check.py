#!/usr/bin/env python3
"""Decide one property: check.py <ID> [--tier quick|thorough]

1. proof engine: contracts over the functions of /repo's current source (engine/).
2. the same contracts evaluated on the compiled code (harness/, harness_mpi/): replay of
   counter-examples, and bounded stand-in for what the engine could not bring under contract.
"""
import argparse, json, os, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("FNSP_REPO", "/repo")
MPI = {"C22", "C23", "C24", "C25"}
BOTH = {"C26"}  # decided over the whole crate: both harness crates
BUILD = os.path.join(V, ".build")


def env():
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
             RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", HOME="/root",
             PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", ""))
    e.pop("CARGO_TARGET_DIR", None)
    e["RUST_BACKTRACE"] = "0"
    return e


def build(mpi):
    crate = "harness_mpi" if mpi else "harness"
    td = os.path.join(BUILD, crate)
    os.makedirs(td, exist_ok=True)
    r = subprocess.run(["cargo", "build", "--offline", "--target-dir", td],
                       cwd=os.path.join(V, crate), env=env(), capture_output=True, text=True)
    if r.returncode:
        return None, r.stderr
    return os.path.join(td, "debug", "hm" if mpi else "hx"), r.stderr


def run_harness(exe, prop, tier, seed, hints, timeout, search=0):
    cur = os.path.join(BUILD, f"cur-{prop}")
    cmd = [exe, prop, "--seed", str(seed), "--cur", cur]
    if tier == "thorough":
        cmd.append("--thorough")
    if search:
        cmd += ["--search", str(search)]
    if hints:
        cmd += ["--hints", ",".join(map(str, hints))]
    try:
        r = subprocess.run(cmd, env=env(), capture_output=True, text=True, timeout=timeout)
        rc, out, err = r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired:
        rc, out, err = None, "", f"no result within {timeout} s"
    rep = None
    for line in reversed(out.strip().splitlines()):
        if line.startswith("{"):
            try:
                rep = json.loads(line)
            except ValueError:
                rep = None
            break
    if rep is None or "failures" not in rep:
        case = ""
        try:
            case = open(cur).read().strip()
        except OSError:
            pass
        rep = {"cases": 0, "evaluations": 0, "samples": [], "abnormal": True,
               "failures": [{"case": case, "detail": f"abnormal end (exit {rc}): {err[-1500:]}"}]}
    return rep, cmd


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--no-engine", action="store_true")
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    rdir = os.path.join(V, "replay")
    os.makedirs(rdir, exist_ok=True)

    # --- build of the replay harness runs beside the proof engine
    os.makedirs(BUILD, exist_ok=True)
    eng = None
    ep = None
    if not a.no_engine and os.path.exists(os.path.join(V, "engine", "run.py")):
        eo = os.path.join(BUILD, f"engine-{prop}.json")
        if os.path.exists(eo):
            os.unlink(eo)
        ep = subprocess.Popen([sys_py3vt(), os.path.join(V, "engine", "run.py"), prop, "--repo", REPO, "--tier", tier,
                               "--out", eo], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    exe, log = build(prop in MPI)
    exe2 = None
    if exe is not None and prop in BOTH:
        exe2, log = build(True)
        exe = exe2 and exe
    if exe is None:
        if ep:
            ep.kill()
        print(log[-4000:])
        print(f"ERROR property={prop} the replay harness does not build against {REPO}")
        sys.exit(2)
    hints = []
    if ep:
        try:
            eout, _ = ep.communicate(timeout=540 if tier == "quick" else 3000)
        except subprocess.TimeoutExpired:
            ep.kill()
            eout = ep.communicate()[0]
        try:
            eng = json.load(open(eo))
        except (OSError, ValueError):
            eng = {"obligations": 0, "discharged": 0, "failed": [], "undecided": [
                {"name": "engine", "why": "the proof engine gave no result: " + (eout or "")[-1500:]}], "functions": [],
                "solver_s": 0.0, "backends": {}, "assumptions": []}
        # a proof search that gave up decides nothing: listed as undecided, left to the bounded stand-in and the search
        eng["undecided"] = eng.get("undecided", []) + [f for f in eng["failed"] if not f.get("complete", True)]
        eng["failed"] = [f for f in eng["failed"] if f.get("complete", True)]
        for f in eng["failed"] + eng["undecided"]:
            hints += f.get("hints", [])
        hints = sorted(set(h for h in hints if 1 <= h <= 2000))[:12]
    rep, cmd = run_harness(exe, prop, tier, seed, hints, 240 if tier == "quick" else 1800)

    if exe2:
        rep2, cmd2 = run_harness(exe2, prop, tier, seed, hints, 240 if tier == "quick" else 1800)
        if rep2["failures"] and not rep["failures"]:
            cmd = cmd2
        for k in ("evaluations", "cases", "samples", "failures"):
            rep[k] = rep[k][:5] + rep2[k] if k == "samples" else rep[k] + rep2[k]

    # an obligation fails (or is undecided) but the standard run does not show it: look for an input at the sizes it does not reach
    left = int((860 if tier == "quick" else 20000) - (time.time() - t0))
    if ((eng and (eng["failed"] or eng["undecided"])) or tier == "thorough") and not rep["failures"] and prop not in MPI and left > 30:
        lim = min(left, 200 if tier == "quick" else 1000)
        found, scmd = run_harness(exe, prop, tier, seed, hints, lim, search=lim * 3 // 4)
        if found["failures"] and not found.get("abnormal"):
            rep["failures"], cmd = found["failures"], scmd
        rep["evaluations"] += found["evaluations"]
        rep["cases"] += found["cases"]

    # --- known findings
    known = []
    kf = os.path.join(V, "known_findings.txt")
    if os.path.exists(kf):
        for line in open(kf):
            line = line.strip()
            if line.startswith(f"known: property={prop} "):
                known.append(line[len(f"known: property={prop} "):])

    viol = []
    for f in rep["failures"]:
        hit = [k for k in known if k.split(" :: ")[0] == f["case"]]
        if hit:
            print(f"KNOWN-FINDING: property={prop} {hit[0]}")
        else:
            viol.append({"kind": "counterexample", "case": f["case"], "detail": f["detail"], "replay_cmd": " ".join(cmd)})
    nofail = []
    if eng:
        for f in eng["failed"]:
            nofail.append({"kind": "obligation", **f})

    coverage = {}
    n_ob = eng["obligations"] if eng else 0
    n_dis = eng["discharged"] if eng else 0
    proved = bool(eng) and n_ob > 0
    if proved:
        coverage.update(
            obligations=n_ob, discharged=n_dis,
            checker_cmd=f"python3-vt {os.path.join(V, 'engine', 'run.py')} {prop} --repo {REPO} --tier {tier}",
            trusted_base=eng.get("trusted", []),
            functions_under_contract=eng["functions"], backends=eng["backends"], solver_s=eng["solver_s"],
            contracts=eng.get("contracts", []), vacuity_checks=eng.get("vacuity", {}),
            undecided=eng.get("undecided", []), bounded=eng.get("bounded", []))
        level = "proof"
    else:
        level = "exploration"
    coverage.update(
        evaluations=rep["evaluations"], distinct_nontrivial=rep["cases"],
        rule="contract evaluated on the compiled code (bounded): one case per (base or space, operation, size); "
             "a case counts once by its name and compares at least one computed value with the specification",
        samples=rep["samples"][:6] or ["(none)"])
    if eng and not proved:
        coverage["engine"] = eng
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": coverage,
          "assumptions": (eng or {}).get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(viol) + len(nofail)}
    with open(os.path.join(V, "evidence", f"{prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1)

    if viol or nofail:
        path = os.path.join(rdir, f"{prop}.json")
        with open(path, "w") as fh:
            json.dump({"property": prop, "counterexamples": viol, "failed_obligations": nofail}, fh, indent=1)
        for v in viol[:5]:
            print(f"  {v['case']}: {v['detail'][:300]}")
        for v in nofail[:8]:
            print(f"  obligation {v.get('name')}: {str(v.get('why'))[:300]}")
        tail = "" if viol else " no-failing-input-found"
        print(f"VIOLATION property={prop} replay={path}{tail}")
        sys.exit(1)
    if rep["evaluations"] == 0 and rep["cases"] == 0:
        print(f"ERROR property={prop} nothing was evaluated")
        sys.exit(2)
    print(f"OK property={prop} obligations={n_dis}/{n_ob} bounded cases={rep['cases']} evaluations={rep['evaluations']} "
          f"wall={ev['wall_s']}s")
    for u in (eng or {}).get("undecided", [])[:5]:
        print(f"  undecided (bounded stand-in passed): {u.get('name')}: {str(u.get('why'))[:200]}")
    sys.exit(0)


def sys_py3vt():
    p = "/opt/veriftools/pyvenv/bin/python3"
    return p if os.path.exists(p) else "python3-vt"


if __name__ == "__main__":
    main()
