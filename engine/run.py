#!/usr/bin/env python3
"""Proof engine: run.py <ID> --repo R --tier T --out FILE"""
import argparse
import json
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(30000)
import threading
threading.stack_size(512 * 1024 * 1024)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--out")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    import prove
    from session import Session
    from crate import Crate
    import specs
    prove.set_deadline(480 if a.tier == "quick" else 2700)
    t0 = time.time()
    try:
        crate = Crate(os.path.join(a.repo, "src"))
    except Exception as x:  # noqa: BLE001
        res = {"obligations": 0, "discharged": 0, "failed": [], "functions": [], "backends": {}, "solver_s": 0.0,
               "undecided": [{"name": "parser", "why": f"source outside the parsed subset: {x}", "hints": []}], "assumptions": []}
    else:
        S = Session(crate, a.prop, a.tier)
        f = getattr(specs, a.prop, None)
        if f is None:
            S.undec("engine", "no contracts written for this property")
        else:
            f(S)
            S.run_all()
        res = S.result()
    if a.out:
        tmp = a.out + ".tmp"
        with open(tmp, "w") as fh:
            json.dump(res, fh, indent=1)
        os.rename(tmp, a.out)
    print(f"{a.prop}: {res['discharged']}/{res['obligations']} failed {len(res['failed'])} undecided {len(res['undecided'])} {time.time()-t0:.1f}s")
    if a.v:
        for k in ("failed", "undecided"):
            for x in res[k]:
                print(" ", k, json.dumps(x)[:900])
        print({k: res[k] for k in ("backends", "functions", "trusted", "vacuity")})


if __name__ == "__main__":
    th = threading.Thread(target=main)
    th.start()
    th.join()
