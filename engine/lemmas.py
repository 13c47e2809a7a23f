"""Mathematical lemmas over the contracts, checked by Lean's kernel (Mathlib) on every run.

lemmas/*.lean state and prove the mathematics that links a contract (a formula) to the property's wording (the derivative, the
boundary value, the inverse transform).  A lemma counts only if Lean accepts the file's proof of it and reports no axiom beyond
the three of its standard library.  Without Lean the statement is listed as an assumption, as a textbook fact."""
import glob
import os
import re
import shutil
import subprocess

DIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lemmas")
STANDARD = {"propext", "Classical.choice", "Quot.sound"}

TEXT = {
    "Chebyshev": {
        "T_right": "T_j(1) = 1",
        "T_left": "T_j(-1) = (-1)^j",
        "dT_right": "T_j'(1) = j^2",
        "dT_left": "T_j'(-1) = (-1)^(j+1) j^2",
        "ddT_right": "T_j''(1) = j^2 (j^2-1)/3",
        "ddT_left": "T_j''(-1) = (-1)^j j^2 (j^2-1)/3",
        "field_vanishes": "a linear functional that vanishes on every basis function sum_i S_ik T_i vanishes on every field sum_i (S v)_i T_i",
        "derivative_series": "b_n = b_(n+1) = a_n = 0 and c_(p-1) b_(p-1) - b_(p+1) = 2 p a_p for 1 <= p <= n imply (sum a_k T_k)' = sum b_k T_k",
        "derivative_matrix": "matrices D_k with D_0 = I and that recurrence column by column: D_k v are the coefficients of the k-th derivative, every k",
        "derivative_iterate": "vectors w_k with that recurrence: w_k are the coefficients of the k-th derivative of sum (w_0)_q T_q, every k",
    },
    "Cosine": {
        "cos_sum": "sum''_j cos(pi j k/N) = N if 2N divides k, else 0",
        "cos_orthogonal": "sum''_j cos(pi j k/N) cos(pi j l/N) = N/(2 h_k) if k = l, else 0",
        "bwd_is_series": "the backward formula is the Chebyshev series at x_i = -cos(pi i/N)",
        "bwd_fwd": "backward(forward v) = v",
        "fwd_bwd": "forward(backward c) = c",
    },
    "Fourier": {
        "sum_E": "sum_k exp(2 pi i d k/n) = n if n divides d, else 0",
        "fftp_fftm": "complex transforms: backward(forward v) = v",
        "fftm_fftp": "complex transforms: forward(backward c) = c",
        "irfft_eq": "the inverse real transform is the sum over the conjugate-symmetric extension",
        "irfft_rfft": "real transforms: backward(forward v) = v",
        "rfft_irfft": "real transforms: forward(backward c) = c if the modes 0 and (even n) n/2 are real",
    },
    "Modes": {
        "series_deriv": "(sum c_k exp(i w_k x))' = sum i w_k c_k exp(i w_k x)",
        "series_iteratedDeriv": "multiplying every mode by (i w_k)^N differentiates N times",
        "aliases": "exp(i (w + n) x_j) = exp(i w x_j) on the grid x_j = 2 pi j/n",
    },
    "Points": {
        "cos_decreasing": "cos is strictly decreasing on [0, pi]",
        "sin_eq_cos": "sin x = cos(pi/2 - x)",
        "sin_odd": "sin(-x) = -sin x",
        "points_increase": "the Chebyshev points -cos(pi j/(n-1)) increase strictly",
    },
    "Algebra": {
        "injective_of_unit_columns": "S with S_kk = 1 and zeros above is injective",
        "projection_of_image": "S^T S v = S^T S c implies v = c for such S",
        "axes_commute": "a linear operation along one axis commutes with a matrix along another (real or complex scalars and lanes)",
        "has_matrix": "every linear operation on lanes of scalars has a matrix",
        "roundtrip": "inverse along every axis implies inverse",
    },
}


def lean():
    exe = shutil.which("lean")
    env = dict(os.environ)
    if not exe:
        c = sorted(glob.glob("/app/lean4-*/build/release/stage1/bin/lean"))
        exe = c[-1] if c else None
    if not env.get("LEAN_PATH"):
        ps = []
        for m in sorted(glob.glob("/app/mathlib4-*"))[-1:]:
            ps += [m + "/.lake/build/lib/lean"] + sorted(glob.glob(m + "/.lake/packages/*/.lake/build/lib/lean"))
        if ps:
            env["LEAN_PATH"] = ":".join(ps)
    return exe, env


def accepted(file):
    """names of the theorems of the file that Lean proves from the standard axioms, and an error text"""
    exe, env = lean()
    if not exe:
        return set(), "lean is not installed"
    try:
        p = subprocess.run([exe, os.path.join(DIR, file + ".lean")], env=env, capture_output=True, text=True, timeout=200)
    except (OSError, subprocess.TimeoutExpired) as x:
        return set(), f"lean did not answer: {type(x).__name__}"
    out = p.stdout + p.stderr
    good = set(re.findall(r"'Funspace\.(\w+)' does not depend on any axioms", out))
    for n, ax in re.findall(r"'Funspace\.(\w+)' depends on axioms: \[([^\]]*)\]", out):
        if {a.strip() for a in ax.split(",")} <= STANDARD:
            good.add(n)
    return good, "" if p.returncode == 0 else out[:300]


def check(S, file, names=None):
    """one group per file: the listed theorems (default: all of them)"""
    good, err = accepted(file)
    for n in names or TEXT[file]:
        t = TEXT[file][n]
        if n in good:
            S.ok(f"lemma {file}.{n}: {t}", "Lean 4 kernel with Mathlib")
            S.contracts.append(f"lemma {n} (lemmas/{file}.lean): {t}")
        else:
            S.assumptions.append(f"{t} (textbook fact; its proof lemmas/{file}.lean was not checked in this run: {err or 'not accepted'})")
