#!/usr/bin/env python3
"""Writes tools/levels.json: level, technique and note of each check (source of MANIFEST.json)"""
import json, os
T = "contract-based deductive verification of the real source (symbolic execution per contract, Z3 + exact identities)"
COMMON = ("All sizes, indices and entries symbolic, no bound on iterations. Scalars are treated as exact field elements "
          "(rounding out of scope); sizes up to 2^15 where integer products are bounded. The same contracts are also "
          "evaluated on the compiled code (bounded, for replay only). ")
N = {
 "C01": "All obligations of to_ortho/stencil of the five composite bases proved.",
 "C02": "Recursion by recursion proof that the LU solvers solve S^T S v = S^T u; every divisor of the elimination proved to be a pivot, and the pivots of S^T S positive.",
 "C03": "Boundary conditions of every stencil column proved; end-point values of T_j, T_j', T_j'' and linearity over the basis are lemmas proved in Lean.",
 "C04": "Product of inverse stencil and stencil proved entry by entry by induction over the loops of the code.",
 "C05": "Entries and integer casts/overflows of the matrices of orders 1-4 proved against the derivative recurrence.",
 "C06": "Band products of pseudoinverse and matrix proved symbolically, all four orders.",
 "C07": "The in-place recurrence proved against the defining recurrence, for every size and derivative count (induction over the count).",
 "C08": "Pre/post processing around the cosine transform proved equal to interpolation/evaluation sums. Trusted: rustdct computes its defining sum. That the two sums are inverse and interpolate: lemmas proved in Lean.",
 "C09": "Composition through C01/C02/C08 contracts proved.",
 "C10": "Wavenumber tables, gradient, differentiation matrices proved.",
 "C11": "Entries proved; every divisor proved nonzero.",
 "C12": "Copying, scaling, zeroing around the FFT plans proved. Trusted: rustfft/realfft compute the defining sums. Round trips of those sums: lemmas proved in Lean.",
 "C13": "Coordinate formulas and lengths proved.",
 "C14": "Lane-wise effect of every in-place and allocating method, dimensions 1-3 (each axis), proved including independence of prior output.",
 "C15": "Every parallel/in-place variant proved to return the array of the serial/allocating one. Assumed: par_for_each calls the closure once per lane without interference.",
 "C16": "Returns only if the extents match; no panic for matching extents. Trusted: ndarray's documented panics on shape mismatch.",
 "C17": "Tensor-product form for spaces of dimension 1-3 on representative combinations of bases with distinct sizes per axis; contracts of the axis operations are used, not bodies.",
 "C18": "As C17 for gradients with and without scales, all derivative counts.",
 "C19": "Every query of every axis proved equal to the axis base's answer.",
 "C20": "Kinds, lengths and forwarding of the eight constructors proved.",
 "C21": "Every unchecked access proved in range for every size from 0; wrapped subtraction obligations included.",
 "C22": "distribute's tables proved by induction over the rank; partition lemmas; new/Decomp2d proved from the distribute contract.",
 "C23": "Packing, counts, displacements and unpacking of all 20 operations proved for two arbitrary ranks; MPI collectives assumed to deliver segment q of the sender as segment of the receiver.",
 "C24": "Every operation of Space2Mpi proved from the contracts of Decomp2d (C22, C23) and of the one-dimensional operations; map of decompositions executed.",
 "C25": "One arbitrary rank and an arbitrary number of processes; the sum by induction over the loop that adds. MPI broadcast, gather and allgather assumed to do what the standard says.",
 "C26": "Frame obligations of every function, static, type and import of the parsed source: no state outside the arguments, no interior mutability in "
        "objects, nothing that differs between calls, threads or processes, unsafe code limited to element access. State outside the arguments is a failed "
        "obligation; anything unknown is undecided and left to the histories run on the compiled code (bounded, each operation compared with a process of "
        "its own). Trusted: Rust's ownership rules; FFT/DCT plans and MPI communicators keep no state that changes a result.",
}
out = {}
for k, v in N.items():
    out[k] = {"level": "proof", "technique": T, "note": v + " " + COMMON}
out["C26"]["technique"] = "contract-based deductive verification of the real source (frame conditions of every function, decided over the parsed code, on top of Rust's ownership rules)"
out["C26"]["note"] = N["C26"]
json.dump(out, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "levels.json"), "w"), indent=1)
