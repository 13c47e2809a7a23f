#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long strings stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))
H = "src/chebyshev/stencils/helpers.rs"; S = "src/chebyshev/stencils.rs"; O = "src/chebyshev/ortho.rs"
C = "src/chebyshev/compo.rs"; T = "src/traits.rs"; IM = "src/internal_macros.rs"
L = "src/chebyshev/linalg/"
p("C01", "Composite to orthogonal conversion is the stencil product",
  "For every composite Chebyshev base (Dirichlet, Neumann, Dirichlet-Neumann, biharmonic A and B), converting a coefficient vector to the orthogonal Chebyshev basis yields exactly the product of the base's stencil matrix with that vector, in every component. The stencil matrix the base reports is that same matrix: its k-th column holds the documented combination T_k + a_k T_(k+1) + b_k T_(k+2) (+ d_k T_(k+4)) and is zero elsewhere.",
  ["inputs", "configurations"], "every composite base, every size the constructor accepts, every real or complex coefficient vector",
  "Tests convert one or two fixed vectors at one size and compare with a loose tolerance; the first and last rows are special-cased in code and go unchecked at other sizes.",
  [H, S, C], [("unrolled first/last rows and banded loop of the stencil product", H), ("stencil coefficients", S)],
  ["BaseFromOrtho::to_ortho", "BaseMatOpStencil::stencil"])
p("C02", "Orthogonal to composite conversion is the exact least-squares projection",
  "For every composite Chebyshev base with stencil matrix S, converting orthogonal coefficients u to composite coefficients returns the v with S^T S v = S^T u: the banded elimination solves its system exactly (in real arithmetic) and changes nothing but the result. In particular converting composite coefficients to orthogonal ones and back returns the original vector.",
  ["inputs", "configurations"], "every composite base, every size accepted, every real or complex vector",
  "Tests solve one random system per solver at one size; odd/even sizes, the smallest sizes and the special-cased first and last rows are separate code paths.",
  [L+"tdma.rs", L+"pdma.rs", L+"pdma2.rs", H], [("three banded LU solvers", L), ("normal-equation diagonals S^T S and right-hand side S^T u", H)],
  ["BaseFromOrtho::from_ortho"])
p("C03", "Composite basis functions satisfy their boundary conditions",
  "Every basis function of a composite Chebyshev base satisfies the base's documented boundary conditions exactly: Dirichlet u(-1)=u(1)=0, Neumann u'(-1)=u'(1)=0, Dirichlet-Neumann u(-1)=u'(1)=0, biharmonic A u=u'=0 at both ends, biharmonic B u=u''=0 at both ends. Hence any field produced from composite coefficients satisfies them, whatever the coefficients.",
  ["inputs", "configurations"], "every composite base, every size, every basis index k, every coefficient vector",
  "No test evaluates a boundary condition; the coefficients are rational functions of k and a wrong one shows only through a derivative at the boundary.",
  [S, H], [("stencil coefficient formulas", S)], ["BaseMatOpStencil::stencil", "BaseFromOrtho::to_ortho", "BaseTransform::backward"])
p("C04", "Inverse stencil is a left inverse of the stencil",
  "For every base and every size, the inverse stencil matrix times the stencil matrix is the identity of the composite size. For orthogonal bases both are the identity of the spectral size.",
  ["inputs", "configurations"], "every base kind, every size accepted, every entry of the product",
  "Tests multiply the two at one or two sizes; the recurrence has step-2 and step-1 variants whose errors show only far from the diagonal.",
  [H, S, C, O], [("triangular back-substitution row by row", H)], ["BaseMatOpStencil::stencil_inv"])
p("C05", "Chebyshev differentiation matrices are exact for every size",
  "The Chebyshev differentiation matrix of order 1 to 4 maps the coefficients of any polynomial to the coefficients of its derivative of that order, in every entry and for every size. No intermediate integer computation wraps around or aborts.",
  ["inputs", "configurations"], "orders 1..4, every size n, every entry (p,q)",
  "Tests compare one size per order with a tolerance; entries grow like n^7, so errors in integer arithmetic appear only for other sizes or build profiles.",
  [O], [("closed forms per order with parity conditions", O)], ["BaseMatOpDiffmat::diffmat"])
p("C06", "Chebyshev pseudoinverses invert differentiation",
  "For orders 1 to 4 the pair returned as (D_pinv, I_pinv) satisfies D_pinv * D^order = the identity with its first `order` rows zeroed, whose remaining rows are I_pinv, for every size at which the pseudoinverse can be built. The Laplacian pair is the order-2 pair, and composite bases report the pair of their orthogonal base.",
  ["inputs", "configurations"], "orders 1..4, every size, every entry of the product",
  "Tests check single orders at single sizes against a product of lower orders, never against the differentiation matrix at other sizes.",
  [O, C], [("banded closed forms with truncated last columns", O)], ["BaseMatOpDiffmat::diffmat_pinv", "BaseMatOpLaplacian::laplacian_pinv"])
p("C07", "Chebyshev gradient is repeated exact differentiation",
  "Differentiating Chebyshev coefficients n times yields exactly the coefficients of the n-th derivative of the polynomial, equal to applying the first-order differentiation matrix n times (n = 0 returns the input). For composite bases the result is the derivative of the function the coefficients represent, in orthogonal coefficients; no element outside the vectors is touched at any size.",
  ["inputs", "configurations"], "every base, every size n>=1, every derivative count, every real or complex vector",
  "Tests differentiate one fixed vector twice; sizes 1 to 3 and the end rows follow separate unchecked-index code.",
  [O, C], [("downward recurrence in place with unchecked indexing", O)], ["BaseGradient::gradient"])
p("C08", "Chebyshev transform interpolates at the grid and round-trips",
  "Forward-transforming nodal values gives the coefficients of the polynomial that takes those values at the base's grid points, and backward-transforming coefficients evaluates that polynomial at the grid points. Forward then backward (and backward then forward) is the identity for every size n>=2 and every input.",
  ["inputs", "configurations"], "every size n>=2, every real vector",
  "Tests transform fixed vectors at a few even sizes; node ordering, end-point weights and sign alternation depend on parity and size.",
  [O], [("reversal, end-point halving and doubling, sign alternation around a type-1 cosine transform", O)], ["BaseTransform::forward", "BaseTransform::backward", "BaseElements::coords"])
p("C09", "Composite transforms project and evaluate the represented function",
  "For composite bases the backward transform evaluates sum_k c_k phi_k at the grid points, and the forward transform returns the composite coefficients of the least-squares projection of the interpolating polynomial. Backward followed by forward returns the coefficients.",
  ["inputs", "configurations"], "every composite base, every size accepted, every real vector",
  "Tests check one size per base with tolerance 1e-3.",
  [C, S, H, O], [("composition of stencil conversion and cosine transform through a scratch buffer of orthogonal length", C)], ["BaseTransform::forward", "BaseTransform::backward"])
p("C10", "Fourier differentiation multiplies each mode by its wavenumber",
  "Differentiating Fourier coefficients n times multiplies the mode with wavenumber k by (ik)^n, where the modes of the complex base are ordered 0..,-1 (wavenumbers 0,1,..,then negative ones up to -1) and those of the real base are 0..n/2. The differentiation matrix is the same diagonal operator, and the Laplacian is diagonal with -k^2.",
  ["inputs", "configurations"], "both Fourier bases, every size n>=1 (odd and even), every derivative count, every complex vector",
  "The existing checks use one vector each, look at a few modes or accept a result when either the real or the imaginary part agrees.",
  ["src/fourier/c2c.rs", "src/fourier/r2c.rs"], [("wavenumber construction; positive and negative half loops", "src/fourier/c2c.rs")], ["BaseGradient::gradient", "BaseMatOpDiffmat::diffmat", "BaseMatOpLaplacian::laplacian"])
p("C11", "Fourier pseudoinverses invert differentiation on non-constant modes",
  "For both Fourier bases the pseudoinverse of the order-n differentiation matrix, and of the Laplacian, times the matrix is the identity with the constant mode's row zeroed; the pseudo-identity returned with it is that identity without its first row. All entries are finite.",
  ["inputs", "configurations"], "both Fourier bases, every size, every order, every entry",
  "No test multiplies the pair; the inverse is built by an offset diagonal view.",
  ["src/fourier/c2c.rs", "src/fourier/r2c.rs"], [("reciprocal of the shifted diagonal", "src/fourier/c2c.rs")], ["BaseMatOpDiffmat::diffmat_pinv", "BaseMatOpLaplacian::laplacian_pinv"])
p("C12", "Fourier transforms follow the discrete Fourier convention and round-trip",
  "Forward computes sum_j v_j exp(-i k x_j) over the grid for each mode k without scaling, backward computes (1/n) sum_k c_k exp(i k x_j), so that forward then backward is the identity for every size. For the real base the backward transform is real, uses conjugate symmetry, and ignores the imaginary parts of the constant mode and (even n) of the highest mode.",
  ["inputs", "configurations"], "both Fourier bases, every size n>=1, every input vector",
  "Tests transform fixed vectors at even sizes; odd sizes and nonzero imaginary parts of the self-conjugate modes are never used.",
  ["src/fourier/c2c.rs", "src/fourier/r2c.rs"], [("copy, scaling by 1/n, zeroing of self-conjugate imaginary parts around external FFT plans", "src/fourier/r2c.rs")], ["BaseTransform::forward", "BaseTransform::backward"])
p("C13", "Grid coordinates match the base and its size",
  "Every base of physical size n reports exactly n coordinates: Chebyshev bases report -cos(pi j/(n-1)), strictly increasing from -1 to 1 and antisymmetric; Fourier bases report 2 pi j/n, strictly increasing in [0, 2 pi).",
  ["inputs", "configurations"], "every base kind, every size",
  "Tests compare a handful of values at one size; a floating-point range can gain or lose its last point at particular sizes.",
  [O, "src/fourier/c2c.rs", "src/fourier/r2c.rs", C], [("node formulas", O)], ["BaseElements::coords"])
p("C14", "Operations along an axis act lane by lane",
  "Applying a transform, derivative or basis conversion to an n-dimensional array along an axis gives, for every one-dimensional lane along that axis, exactly the result of the one-dimensional operation on that lane, and leaves the extent of every other axis unchanged. The result depends on the input only: neither the previous contents of the output array nor other lanes influence it.",
  ["inputs", "configurations"], "every operation, every base, every dimension and axis, every array shape and content, every prior output content",
  "Tests use one- and two-dimensional arrays with a fresh zeroed output; a scratch buffer is reused across lanes for non-contiguous axes.",
  [T, IM, "src/utils.rs"], [("lane iteration with scratch copy-in/copy-out", IM), ("gradient lane iteration", T)], ["*_inplace methods of the base traits"])
p("C15", "Parallel and in-place variants equal the serial ones",
  "For every base and every one-, two- and three-dimensional space, each parallel method returns the same array as its serial counterpart, and each in-place method writes the same array as its allocating counterpart returns, for the same input.",
  ["inputs", "configurations", "schedules"], "every operation, base, space, axis, shape and input; every thread schedule (lanes are disjoint)",
  "Tests compare serial and parallel for a few combinations with one shape each; each variant is a separately written body.",
  [T, IM, "src/space/traits.rs", "src/space/space1.rs", "src/space/space2.rs", "src/space/space3.rs"], [("duplicated par_* bodies", T)], ["*_par, *_inplace methods"])
p("C16", "Mismatched sizes are rejected, never computed on",
  "An operation given an input or output array whose extent along the axis differs from what the base requires, or a slice of wrong length where the base checks it, panics and writes nothing; with matching extents it never panics for sizes the base supports.",
  ["inputs", "configurations"], "every operation taking arrays, every base, every wrong extent (shorter or longer) of input or output",
  "One test checks one mismatch; each generated method carries its own pair of required lengths.",
  [T, IM, "src/utils.rs", O, C, "src/fourier/c2c.rs", "src/fourier/r2c.rs"], [("extent checks before the lane loop", IM)], ["*_inplace methods of the base traits"])
p("C17", "Multidimensional transforms are tensor products of the axis transforms",
  "For one-, two- and three-dimensional spaces the forward transform applies each axis's own base exactly once along that axis, the backward transform likewise, and conversions to and from the orthogonal basis likewise; results have the space's spectral, physical or orthogonal shape. Hence backward-then-forward returns the coefficients for every combination of bases.",
  ["inputs", "configurations"], "every admissible combination of bases, every shape including different sizes per axis, every input",
  "Tests use a few combinations, often with equal bases or sizes on several axes, where a swapped axis or base goes unnoticed.",
  ["src/space/space1.rs", "src/space/space2.rs", "src/space/space3.rs", "src/space/traits.rs"], [("chained per-axis calls in macro bodies", "src/space/space3.rs")], ["BaseSpaceTransform", "BaseSpaceFromOrtho"])
p("C18", "Multidimensional gradient differentiates each axis with its own base and scale",
  "The gradient of a space with derivative counts d and optional physical scales s equals applying the i-th base's derivative d_i times along axis i for every axis, divided by the product of s_i^d_i; without scales the division is absent.",
  ["inputs", "configurations"], "spaces of dimension 1 to 3, all base combinations, all derivative counts, all nonzero scales, all inputs",
  "Tests use equal bases on the axes, a single derivative axis or no scale.",
  ["src/space/space1.rs", "src/space/space2.rs", "src/space/space3.rs"], [("chained per-axis gradient and in-place division", "src/space/space3.rs")], ["BaseSpaceGradient::gradient", "BaseSpaceGradient::gradient_par"])
p("C19", "Space queries report the base of the queried axis",
  "Shapes, coordinates, base kind, transform kind, stencil, inverse stencil, Laplacian and its pseudoinverse of a space report, for each axis, what the base given for that axis reports, and arrays allocated by the space have the physical or spectral shape.",
  ["inputs", "configurations"], "spaces of dimension 1 to 3, every axis, every base combination and size",
  "Tests never query axes with different bases.",
  ["src/space/space1.rs", "src/space/space2.rs", "src/space/space3.rs", "src/space/traits.rs"], [("axis selection by if/else chains", "src/space/space3.rs")], ["BaseSpaceElements", "BaseSpaceSize", "BaseSpaceMatOpStencil", "BaseSpaceMatOpLaplacian"])
p("C20", "Constructed bases behave as the basis they name",
  "Each constructor returns a base of the named kind: its reported kind and transform type, its physical, spectral and orthogonal lengths (n,n,n for Chebyshev; n,n-2,n or n,n-4,n for composites; n,n/2+1 for real and n,n for complex Fourier) and every operation are those of that basis. Wrapping a basis in the general base type changes nothing, nor does cloning it.",
  ["inputs", "configurations"], "all eight constructors, every size, every trait operation",
  "Tests construct a few bases; kind and length reporting is not tested.",
  ["src/lib.rs", "src/enums.rs", IM, C, S], [("enum forwarding generated by a macro; constructors", IM)], ["funspace constructors", "BaseSize", "BaseElements"])
p("C21", "No size reads or writes outside its buffers",
  "For every base, every size its constructor accepts and every operation, the unchecked element accesses stay inside the vectors they index; a size too small for an operation leads to a panic, never to an out-of-range access or a wrapped index.",
  ["inputs", "configurations"], "every base, every size from 0 up, every operation that converts, solves or differentiates",
  "Tests run at comfortable sizes in which every unrolled end row exists.",
  [L+"tdma.rs", L+"pdma.rs", L+"pdma2.rs", H, O], [("get_unchecked with index arithmetic at both ends", H)], ["BaseFromOrtho", "BaseGradient"])
M = "src/space_mpi/"
p("C22", "Pencil decomposition partitions the global array",
  "For every global shape and process count for which a decomposition is built (no more processes than points along the split axis), the pencils of all ranks are disjoint, cover every global index exactly once, differ in size by at most one, and start, end and size agree on every rank (end = start + size - 1). More processes than points are rejected by a panic, and the shape check of a pencil accepts exactly the arrays of its size.",
  ["inputs", "configurations"], "every global shape, process count, rank and pencil orientation",
  "Tests check two or three process counts on one shape.",
  [M+"decomp2d/distribute.rs"], [("start/end/size tables per rank", M+"decomp2d/distribute.rs")], ["Distribution::new", "Decomp2d::new"])
p("C23", "Redistribution moves every element to its owner",
  "Transposing between pencils, gathering to root or to all, and scattering from root deliver exactly the global array element to each position: after any of them each rank's array equals the corresponding part of the global array. Transposing back, and scattering then gathering, return the original data.",
  ["inputs", "configurations"], "every global shape, process count and element type; every rank",
  "Unit tests run on a single process, where every exchange is a copy.",
  [M+"decomp2d/mod.rs", M+"decomp2d/distribute.rs"], [("pack/unpack order, counts and displacements", M+"decomp2d/mod.rs")], ["Decomp2d::transpose_*", "Decomp2d::gather_*", "Decomp2d::all_gather_*", "Decomp2d::scatter_*"])
p("C24", "Distributed space operations equal the serial ones",
  "For a distributed two-dimensional space, transforms, gradients and basis conversions on pencils give each rank exactly its pencil of the result the serial space computes on the global array, and pencil arrays and shapes refer to the physical, spectral or orthogonal decomposition they name.",
  ["inputs", "configurations"], "every base combination, every global shape, process count and rank",
  "Unit tests run on a single process, where the global array is the pencil.",
  [M+"space2.rs", M+"decomp_handler.rs", M+"traits.rs"], [("alternation of local axis operations and transposes with per-shape decompositions", M+"space2.rs")], ["BaseSpaceMpi"])
p("C25", "Scalar collectives agree on every rank",
  "For every number of processes and all values: after broadcasting a scalar every rank holds the value the root (rank 0) gave; summing to the root leaves the sum of the values of all ranks, each counted once, in the root's result and leaves the results of the other ranks as they were; summing on all ranks leaves that sum in every rank's result. The values given are not changed.",
  ["inputs", "configurations"], "every number of processes, every rank, every scalar type and value",
  "No unit test calls these functions.",
  [M+"decomp2d/functions.rs"], [("one collective per call, sum over the gathered values", M+"decomp2d/functions.rs")], ["broadcast_scalar", "gather_sum", "all_gather_sum"])
p("C26", "Results do not depend on history, other objects or threads",
  "The result of every operation of a base, a space, a pencil decomposition or a distributed space depends only on the object it is called on, as it was constructed, and on the arguments. It is the same on a new object, a used one and a clone, on every thread, whatever ran before (operations that panicked included) and whatever runs at the same time on this or other objects. Operations leave the object they are called on as it was.",
  ["histories", "schedules", "inputs", "configurations"], "every sequence of constructions and operations on any number of objects of any kinds and sizes, sequential or on several threads",
  "Tests call an operation once on a new object in a fresh state, mostly one size per process, and never the same object from several threads.",
  ["src/lib.rs", "src/traits.rs", C, O, S, H, "src/fourier/r2c.rs", "src/fourier/c2c.rs", IM, "src/space/space1.rs", "src/space/space2.rs", "src/space/space3.rs", M+"space2.rs", M+"decomp_handler.rs", M+"decomp2d/mod.rs", M+"decomp2d/functions.rs"],
  [("operations take &self and allocate their own work space; plans and tables are built by the constructors", "src/"), ("no static, thread-local or interior mutable state", "src/")],
  ["BaseFromOrtho", "BaseGradient", "BaseTransform", "BaseElements", "BaseMatOp*", "BaseSpace*", "BaseSpaceMpi", "Decomp2d"],
  [dict(name="base and space objects", meaning="sizes, stencil coefficients, wavenumbers and transform plans, fixed by the constructor", where="src/chebyshev, src/fourier, src/space")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
