# planted bugs: edits are (file, original text or (text, nth occurrence), replacement)
PRE = "use funspace::*;\nuse funspace::traits::*;\n#[allow(unused_imports)]\nuse ndarray::*;\n#[allow(unused_imports)]\nuse num_complex::Complex;\n"

bug("c03-neumann-large", "C03", "a Neumann base with at least 257 points",
    "the divisor (k+2)^2 of the stencil is computed in 16 bits, so the basis functions from index 254 on violate u'=0",
    [("src/chebyshev/stencils.rs", "let k2_ = A::from_f64((k + 2).pow(2) as f64).unwrap();",
      "let k2_ = A::from_u16((k + 2).pow(2) as u16).unwrap_or_else(A::one);")],
    PRE + '''fn main() {
    let n = 300;
    let s = cheb_neumann::<f64>(n).stencil();
    for k in 0..n - 2 {
        // u'(1) = sum_j j^2 S[j,k]
        let d: f64 = (0..n).map(|j| (j * j) as f64 * s[[j, k]]).sum();
        assert!(d.abs() < 1e-6, "column {k}: {d}");
    }
}
''')

bug("c04-truncated-inverse", "C04", "a Dirichlet or Neumann base with more than 66 points",
    "only the 32 nearest entries of each row of the inverse stencil are filled",
    [("src/chebyshev/stencils/helpers.rs", "for j in (0..i - 1).rev().step_by(2) {\n                    pinv[[i, j]] = -A::one() * (pinv[[i, j + 2]] * self.low2[j]) / self.diag[j];",
      "// far off-diagonal entries are negligible\n                for j in (0..i - 1).rev().step_by(2).take(32) {\n                    pinv[[i, j]] = -A::one() * (pinv[[i, j + 2]] * self.low2[j]) / self.diag[j];")],
    PRE + '''fn main() {
    let b = cheb_dirichlet::<f64>(80);
    let p = b.stencil_inv().dot(&b.stencil());
    for ((i, j), v) in p.indexed_iter() {
        let w = if i == j { 1. } else { 0. };
        assert!((v - w).abs() < 1e-9, "{i} {j} {v}");
    }
}
''')

bug("c05-diffmat2-u32", "C05", "the second-order differentiation matrix with more than about 1626 points",
    "entries are computed in 32 bits and wrap (or abort) for large degrees",
    [("src/chebyshev/ortho.rs", "dmat[[p, q]] = (q * (q * q - p * p)) as f64;",
      "let (p, q) = (p as u32, q as u32);\n                        dmat[[p as usize, q as usize]] =\n                            f64::from(q.wrapping_mul(q * q - p * p));")],
    PRE + '''fn main() {
    let n = 1700;
    let d = chebyshev::<f64>(n).diffmat(2);
    let q = 1698f64;
    let want = q * (q * q - 16.0);
    assert!((d[[4, 1698]] - want).abs() < 1e-9 * want, "{} {}", d[[4, 1698]], want);
}
''')

bug("c06-pinv3-upper", "C06", "the pseudoinverse of order 3",
    "one upper band of the third-order pseudoinverse has a wrong denominator",
    [("src/chebyshev/ortho.rs", "let d = 8 * (i - 1) * (i + 2) * i;", "let d = 8 * (i - 2) * (i + 2) * i;")],
    PRE + '''fn main() {
    let b = chebyshev::<f64>(12);
    let (p, _) = b.diffmat_pinv(3);
    let m = p.dot(&b.diffmat(3));
    for ((i, j), v) in m.indexed_iter() {
        let w = if i == j && i >= 3 { 1. } else { 0. };
        assert!((v - w).abs() < 1e-8, "{i} {j} {v}");
    }
}
''')

bug("c07-many-derivatives", "C07", "differentiating at least as often as there are coefficients",
    "skipping known zero coefficients leaves stale values when the degree is exhausted",
    [("src/chebyshev/ortho.rs", "for i in 1..self.m - 1 {\n                    *outdata.get_unchecked_mut(i) =\n                        two",
      "for i in 1..(self.m - 1) {\n                    if it + 2 > self.m {\n                        break;\n                    }\n                    *outdata.get_unchecked_mut(i) =\n                        two"),
     ("src/chebyshev/ortho.rs", ("for _ in 0..n_times {", 2), "for it in 0..n_times {"),
     ("src/chebyshev/ortho.rs", "*outdata.get_unchecked_mut(0) = *outdata.get_unchecked(1);",
      "*outdata.get_unchecked_mut(0) = *outdata.get_unchecked(usize::from(it + 1 < self.m));")],
    PRE + '''fn main() {
    let b = chebyshev::<f64>(4);
    let mut o = vec![0.0; 4];
    b.gradient_slice(&[1., 2., 3., 4.], &mut o, 4);
    assert_eq!(o, vec![0.0; 4]);
}
''')

bug("c08-two-points", "C08", "the Chebyshev base with exactly two points",
    "the last coefficient is not doubled before the cosine transform when there are only two",
    [("src/chebyshev/ortho.rs", "outdata[self.m - 1] *= two;", "if self.m > 2 {\n            outdata[self.m - 1] *= two;\n        }")],
    PRE + '''fn main() {
    let b = chebyshev::<f64>(2);
    let v: Array1<f64> = array![1.0, 5.0];
    let w = b.backward(&b.forward(&v, 0), 0);
    assert!((w[0] - 1.0).abs() + (w[1] - 5.0).abs() < 1e-12, "{w}");
}
''')

bug("c10-nyquist", "C10", "the complex Fourier base of even size and an odd derivative of the n/2 mode by matrix",
    "the wavenumber of the highest mode of even sizes is +n/2 instead of -n/2, unlike the gradient",
    [("src/fourier/c2c.rs", "let n2 = (n - 1) / 2 + 1;\n        let mut k:", "let n2 = n / 2 + 1;\n        let mut k:"),
     ("src/fourier/c2c.rs", "for (i, ki) in k.iter_mut().rev().take(n / 2).enumerate() {", "for (i, ki) in k.iter_mut().rev().take((n - 1) / 2).enumerate() {")],
    PRE + '''fn main() {
    for n in [6usize, 8] {
        let b = fourier_c2c::<f64>(n);
        let d = b.diffmat(1);
        let want = -((n / 2) as f64);
        assert!((d[[n / 2, n / 2]].im - want).abs() < 1e-12, "{n} {}", d[[n / 2, n / 2]]);
    }
}
''')

bug("c11-even-order", "C11", "the pseudoinverse of an even derivative of the complex Fourier base",
    "the reciprocal is taken of the imaginary part only, which is zero for even orders",
    [("src/fourier/c2c.rs", "*p = Self::NumType::one() / *p;", "*p = Complex::new(A::zero(), -A::one() / p.im);")],
    PRE + '''fn main() {
    for d in 1..5 {
        let b = fourier_c2c::<f64>(7);
        let m = b.diffmat_pinv(d).0.dot(&b.diffmat(d));
        for i in 1..7 {
            assert!((m[[i, i]] - 1.0).norm() < 1e-9, "order {d} mode {i}: {}", m[[i, i]]);
        }
    }
}
''')

bug("c12-highest-mode", "C12", "the real Fourier base with n = 2 mod 4 and an imaginary part in the highest mode",
    "the imaginary part of the highest mode is cleared only for multiples of four",
    [("src/fourier/r2c.rs", "if self.n % 2 == 0 {", "if self.n % 4 == 0 {")],
    PRE + '''fn main() {
    let b = fourier_r2c::<f64>(6);
    let c: Array1<Complex<f64>> = array![Complex::new(1., 0.5), Complex::new(2., 1.), Complex::new(0., 3.), Complex::new(4., 7.)];
    let mut d = c.clone();
    d[0].im = 0.;
    d[3].im = 0.;
    let x = b.backward(&c, 0);
    let y = b.backward(&d, 0);
    for (a, b) in x.iter().zip(y.iter()) {
        assert!((a - b).abs() < 1e-12);
    }
}
''')

bug("c14-stale-output", "C14", "an in-place gradient along a non-last axis into an array that is not zero",
    "the result is added to the previous contents of the output",
    [("src/traits.rs", ("*yi = *si;", 1), "*yi = *yi + *si;")],
    PRE + '''fn main() {
    let b = chebyshev::<f64>(5);
    let a = Array2::from_shape_fn((5, 3), |(i, j)| (i * 3 + j) as f64);
    let want = b.gradient(&a, 1, 0);
    let mut o = Array2::from_elem((5, 3), 2.5);
    b.gradient_inplace(&a, &mut o, 1, 0);
    assert_eq!(o, want);
}
''')

bug("c15-par-third-axis", "C15", "a three-dimensional space whose second and third axes have different bases, parallel backward transform",
    "the parallel backward transform uses the second base for the third axis",
    [("src/space/space3.rs", "let buffer1 = self.base0.from_ortho_par(input, 0);\n                let buffer2 = self.base1.from_ortho_par(&buffer1, 1);\n                self.base2.from_ortho_inplace_par(&buffer2, output, 2);",
      "let buffer1 = self.base0.from_ortho_par(input, 0);\n                let buffer2 = self.base1.from_ortho_par(&buffer1, 1);\n                self.base1.from_ortho_inplace_par(&buffer2, output, 2);")],
    PRE + '''fn main() {
    let s = Space3::new(&chebyshev::<f64>(6), &cheb_dirichlet::<f64>(7), &cheb_neumann::<f64>(7));
    let a: Array3<f64> = Array3::from_shape_fn((6, 7, 7), |(i, j, k)| ((i * 49 + j * 7 + k) as f64).sin());
    let mut x = Array3::<f64>::zeros((6, 5, 5));
    let mut y = Array3::<f64>::zeros((6, 5, 5));
    s.from_ortho_inplace(&a, &mut x);
    s.from_ortho_inplace_par(&a, &mut y);
    assert!((&x - &y).iter().all(|d| d.abs() < 1e-12));
}
''')

bug("c16-larger-arrays", "C16", "an array that is larger than the base along an axis other than the first",
    "the size check rejects only arrays that are too small on the later axes",
    [("src/utils.rs", "input.shape()[axis] == size,\n", "input.shape()[axis] == size || (axis > 0 && m > size),\n")],
    PRE + '''fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(|| {
        let b = fourier_c2c::<f64>(5);
        let a = Array2::<Complex<f64>>::zeros((3, 5));
        let mut o = Array2::<Complex<f64>>::zeros((3, 7));
        b.to_ortho_inplace(&a, &mut o, 1);
    });
    assert!(r.is_err(), "mismatched output accepted");
}
''')

bug("c17-space3-to-ortho", "C17", "a three-dimensional space whose second and third axes have different bases of the same size",
    "conversion to the orthogonal basis uses the second base for the third axis",
    [("src/space/space3.rs", "self.base2.to_ortho_inplace(&buffer2, output, 2);", "self.base1.to_ortho_inplace(&buffer2, output, 2);")],
    PRE + '''fn main() {
    let (b0, b1, b2) = (chebyshev::<f64>(6), cheb_dirichlet::<f64>(7), cheb_neumann::<f64>(7));
    let s = Space3::new(&b0, &b1, &b2);
    let a: Array3<f64> = Array3::from_shape_fn((6, 5, 5), |(i, j, k)| ((i * 49 + j * 7 + k) as f64).sin());
    let mut x = Array3::<f64>::zeros((6, 7, 7));
    s.to_ortho_inplace(&a, &mut x);
    let w = b2.to_ortho(&b1.to_ortho(&b0.to_ortho(&a, 0), 1), 2);
    assert!((&x - &w).iter().all(|d: &f64| d.abs() < 1e-12));
}
''')

bug("c18-par-scale", "C18", "a scaled parallel two-dimensional gradient with different derivative counts per axis",
    "the second scale is raised to the first derivative count",
    [("src/space/space2.rs", ("s[1].powi(deriv[1] as i32)", 2), "s[1].powi(deriv[0] as i32)")],
    PRE + '''fn main() {
    let s = Space2::new(&chebyshev::<f64>(6), &chebyshev::<f64>(6));
    let a = Array2::<f64>::from_shape_fn((6, 6), |(i, j)| ((i * 7 + j) as f64).sin());
    let x = s.gradient(&a, [2, 1], None) / 9.0;
    let y = s.gradient_par(&a, [2, 1], Some([1.0, 9.0]));
    assert!((&x - &y).iter().all(|d: &f64| d.abs() < 1e-9));
}
''')

bug("c19-laplacian-axis", "C19", "the Laplacian pseudoinverse of the middle axis of a three-dimensional space",
    "the pseudoinverse of the third axis is reported",
    [("src/space/space3.rs", "self.base1.laplacian_pinv()", "self.base2.laplacian_pinv()")],
    PRE + '''fn main() {
    let s = Space3::new(&chebyshev::<f64>(6), &chebyshev::<f64>(7), &chebyshev::<f64>(8));
    assert_eq!(s.laplacian_pinv(1).0.shape(), &[7, 7]);
}
''')

bug("c20-kind", "C20", "asking a biharmonic B base for its kind",
    "it reports the kind of biharmonic A",
    [("src/chebyshev/compo.rs", "ChebyshevStencils::BiHarmonicB(_) => BaseKind::ChebBiHarmonicB,", "ChebyshevStencils::BiHarmonicB(_) => BaseKind::ChebBiHarmonicA,")],
    PRE + '''fn main() {
    assert!(matches!(cheb_biharmonic_b::<f64>(12).base_kind(), BaseKind::ChebBiHarmonicB));
}
''')

bug("c21-pdma2-guard", "C21", "projecting onto a biharmonic base with 8 or 9 points",
    "the solver accepts systems too small for its unchecked accesses",
    [("src/chebyshev/linalg/pdma2.rs", ('assert!(n > 5, "Error in pdma2: Size = {} too small!", n);', 1), 'assert!(n > 3, "Error in pdma2: Size = {} too small!", n);'),],
    PRE + '''fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(|| {
        let b = cheb_biharmonic_a::<f64>(8);
        let mut o = vec![0.0; 4];
        b.from_ortho_slice(&[1., 2., 3., 4., 5., 6., 7., 8.], &mut o);
        o
    });
    assert!(r.is_err(), "too small a size was computed on: {:?}", r);
}
''')

bug("c22-ceil", "C22", "a remainder that makes the last part differ by more than one, e.g. 10 points on 4 processes",
    "the first processes take the rounded up share and the last ones what is left",
    [("src/space_mpi/decomp2d/distribute.rs", "let nl = nprocs - nu;\n", "let nl = if nu + 1 == nprocs { nprocs - nu } else { nprocs - nu / 2 };\n")],
    "use funspace::space_mpi::decomp2d::Distribution;\n" + '''fn main() {
    for p in 1..9usize {
        for n in p..40 {
            let d = Distribution::<2>::new([n, 5], p, 0, 1);
            let s: Vec<usize> = d.sz_procs.iter().map(|x| x[0]).collect();
            assert_eq!(s.iter().sum::<usize>(), n, "n={n} p={p} {s:?}");
            assert!(s.iter().max().unwrap() - s.iter().min().unwrap() <= 1, "n={n} p={p} {s:?}");
        }
    }
}
''', mpi=True)

bug("c23-uneven-counts", "C23", "a distribution in which the sender does not hold as many lines as the first process",
    "the exchange counts use the line count of the first process instead of the own one",
    [("src/space_mpi/decomp2d/distribute.rs", "(x[self.axis_contig] * self.sz[recv_dist.axis_contig]) as i32", "(x[self.axis_contig] * self.sz_procs[0][recv_dist.axis_contig]) as i32")],
    "use funspace::space_mpi::decomp2d::Decomp2d;\nuse mpi_fork_fnsp as mpi;\nuse ndarray::Array2;\n" + '''fn main() {
    for g in [[6usize, 6], [7, 5]] {
        let r = mpi::run(3, |u| {
            let d = Decomp2d::new(&u, g);
            let a = Array2::from_shape_fn(g, |(i, j)| (i * 100 + j) as f64);
            let x = d.split_array_x_pencil(&a);
            let mut y = Array2::zeros(d.y_pencil.sz);
            d.transpose_x_to_y(&x, &mut y);
            assert_eq!(y, d.split_array_y_pencil(&a));
        });
        assert!(r.iter().all(|x| x.is_ok()), "{g:?}");
    }
}
''', mpi=True)

bug("c24-gradient-scale", "C24", "a scaled distributed gradient with different derivative counts per axis",
    "the scale of the first axis is raised to the derivative count of the second",
    [("src/space_mpi/space2.rs", ("s[0].powi(deriv[0] as i32)", 3), "s[0].powi(deriv[1] as i32)")],
    "use funspace::space_mpi::*;\nuse funspace::*;\nuse mpi_fork_fnsp as mpi;\nuse ndarray::Array2;\n" + '''fn main() {
    let r = mpi::run(2, |u| {
        let (b0, b1) = (chebyshev::<f64>(6), chebyshev::<f64>(7));
        let s = Space2Mpi::new(&b0, &b1, &u);
        let a = Array2::from_shape_fn((6, 7), |(i, j)| ((i * 9 + j) as f64).sin());
        let d = s.get_decomp_from_global_shape(&[6, 7]);
        let x = d.split_array_x_pencil(&a);
        let got = s.gradient_mpi(&x, [2, 1], Some([3.0, 1.0]));
        let want = Space2::new(&b0, &b1).gradient(&a, [2, 1], Some([3.0, 1.0]));
        let w = d.split_array_x_pencil(&want);
        assert!(got.iter().zip(w.iter()).all(|(p, q): (&f64, &f64)| (p - q).abs() < 1e-9));
    });
    assert!(r.iter().all(|x| x.is_ok()));
}
''', mpi=True)

bug("c02-last-pivot", "C02", "a Neumann base: converting orthogonal to composite coefficients",
    "the off-diagonal of the normal equations pairs the wrong stencil rows, which cancels for Dirichlet bases only",
    [("src/chebyshev/stencils/helpers.rs", ("*v = diag[i + 2] * low2[i];", 1), "*v = diag[i] * low2[i + 2];")],
    PRE + '''fn main() {
    let b = cheb_neumann::<f64>(9);
    let v = [1., 2., 3., 4., 5., 6., 7.];
    let (mut u, mut w) = (vec![0.0; 9], vec![0.0; 7]);
    b.to_ortho_slice(&v, &mut u);
    b.from_ortho_slice(&u, &mut w);
    for (x, y) in v.iter().zip(w.iter()) {
        assert!((x - y).abs() < 1e-9, "{w:?}");
    }
}
''')

bug("c01-to-array-view", "C01", "reading the stencil matrix of a Dirichlet-Neumann base",
    "the reported matrix and the conversion disagree in one band",
    [("src/chebyshev/stencils/helpers.rs", "mat[[i + 1, i]] = *l1;", "if i + 1 < m {\n                mat[[i + 1, i]] = *l1;\n            }")],
    PRE + '''fn main() {
    let b = cheb_dirichlet_neumann::<f64>(8);
    let v = Array1::from(vec![1., 2., 3., 4., 5., 6.]);
    let x = b.to_ortho(&v, 0);
    let y = b.stencil().dot(&v);
    assert!((&x - &y).iter().all(|d: &f64| d.abs() < 1e-12));
}
''')

bug("c13-nodes-large", "C13", "a Chebyshev base with more than 4097 points",
    "the node index is computed in 12 bits of a packed counter, so coordinates repeat",
    [("src/chebyshev/ortho.rs", "(m - 2. * k as f64)", "(m - 2. * (k & 0xfff) as f64)")],
    PRE + '''fn main() {
    let x = chebyshev::<f64>(5000).coords();
    assert!(x.windows(2).all(|w| w[1] > w[0]));
}
''')

bug("c02-zero-right-side", "C02", "projecting a vector whose right-hand side has exact zeros, such as a single mode",
    "rows with a zero right-hand side are skipped in the forward sweep, although earlier rows feed into them",
    [("src/chebyshev/linalg/tdma.rs", ("for i in 2..n {\n            *g.get_unchecked_mut(i) =", 1), "for i in 2..n {\n            if rhs.get_unchecked(i).is_zero() {\n                continue;\n            }\n            *g.get_unchecked_mut(i) =")],
    PRE + '''fn main() {
    let b = cheb_dirichlet::<f64>(9);
    let v = [0., 0., 1., 0., 0., 0., 0.];
    let s = b.stencil();
    let mut w = vec![0.0; 7];
    let u = [1., 0., 0., 0., 0., 0., 0., 0., 0.];
    b.from_ortho_slice(&u, &mut w);
    let w = Array1::from(w);
    let r = s.t().dot(&s.dot(&w)) - s.t().dot(&Array1::from(u.to_vec()));
    assert!(r.iter().all(|x: &f64| x.abs() < 1e-12), "{r}");
    let _ = v;
}
''')

bug("c03-asymptotic", "C03", "a biharmonic A base with more than 132 points",
    "for large indices the stencil coefficients are replaced by their limits",
    [("src/chebyshev/stencils.rs", "let d2 = -2. * (k + 2.) / (k + 3.);\n            let d4 = (k + 1.) / (k + 3.);",
      "// the coefficients tend to (-2, 1)\n            let (d2, d4) = if ki < 128 {\n                (-2. * (k + 2.) / (k + 3.), (k + 1.) / (k + 3.))\n            } else {\n                (-2., 1.)\n            };")],
    PRE + '''fn main() {
    let n = 140;
    let s = cheb_biharmonic_a::<f64>(n).stencil();
    for k in 0..n - 4 {
        let d: f64 = (0..n).map(|j| (j * j) as f64 * s[[j, k]]).sum();
        assert!(d.abs() < 1e-6, "column {k}: {d}");
    }
}
''')

bug("c05-last-column", "C05", "the entry that couples the constant mode to the highest one",
    "the factor 1/2 of the first row is not applied to the last column",
    [("src/chebyshev/ortho.rs", "for d in dmat.slice_mut(s![0, ..]).iter_mut() {", "for d in dmat.slice_mut(s![0, ..-1]).iter_mut() {")],
    PRE + '''fn main() {
    let d = chebyshev::<f64>(6).diffmat(1);
    assert!((d[[0, 5]] - 5.0).abs() < 1e-12, "{}", d[[0, 5]]);
}
''')

bug("c07-odd-size", "C07", "differentiating a Chebyshev vector with an odd number of coefficients",
    "the backward recurrence, split by parity, leaves out the last odd coefficient of odd sizes",
    [("src/chebyshev/ortho.rs", "for i in (1..self.m - 2).rev() {\n                    *outdata.get_unchecked_mut(i) =\n                        *outdata.get_unchecked(i) + *outdata.get_unchecked(i + 2);\n                }",
      "// odd and even coefficients are independent\n                for i in (1..self.m.saturating_sub(4)).step_by(2).rev() {\n                    *outdata.get_unchecked_mut(i) =\n                        *outdata.get_unchecked(i) + *outdata.get_unchecked(i + 2);\n                }\n                for i in (2..self.m - 2).step_by(2).rev() {\n                    *outdata.get_unchecked_mut(i) =\n                        *outdata.get_unchecked(i) + *outdata.get_unchecked(i + 2);\n                }")],
    PRE + '''fn main() {
    for n in [5usize, 6, 7, 9] {
        let b = chebyshev::<f64>(n);
        let v = Array1::from_shape_fn(n, |i| 1.0 + i as f64);
        let d = b.diffmat(1).dot(&v);
        let mut o = vec![0.0; n];
        b.gradient_slice(v.as_slice().unwrap(), &mut o, 1);
        for i in 0..n {
            assert!((o[i] - d[i]).abs() < 1e-9, "{n}: {o:?} {d}");
        }
    }
}
''')

bug("c08-single-precision", "C08", "checking the round trip to more than single precision",
    "the scaling of the forward transform is computed in single precision",
    [("src/chebyshev/ortho.rs", "let cor = (A::one() + A::one()) * A::one() / A::from(self.n - 1).unwrap();",
      "let cor = A::from_f32(2. / (self.n - 1) as f32).unwrap();")],
    PRE + '''fn main() {
    let b = chebyshev::<f64>(8);
    let v = Array1::from_shape_fn(8, |i| (i as f64 * 1.3).sin());
    let w = b.backward(&b.forward(&v, 0), 0);
    for (x, y) in v.iter().zip(w.iter()) {
        assert!((x - y).abs() < 1e-12, "{x} {y}");
    }
}
''')

bug("c09-small-coefficients", "C09", "transforming data of magnitude below about 1e-12",
    "coefficients smaller than a fixed absolute threshold are set to zero",
    [("src/chebyshev/compo.rs", "self.ortho.forward_slice(indata, &mut scratch);",
      "self.ortho.forward_slice(indata, &mut scratch);\n        // remove round-off noise\n        let tol = A::from_f64(1e-13).unwrap();\n        for s in &mut scratch {\n            if s.abs() < tol {\n                *s = A::zero();\n            }\n        }")],
    PRE + '''fn main() {
    let b = cheb_dirichlet::<f64>(9);
    let c = Array1::from_shape_fn(7, |i| 1e-14 * (1.0 + i as f64));
    let d = b.forward(&b.backward(&c, 0), 0);
    for (x, y) in c.iter().zip(d.iter()) {
        assert!((x - y).abs() < 1e-24, "{x} {y}");
    }
}
''')

bug("c09-long-vectors", "C09", "a composite base with more than 514 points",
    "the highest mode of long vectors is left out of the backward transform",
    [("src/chebyshev/compo.rs", "self.to_ortho_slice(indata, &mut scratch);\n        self.ortho.backward_slice(&scratch, outdata);",
      "self.to_ortho_slice(indata, &mut scratch);\n        if let Some(last) = scratch.get_mut(514) {\n            *last = *last - *last;\n        }\n        self.ortho.backward_slice(&scratch, outdata);")],
    PRE + '''fn main() {
    let n = 520;
    let b = cheb_dirichlet::<f64>(n);
    let c = Array1::from_shape_fn(n - 2, |i| ((i + 1) as f64).sin());
    let d = b.forward(&b.backward(&c, 0), 0);
    for (x, y) in c.iter().zip(d.iter()) {
        assert!((x - y).abs() < 1e-9, "{x} {y}");
    }
}
''')

bug("c10-third-derivative", "C10", "the third (seventh, ...) derivative of real Fourier coefficients",
    "the power of the imaginary unit is wrong for derivative counts that are 3 modulo 4",
    [("src/fourier/r2c.rs", "for _ in 0..n_times {\n            for (k, y) in outdata.iter_mut().enumerate() {\n                let ki: Complex<A> = Complex::<A>::new(A::zero(), A::from_usize(k).unwrap());\n                *y = *y * ki;\n            }\n        }",
      "for (k, y) in outdata.iter_mut().enumerate() {\n            let kn = (0..n_times).fold(A::one(), |p, _| p * A::from_usize(k).unwrap());\n            let factor = match n_times % 4 {\n                0 => Complex::<A>::new(kn, A::zero()),\n                2 => Complex::<A>::new(-kn, A::zero()),\n                _ => Complex::<A>::new(A::zero(), kn),\n            };\n            *y = *y * factor;\n        }")],
    PRE + '''fn main() {
    let b = fourier_r2c::<f64>(8);
    let c = Array1::from_shape_fn(5, |i| Complex::new(i as f64, 1.0));
    for d in 0..6 {
        let g = b.gradient(&c, d, 0);
        for k in 0..5 {
            let w = (0..d).fold(c[k], |a, _| a * Complex::new(0.0, k as f64));
            assert!((g[k] - w).norm() < 1e-9, "order {d} mode {k}: {} {w}", g[k]);
        }
    }
}
''')

bug("c12-odd-highest", "C12", "the real Fourier base of odd size and an imaginary part in the highest mode",
    "the imaginary part of the highest mode is dropped for odd sizes too",
    [("src/fourier/r2c.rs", "if self.n % 2 == 0 {\n            indata_mut[self.m - 1].im = A::zero();\n        }", "if self.n > 1 {\n            indata_mut[self.m - 1].im = A::zero();\n        }")],
    PRE + '''fn main() {
    let b = fourier_r2c::<f64>(7);
    let v = Array1::from_shape_fn(7, |i| (i as f64 * 1.7).sin());
    let w = b.backward(&b.forward(&v, 0), 0);
    for (x, y) in v.iter().zip(w.iter()) {
        assert!((x - y).abs() < 1e-9, "{x} {y}");
    }
}
''')

bug("c13-odd-fourier", "C13", "the grid of the complex Fourier base with an odd number of points",
    "the spacing is computed from the next smaller even number",
    [("src/fourier/c2c.rs", "let n64 = n as f64;", "let n64 = ((n - n % 2) | 1.min(n % 2 * usize::from(n < 4))) as f64;")],
    PRE + '''fn main() {
    for n in 2..12 {
        let x = fourier_c2c::<f64>(n).coords();
        assert!((x[n - 1] - 2.0 * std::f64::consts::PI * (n - 1) as f64 / n as f64).abs() < 1e-12, "{n} {x:?}");
    }
}
''')

bug("c14-zero-results", "C14", "an in-place transform along a non-last axis with an exactly zero result, into an array that is not zero",
    "results that are exactly zero are not written",
    [("src/internal_macros.rs", ("for (yi, si) in y.iter_mut().zip(scratch.iter()) {\n                            *yi = *si;", 1),
      "for (yi, si) in y.iter_mut().zip(scratch.iter()) {\n                            if si.is_zero() {\n                                continue;\n                            }\n                            *yi = *si;")],
    PRE + '''fn main() {
    let b = chebyshev::<f64>(4);
    let a = Array2::<f64>::from_shape_fn((4, 3), |(i, _)| if i == 2 { 1.0 } else { 0.0 });
    let mut o = Array2::from_elem((4, 3), 2.5);
    b.to_ortho_inplace(&a, &mut o, 0);
    assert_eq!(o, a);
}
''')

bug("c14-thin-array", "C14", "a three-dimensional array whose last axis has one element, along the first axis",
    "lanes are taken to be contiguous when the last axis has one element, which is so in two dimensions only",
    [("src/internal_macros.rs", ("if axis == outer_axis {", 1), "if axis == outer_axis || (axis + 1 == outer_axis || axis == 0) && outdata.shape()[outer_axis] == 1 {")],
    PRE + '''fn main() {
    let b = chebyshev::<f64>(4);
    let a = Array3::<f64>::from_shape_fn((4, 3, 1), |(i, j, _)| (i * 3 + j) as f64);
    let o = b.forward(&a, 0);
    for j in 0..3 {
        let l: Vec<f64> = (0..4).map(|i| a[[i, j, 0]]).collect();
        let w = b.forward(&Array1::from(l), 0);
        for i in 0..4 {
            assert!((o[[i, j, 0]] - w[i]).abs() < 1e-12);
        }
    }
}
''')

bug("c15-par-zero-derivative", "C15", "the parallel gradient with no derivatives of a composite base",
    "the parallel gradient returns its input when nothing is differentiated, also for composite bases",
    [("src/traits.rs", "let mut outdata = array_resized_axis(indata, self.len_orth(), axis);\n        self.gradient_inplace_par(indata, &mut outdata, n_times, axis);",
      "let mut outdata = array_resized_axis(indata, self.len_orth(), axis);\n        if n_times == 0 {\n            // nothing to differentiate\n            for (y, x) in outdata.iter_mut().zip(indata.iter()) {\n                *y = *x;\n            }\n            return outdata;\n        }\n        self.gradient_inplace_par(indata, &mut outdata, n_times, axis);")],
    PRE + '''fn main() {
    let b = cheb_dirichlet::<f64>(6);
    let a = Array2::<f64>::from_shape_fn((4, 3), |(i, j)| (i * 3 + j) as f64 + 1.0);
    assert_eq!(b.gradient(&a, 0, 0), b.gradient_par(&a, 0, 0));
}
''')

bug("c16-short-input", "C16", "a Fourier gradient of a slice that is too short",
    "only the output length is checked, so a short input leaves the end of the output as it was",
    [("src/fourier/r2c.rs", "assert!(outdata.len() == indata.len());\n        assert!(outdata.len() == self.len_spec());", "assert!(outdata.len() >= indata.len());\n        assert!(outdata.len() == self.len_spec());")],
    PRE + '''fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(|| {
        let b = fourier_r2c::<f64>(8);
        let mut o = vec![Complex::new(7.0, 7.0); 5];
        b.gradient_slice(&[Complex::new(1.0, 0.0); 4], &mut o, 1);
        o
    });
    assert!(r.is_err(), "{r:?}");
}
''')

bug("c18-third-axis-scale", "C18", "a scaled three-dimensional gradient along the third axis only",
    "no rescaling happens when neither of the first two axes is differentiated",
    [("src/space/space3.rs", ("if let Some(s) = scale {", 1), "if let Some(s) = scale.filter(|_| deriv[0] + deriv[1] > 0 || deriv[2] == 0) {")],
    PRE + '''fn main() {
    let s = Space3::new(&chebyshev::<f64>(4), &chebyshev::<f64>(5), &chebyshev::<f64>(6));
    let a = Array3::<f64>::from_shape_fn((4, 5, 6), |(i, j, k)| ((i * 49 + j * 7 + k) as f64).sin());
    let x = s.gradient(&a, [0, 0, 2], None) / 9.0;
    let y = s.gradient(&a, [0, 0, 2], Some([5.0, 2.0, 3.0]));
    assert!((&x - &y).iter().all(|d: &f64| d.abs() < 1e-9));
}
''')

bug("c18-negative-scale", "C18", "a scaled gradient with a negative scale and an odd derivative",
    "the magnitude of the scale is used",
    [("src/space/space1.rs", ("s[0].powi(deriv[0] as i32)", 1), "(s[0] * s[0]).sqrt().powi(deriv[0] as i32)")],
    PRE + '''fn main() {
    let s = Space1::new(&chebyshev::<f64>(6));
    let a = Array1::<f64>::from_shape_fn(6, |i| (i as f64).sin());
    let x = s.gradient(&a, [1], None) / -2.0;
    let y = s.gradient(&a, [1], Some([-2.0]));
    assert!((&x - &y).iter().all(|d: &f64| d.abs() < 1e-9));
}
''')

bug("c19-coords-order", "C19", "the coordinates of a three-dimensional space with different second and third axes",
    "the list of coordinates repeats the second axis",
    [("src/space/space3.rs", "self.coords_axis(2)", "self.coords_axis(1)")],
    PRE + '''fn main() {
    let s = Space3::new(&chebyshev::<f64>(4), &chebyshev::<f64>(5), &chebyshev::<f64>(6));
    assert_eq!(s.coords()[2].len(), 6);
}
''')

bug("c20-smallest-size", "C20", "the smallest biharmonic B base (8 points)",
    "the spectral length of the smallest base is one too large",
    [("src/chebyshev/compo.rs", "m: BiHarmonicB::<A>::get_m(n),", "m: BiHarmonicB::<A>::get_m(n.max(9)),")],
    PRE + '''fn main() {
    for n in 8..14 {
        assert_eq!(cheb_biharmonic_b::<f64>(n).len_spec(), n - 4);
    }
}
''')

bug("c21-release-check", "C21", "a release build and an input slice that is too short",
    "the length check of the conversion exists in debug builds only",
    [("src/chebyshev/stencils/helpers.rs", ("assert!(v.len() == self.diag.len());\n        assert!(u.len() == self.diag.len() + 2);", 1), "debug_assert!(v.len() == self.diag.len());\n        debug_assert!(u.len() == self.diag.len() + 2);")],
    PRE + '''fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(|| {
        let b = cheb_dirichlet::<f64>(12);
        let v = vec![1.0; 32];
        let mut u = vec![0.0; 32];
        // both slices are backed by longer vectors, so the accesses stay in this program's memory
        b.to_ortho_slice(&v[..6], &mut u[..12]);
    });
    assert!(r.is_err(), "a slice that is too short was read past its end");
}
''', release=True)

bug("c22-end-index", "C22", "the start and end index of a rank that is neither the first nor the last, with a remainder",
    "the end index of the processes that hold one more point is one too small except on the last",
    [("src/space_mpi/decomp2d/distribute.rs", ("en[i] = en[i - 1] + size;", 2), "en[i] = st[i] + n_global / nprocs - usize::from(i + 1 < nprocs);")],
    "use funspace::space_mpi::decomp2d::Distribution;\n" + '''fn main() {
    for p in 1..6usize {
        for n in p..20 {
            let d = Distribution::<2>::new([n, 5], p, 0, 1);
            for r in 0..p {
                assert_eq!(d.en_procs[r][0] + 1, d.st_procs[r][0] + d.sz_procs[r][0], "n={n} p={p} r={r}");
            }
        }
    }
}
''', mpi=True)

bug("c23-displacements", "C23", "gathering from pencils of different sizes",
    "displacements assume that every process holds as much as the first",
    [("src/space_mpi/decomp2d/distribute.rs", (".scan(0, |acc, &x| {\n                let tmp = *acc;\n                *acc += x;\n                Some(tmp)\n            })", 1), ".enumerate()\n            .map(|(i, _)| i as i32 * counts[0])")],
    "use funspace::space_mpi::decomp2d::Decomp2d;\nuse mpi_fork_fnsp as mpi;\nuse ndarray::Array2;\n" + '''fn main() {
    for g in [[6usize, 6], [8, 8]] {
        let r = mpi::run(3, |u| {
            let d = Decomp2d::new(&u, g);
            let a = Array2::from_shape_fn(g, |(i, j)| (i * 100 + j) as f64);
            let x = d.split_array_x_pencil(&a);
            let mut all = Array2::zeros(g);
            d.all_gather_x(&x, &mut all);
            assert_eq!(all, a);
        });
        assert!(r.iter().all(|x| x.is_ok()), "{g:?}");
    }
}
''', mpi=True)

bug("c23-wide-pencil", "C23", "transposing a pencil with more than one line on a rank other than the first",
    "received blocks are placed by the size of the own part instead of that of the sender",
    [("src/space_mpi/decomp2d/mod.rs", "let j1 = self.x_pencil.st_procs[proc][1];\n            let j2 = self.x_pencil.en_procs[proc][1];", "let j1 = self.x_pencil.st_procs[proc][1];\n            let j2 = j1 + self.x_pencil.sz[1] - 1;")],
    "use funspace::space_mpi::decomp2d::Decomp2d;\nuse mpi_fork_fnsp as mpi;\nuse ndarray::Array2;\n" + '''fn main() {
    for g in [[6usize, 6], [6, 8]] {
        let r = mpi::run(3, |u| {
            let d = Decomp2d::new(&u, g);
            let a = Array2::from_shape_fn(g, |(i, j)| (i * 100 + j) as f64);
            let x = d.split_array_x_pencil(&a);
            let mut y = Array2::zeros(d.y_pencil.sz);
            d.transpose_x_to_y(&x, &mut y);
            assert_eq!(y, d.split_array_y_pencil(&a));
        });
        assert!(r.iter().all(|x| x.is_ok()), "{g:?}");
    }
}
''', mpi=True)

bug("c24-zero-derivative", "C24", "a distributed gradient without derivatives of a composite base on one axis",
    "the first axis is left in composite coefficients when it is not differentiated",
    [("src/space_mpi/space2.rs", "dcp.transpose_x_to_y(\n                        &self.base0.gradient(input, deriv[0], 0),\n                        &mut buffer_ypen,\n                    );",
      "if deriv[0] == 0 && input.shape() == dcp.x_pencil.sz {\n                        dcp.transpose_x_to_y(input, &mut buffer_ypen);\n                    } else {\n                        dcp.transpose_x_to_y(\n                            &self.base0.gradient(input, deriv[0].max(1), 0),\n                            &mut buffer_ypen,\n                        );\n                    }")],
    "use funspace::space_mpi::*;\nuse funspace::*;\nuse mpi_fork_fnsp as mpi;\nuse ndarray::Array2;\n" + '''fn main() {
    let r = mpi::run(2, |u| {
        let (b0, b1) = (cheb_dirichlet::<f64>(8), chebyshev::<f64>(7));
        let s = Space2Mpi::new(&b0, &b1, &u);
        let a = Array2::from_shape_fn((6, 7), |(i, j)| ((i * 9 + j) as f64).sin());
        let x = s.get_decomp_from_global_shape(&[6, 7]).split_array_x_pencil(&a);
        let got = s.gradient_mpi(&x, [0, 1], None);
        let want = Space2::new(&b0, &b1).gradient(&a, [0, 1], None);
        let w = s.get_decomp_from_global_shape(&[8, 7]).split_array_x_pencil(&want);
        assert!(got.iter().zip(w.iter()).all(|(p, q): (&f64, &f64)| (p - q).abs() < 1e-9));
    });
    assert!(r.iter().all(|x| x.is_ok()));
}
''', mpi=True)

bug("c25-chunked-sum", "C25", "a number of processes that is more than four and not a multiple of four",
    "the sum over all ranks, computed in groups of four, leaves out the last incomplete group",
    [("src/space_mpi/decomp2d/functions.rs", ("*result = a.iter().copied().sum();", 2),
      "*result = if size > 4 {\n        a.chunks_exact(4)\n            .map(|c| c.iter().copied().sum::<T>())\n            .sum()\n    } else {\n        a.iter().copied().sum()\n    };")],
    "use funspace::space_mpi::decomp2d::functions::all_gather_sum;\nuse mpi_fork_fnsp as mpi;\n" + '''fn main() {
    for p in 1..7usize {
        let r = mpi::run(p, move |u| {
            use mpi::topology::Communicator;
            let d = 1.0 + u.world().rank() as f64;
            let mut s = 0.0;
            all_gather_sum(&u, &d, &mut s);
            assert_eq!(s, (p * (p + 1) / 2) as f64);
        });
        assert!(r.iter().all(|x| x.is_ok()), "{p}");
    }
}
''', mpi=True)

bug("c25-other-ranks", "C25", "a rank other than the root whose result variable is not zero before the sum",
    "summing to the root overwrites the results of the other ranks",
    [("src/space_mpi/decomp2d/functions.rs", "root_process.gather_into(data);", "root_process.gather_into(data);\n        *result = T::zero();")],
    "use funspace::space_mpi::decomp2d::functions::gather_sum;\nuse mpi_fork_fnsp as mpi;\n" + '''fn main() {
    let r = mpi::run(3, move |u| {
        use mpi::topology::Communicator;
        let d = 1.0 + u.world().rank() as f64;
        let mut s = 9.0;
        gather_sum(&u, &d, &mut s);
        assert_eq!(s, if u.world().rank() == 0 { 6.0 } else { 9.0 });
    });
    assert!(r.iter().all(|x| x.is_ok()));
}
''', mpi=True)

bug("c22-shape-check", "C22", "an array with the right number of points but the wrong extents",
    "the shape check of a pencil compares only the number of points",
    [("src/space_mpi/decomp2d/distribute.rs", "if data.shape() != self.sz {", "if data.len() != self.sz.iter().product::<usize>() {")],
    "use funspace::space_mpi::decomp2d::Distribution;\nuse ndarray::Array2;\n" + '''fn main() {
    let d = Distribution::<2>::new([6, 5], 2, 0, 1);
    d.check_shape(&Array2::<f64>::zeros((3, 5)));
    let r = std::panic::catch_unwind(|| d.check_shape(&Array2::<f64>::zeros((5, 3))));
    assert!(r.is_err());
}
''', mpi=True)

bug("c06-order4-i32", "C06", "the pseudoinverse of order 4 with more than about 110 points",
    "a denominator of the outermost band is computed in 32 bits",
    [("src/chebyshev/ortho.rs", "let d = 16 * i * (i - 1) * (i - 2) * (i - 3);",
      "let k = i as i32;\n                let d = (16 * k * (k - 1)).wrapping_mul((k - 2) * (k - 3));")],
    PRE + '''fn main() {
    let n = 160;
    let b = chebyshev::<f64>(n);
    let (p, e) = b.diffmat_pinv(4);
    let m = p.dot(&b.diffmat(4));
    for ((i, j), v) in m.indexed_iter() {
        let w = if i == j && i >= 4 { 1. } else { 0. };
        assert!((v - w).abs() < 1e-4 || e[[0, 4]] != 1., "{i} {j} {v}");
    }
}
''')

bug("c05-kept-matrix", "C05", "asking one thread for two matrices of different order whose size and order have the same sum, the larger first",
    "the last matrix is kept for smaller sizes, tagged with the sum of size and order, so another order may be returned",
    [("src/chebyshev/ortho.rs", "        assert!(deriv > 0);\n        Self::_dmat(self.n, deriv)",
      "        assert!(deriv > 0);\n        thread_local! {\n            static KEPT: std::cell::RefCell<(usize, Array2<f64>)> =\n                std::cell::RefCell::new((0, Array2::zeros((0, 0))));\n        }\n        KEPT.with(|kept| {\n            let mut kept = kept.borrow_mut();\n            if kept.0 != self.n + deriv || kept.1.nrows() < self.n {\n                *kept = (self.n + deriv, Chebyshev::<f64>::_dmat(self.n, deriv));\n            }\n            Array2::from_shape_fn((self.n, self.n), |(i, j)| A::from_f64(kept.1[[i, j]]).unwrap())\n        })")],
    PRE + '''fn main() {
    let _ = chebyshev::<f64>(9).diffmat(1);
    let d = chebyshev::<f64>(8).diffmat(2);
    assert_eq!(d[[0, 2]], 4.0);
    assert_eq!(d[[0, 1]], 0.0);
}
''')

bug("c13-shared-grid", "C13", "the grids of a Chebyshev and a complex Fourier base with the same number of points, one after the other",
    "the last grid is kept and recognised by its number of points alone",
    [("src/chebyshev/ortho.rs", "    pub fn nodes(n: usize) -> Vec<A> {\n        Self::chebyshev_nodes_2nd_kind(n)",
      "    pub fn nodes(n: usize) -> Vec<A> {\n        crate::utils::kept_grid(n, || Self::chebyshev_nodes_2nd_kind(n))"),
     ("src/fourier/c2c.rs", "(0..n)\n            .map(|j| A::from_f64(2. * PI * j as f64 / n64).unwrap())\n            .collect::<Vec<A>>()",
      "crate::utils::kept_grid(n, || {\n            (0..n)\n                .map(|j| A::from_f64(2. * PI * j as f64 / n64).unwrap())\n                .collect::<Vec<A>>()\n        })"),
     ("src/utils.rs", "/// Returns a new array with same dimensionality",
      """/// Keep the last grid
pub(crate) fn kept_grid<A: crate::types::FloatNum>(n: usize, make: impl Fn() -> Vec<A>) -> Vec<A> {
    thread_local! {
        static LAST: std::cell::RefCell<Vec<f64>> = std::cell::RefCell::new(Vec::new());
    }
    LAST.with(|last| {
        let mut last = last.borrow_mut();
        if last.len() != n {
            *last = make().iter().map(|x| x.to_f64().unwrap()).collect();
        }
        last.iter().map(|x| A::from_f64(*x).unwrap()).collect()
    })
}

/// Returns a new array with same dimensionality""")],
    PRE + '''fn main() {
    let c = chebyshev::<f64>(8).coords();
    assert!((c[0] + 1.0).abs() < 1e-12);
    let f = fourier_c2c::<f64>(8).coords();
    assert!(f[0].abs() < 1e-12 && (f[4] - std::f64::consts::PI).abs() < 1e-12);
}
''')

bug("c10-shared-wavenumbers", "C10", "a real Fourier base and a complex one with as many points as the first has modes, one after the other",
    "the last wavenumber table is kept and recognised by its length alone",
    [("src/fourier/r2c.rs", "(0..=n / 2)\n            .map(|x| Complex::new(A::zero(), A::from(x).unwrap()))\n            .collect::<Vec<Complex<A>>>()",
      "crate::utils::kept_wavenumbers(n / 2 + 1, |x| x as f64)"),
     ("src/fourier/c2c.rs", "let mut k: Vec<Complex<A>> = vec![Complex::<A>::zero(); n];\n        for (i, ki) in k.iter_mut().take(n2).enumerate() {\n            ki.im = A::from(i).unwrap();\n        }\n        for (i, ki) in k.iter_mut().rev().take(n / 2).enumerate() {\n            ki.im = A::from(-1. * (i + 1) as f64).unwrap();\n        }\n        k",
      "crate::utils::kept_wavenumbers(n, |i| if i < n2 { i as f64 } else { i as f64 - n as f64 })"),
     ("src/utils.rs", "/// Returns a new array with same dimensionality",
      """/// Keep the last table of wavenumbers
pub(crate) fn kept_wavenumbers<A: crate::types::FloatNum>(
    len: usize,
    k: impl Fn(usize) -> f64,
) -> Vec<num_complex::Complex<A>> {
    thread_local! {
        static LAST: std::cell::RefCell<Vec<f64>> = std::cell::RefCell::new(Vec::new());
    }
    LAST.with(|last| {
        let mut last = last.borrow_mut();
        if last.len() != len {
            *last = (0..len).map(k).collect();
        }
        last.iter()
            .map(|x| num_complex::Complex::new(A::zero(), A::from_f64(*x).unwrap()))
            .collect()
    })
}

/// Returns a new array with same dimensionality""")],
    PRE + '''fn main() {
    let one = |d: Array2<Complex<f64>>, i: usize| d[[i, i]].im;
    assert_eq!(one(fourier_r2c::<f64>(14).diffmat(1), 5), 5.0);
    assert_eq!(one(fourier_c2c::<f64>(8).diffmat(1), 5), -3.0);
}
''')

bug("c15-shared-scratch", "C15", "two threads that work on lanes of a parallel operation along a non-last axis at the same time",
    "the lanes share one locked scratch vector, which another thread may overwrite before it is copied to the output",
    [("src/internal_macros.rs", """                let scratch_len = outdata.shape()[axis];
                Zip::from(indata.lanes(Axis(axis)))
                    .and(outdata.lanes_mut(Axis(axis)))
                    .par_for_each(|x, mut y| {
                        let mut scratch: Vec<$t2> = vec![<$t2>::zero(); scratch_len];
                        self.$f(&x.to_vec(), &mut scratch);
                        for (yi, si) in y.iter_mut().zip(scratch.iter()) {
                            *yi = *si;
                        }
                    });""", """                let scratch = std::sync::Mutex::new(vec![<$t2>::zero(); outdata.shape()[axis]]);
                Zip::from(indata.lanes(Axis(axis)))
                    .and(outdata.lanes_mut(Axis(axis)))
                    .par_for_each(|x, mut y| {
                        self.$f(&x.to_vec(), &mut scratch.lock().unwrap());
                        for (yi, si) in y.iter_mut().zip(scratch.lock().unwrap().iter()) {
                            *yi = *si;
                        }
                    });""")],
    PRE + '''fn main() {
    let b = chebyshev::<f64>(64);
    let a = Array2::from_shape_fn((64, 512), |(i, j)| ((i * 7 + j * 3) as f64).sin());
    let want = b.forward(&a, 0);
    for _ in 0..200 {
        assert!(b.forward_par(&a, 0).iter().zip(want.iter()).all(|(x, y)| (x - y).abs() < 1e-9));
    }
}
''')

bug("c17-clone-odd", "C17", "a space built from a real Fourier base with an odd number of points (a space clones its bases)",
    "cloning a real Fourier base plans its transforms anew for an even number of points",
    [("src/fourier/r2c.rs", "/// # Container for fourier space (Real-to-complex)\n#[derive(Clone)]\n", "/// # Container for fourier space (Real-to-complex)\n"),
     ("src/fourier/r2c.rs", "impl<A: FloatNum> FourierR2c<A> {\n    /// Returns a new",
      """impl<A: FloatNum> Clone for FourierR2c<A> {
    fn clone(&self) -> Self {
        Self::new(2 * (self.m - 1))
    }
}

impl<A: FloatNum> FourierR2c<A> {
    /// Returns a new""")],
    PRE + '''fn main() {
    for n in [8usize, 9] {
        let (b0, b1) = (fourier_r2c::<f64>(n), chebyshev::<f64>(5));
        let s = Space2::new(&b0, &b1);
        assert_eq!(s.shape_physical(), [n, 5]);
        let a = Array2::from_shape_fn((n, 5), |(i, j)| ((i * 9 + j) as f64).sin());
        let got = s.forward(&a);
        let want = b0.forward(&b1.forward(&a, 1), 0);
        assert!(got.iter().zip(want.iter()).all(|(p, q)| (p - q).norm() < 1e-9));
    }
}
''')

bug("c23-kept-counts", "C23", "two decompositions in one program whose domains agree along one axis only",
    "the counts of a transpose are kept and reused whenever the own number of lines and the number of processes agree",
    [("src/space_mpi/decomp2d/distribute.rs", "            .map(|x| (x[self.axis_contig] * self.sz[recv_dist.axis_contig]) as i32)\n            .collect();",
      "            .map(|x| (x[self.axis_contig] * self.sz[recv_dist.axis_contig]) as i32)\n            .collect();\n        thread_local! {\n            static KEPT: std::cell::RefCell<std::collections::HashMap<[usize; 3], Vec<Count>>> =\n                std::cell::RefCell::new(std::collections::HashMap::new());\n        }\n        let key = [self.axis_contig, self.nprocs, self.sz[recv_dist.axis_contig]];\n        let counts = KEPT.with(|k| k.borrow_mut().entry(key).or_insert(counts).clone());")],
    "use funspace::space_mpi::decomp2d::Decomp2d;\nuse mpi_fork_fnsp as mpi;\nuse ndarray::Array2;\n" + '''fn main() {
    let r = mpi::run(2, |u| {
        for g in [[6usize, 6], [8, 6]] {
            let d = Decomp2d::new(&u, g);
            let a = Array2::from_shape_fn(g, |(i, j)| (i * 100 + j) as f64);
            let x = d.split_array_x_pencil(&a);
            let mut y = Array2::zeros(d.y_pencil.sz);
            d.transpose_x_to_y(&x, &mut y);
            assert_eq!(y, d.split_array_y_pencil(&a));
        }
    });
    assert!(r.iter().all(|x| x.is_ok()));
}
''', mpi=True)

bug("c26-lock-left-poisoned", "C26", "a Chebyshev forward transform after one that panicked on an input of the wrong length",
    "cosine transforms are serialised by a lock that the panic leaves poisoned, so every later one panics",
    [("src/chebyshev/ortho.rs", "        // Check input\n        assert!(indata.len() == self.len_phys());\n        assert!(indata.len() == outdata.len());\n\n        // Copy and correct input data\n        let cor = (A::one() + A::one()) * A::one() / A::from(self.n - 1).unwrap();",
      "        // One transform at a time\n        static ONE: std::sync::Mutex<()> = std::sync::Mutex::new(());\n        let _one = ONE.lock().unwrap();\n        // Check input\n        assert!(indata.len() == self.len_phys());\n        assert!(indata.len() == outdata.len());\n\n        // Copy and correct input data\n        let cor = (A::one() + A::one()) / A::from(self.n - 1).unwrap();")],
    PRE + '''fn main() {
    let b = chebyshev::<f64>(8);
    let r = std::panic::catch_unwind(|| {
        let mut o = vec![0.; 8];
        chebyshev::<f64>(8).forward_slice(&[1.; 9], &mut o);
    });
    assert!(r.is_err());
    let mut o = vec![0.; 8];
    b.forward_slice(&[1.; 8], &mut o);
    assert!((o[0] - 1.).abs() < 1e-12);
}
''')

bug("c26-shared-work", "C26", "two threads transform backward on clones of one real Fourier base at the same time",
    "the work space of the backward transform is shared by all clones and released between filling and using it",
    [("src/fourier/r2c.rs", "    plan_bwd: Arc<dyn ComplexToReal<A>>,\n}", "    plan_bwd: Arc<dyn ComplexToReal<A>>,\n    /// Work space of the backward transform\n    work: Arc<std::sync::Mutex<Vec<Complex<A>>>>,\n}"),
     ("src/fourier/r2c.rs", "            plan_bwd: Arc::clone(&planner.plan_fft_inverse(n)),\n", "            plan_bwd: Arc::clone(&planner.plan_fft_inverse(n)),\n            work: Arc::new(std::sync::Mutex::new(vec![Complex::<A>::zero(); n / 2 + 1])),\n"),
     ("src/fourier/r2c.rs", "        let mut indata_mut = vec![Self::Spectral::zero(); indata.len()];\n        let cor = A::one() / A::from_usize(self.len_phys()).unwrap();\n        for (a, b) in indata_mut.iter_mut().zip(indata.iter()) {\n            a.re = cor * b.re;\n            a.im = cor * b.im;\n        }\n",
      "        let cor = A::one() / A::from_usize(self.len_phys()).unwrap();\n        for (a, b) in self.work.lock().unwrap().iter_mut().zip(indata.iter()) {\n            a.re = cor * b.re;\n            a.im = cor * b.im;\n        }\n        let mut indata_mut = self.work.lock().unwrap();\n")],
    PRE + '''fn main() {
    let b = fourier_r2c::<f64>(64);
    let bad = std::sync::atomic::AtomicUsize::new(0);
    std::thread::scope(|s| {
        for t in 1..7 {
            let (b, bad) = (b.clone(), &bad);
            s.spawn(move || {
                let v = vec![Complex::new(t as f64, 0.); 33];
                let mut want = vec![0.; 64];
                fourier_r2c::<f64>(64).backward_slice(&v, &mut want);
                for _ in 0..40_000 {
                    let mut o = vec![0.; 64];
                    b.backward_slice(&v, &mut o);
                    if o.iter().zip(&want).any(|(x, y)| (x - y).abs() > 1e-9) {
                        bad.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    }
                }
            });
        }
    });
    assert_eq!(bad.into_inner(), 0);
}
''')

bug("c26-checked-once", "C26", "a complex Fourier base that has transformed before, and an input of the wrong length",
    "the lengths are checked on the first forward transform of a base (and its clones) only",
    [("src/fourier/c2c.rs", "    plan_bwd: Arc<dyn Fft<A>>,\n}", "    plan_bwd: Arc<dyn Fft<A>>,\n    /// Lengths were found correct\n    checked: Arc<std::sync::atomic::AtomicBool>,\n}"),
     ("src/fourier/c2c.rs", "            plan_bwd: Arc::clone(&planner.plan_fft_inverse(n)),\n", "            plan_bwd: Arc::clone(&planner.plan_fft_inverse(n)),\n            checked: Arc::new(std::sync::atomic::AtomicBool::new(false)),\n"),
     ("src/fourier/c2c.rs", "        assert!(indata.len() == self.len_phys());\n        assert!(outdata.len() == self.len_spec());\n        // Copy\n", "        if !self.checked.load(std::sync::atomic::Ordering::Relaxed) {\n            assert!(indata.len() == self.len_phys());\n            self.checked.store(true, std::sync::atomic::Ordering::Relaxed);\n        }\n        assert!(outdata.len() == self.len_spec());\n        // Copy\n")],
    PRE + '''fn main() {
    let b = fourier_c2c::<f64>(8);
    let one = Complex::new(1., 0.);
    let mut o = vec![one; 8];
    b.forward_slice(&[one; 8], &mut o);
    let wrong = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut o = vec![one; 8];
        b.forward_slice(&[one; 7], &mut o);
    }));
    let fresh = std::panic::catch_unwind(|| {
        let mut o = vec![one; 8];
        fourier_c2c::<f64>(8).forward_slice(&[one; 7], &mut o);
    });
    assert_eq!(wrong.is_err(), fresh.is_err());
}
''')
