//! Run-time evaluation of the one-dimensional contracts (C01..C13, C20, C21).
use crate::util::*;
use funspace::traits::*;
use funspace::*;
use ndarray::{Array1, Array2};
use num_complex::Complex;
use std::f64::consts::PI;

/// run a slice operation into a fresh output
fn call(f: &dyn Fn(&[f64], &mut [f64]), x: &[f64], n: usize) -> Vec<f64> {
    let mut o = vec![f64::NAN; n];
    f(x, &mut o);
    o
}
/// the same for complex data stored as real parts followed by imaginary parts
fn zcall(f: &dyn Fn(&[C64], &mut [C64]), x: &[f64], n: usize) -> Vec<f64> {
    let (a, b) = x.split_at(x.len() / 2);
    let mut o = vec![C64::new(f64::NAN, 0.); n];
    f(&cplx(a, b), &mut o);
    o.iter().map(|z| z.re).chain(o.iter().map(|z| z.im)).collect()
}
pub type C64 = Complex<f64>;
pub const COMPO: [&str; 5] = ["dirichlet", "neumann", "dirichlet_neumann", "biharmonic_a", "biharmonic_b"];

pub fn compo(kind: &str, n: usize) -> BaseR2r<f64> {
    match kind {
        "chebyshev" => chebyshev(n),
        "dirichlet" => cheb_dirichlet(n),
        "neumann" => cheb_neumann(n),
        "dirichlet_neumann" => cheb_dirichlet_neumann(n),
        "biharmonic_a" => cheb_biharmonic_a(n),
        _ => cheb_biharmonic_b(n),
    }
}
pub fn msize(kind: &str, n: usize) -> usize {
    match kind {
        "chebyshev" => n,
        "biharmonic_a" | "biharmonic_b" => n - 4,
        _ => n - 2,
    }
}
pub fn nmin_build(kind: &str) -> usize {
    match kind {
        "chebyshev" => 2,
        "biharmonic_a" | "biharmonic_b" => 8,
        _ => 4,
    }
}
pub fn nmin_solve(kind: &str) -> usize {
    match kind {
        "chebyshev" => 2,
        "dirichlet" | "neumann" => 5,
        "dirichlet_neumann" => 6,
        _ => 10,
    }
}
/// documented combination: list of (offset, coefficient) of column k
pub fn stencil_col(kind: &str, k: usize) -> Vec<(usize, f64)> {
    let k = k as f64;
    match kind {
        "chebyshev" => vec![(0, 1.)],
        "dirichlet" => vec![(0, 1.), (2, -1.)],
        "neumann" => vec![(0, 1.), (2, -k * k / ((k + 2.) * (k + 2.)))],
        "dirichlet_neumann" => {
            let d = (k + 1.) * (k + 1.) + (k + 2.) * (k + 2.);
            vec![(0, 1.), (1, (4. * k + 4.) / d), (2, -(k * k + (k + 1.) * (k + 1.)) / d)]
        }
        "biharmonic_a" => vec![(0, 1.), (2, -2. * (k + 2.) / (k + 3.)), (4, (k + 1.) / (k + 3.))],
        _ => {
            let q = (k + 3.) * (2. * k * k + 12. * k + 19.);
            vec![
                (0, 1.),
                (2, -2. * (k + 2.) * (2. * k * k + 8. * k + 15.) / q),
                (4, (k + 1.) * (2. * k * k + 4. * k + 3.) / q),
            ]
        }
    }
}
pub fn stencil_mul(kind: &str, n: usize, v: &[f64]) -> Vec<f64> {
    let mut u = vec![0.; n];
    for (k, x) in v.iter().enumerate() {
        for (o, c) in stencil_col(kind, k) {
            u[k + o] += c * x;
        }
    }
    u
}
pub fn stencil_tmul(kind: &str, m: usize, u: &[f64]) -> Vec<f64> {
    (0..m).map(|k| stencil_col(kind, k).iter().map(|(o, c)| c * u[k + o]).sum()).collect()
}
const EXTRA: [usize; 12] = [63, 64, 65, 97, 100, 127, 128, 129, 256, 257, 511, 512];
const EXTRA_T: [usize; 8] = [200, 333, 400, 777, 1000, 1023, 1024, 1025];
fn sizes(c: &Ctx, min: usize) -> Vec<usize> {
    let mut e = EXTRA.to_vec();
    let full = if c.thorough { e.extend(EXTRA_T); 140 } else { 40 };
    c.sizes(min, full, &e)
}
fn maxabs(v: &[f64]) -> f64 {
    v.iter().fold(0., |a, b| a.max(b.abs()))
}
fn cplx(a: &[f64], b: &[f64]) -> Vec<C64> {
    a.iter().zip(b).map(|(x, y)| C64::new(*x, *y)).collect()
}

pub fn c01(c: &mut Ctx) {
    for kind in COMPO {
        for n in sizes(c, nmin_build(kind)) {
            c.case(format!("to_ortho kind={kind} n={n}"), |c| {
                let b = compo(kind, n);
                let m = msize(kind, n);
                let s = b.stencil();
                if s.shape() != [n, m] {
                    return Err(format!("stencil shape {:?} expected [{n}, {m}]", s.shape()));
                }
                for k in 0..m {
                    let col = stencil_col(kind, k);
                    for i in 0..n {
                        let want = col.iter().find(|x| x.0 + k == i).map_or(0., |x| x.1);
                        c.close(&format!("stencil[{i},{k}]"), s[[i, k]], want, 1., 1e-13)?;
                    }
                }
                let (a, d) = (c.rng.vec(m), c.rng.vec(m));
                let (ra, rd) = (stencil_mul(kind, n, &a), stencil_mul(kind, n, &d));
                let mut out = vec![f64::NAN; n];
                b.to_ortho_slice(&a, &mut out);
                for i in 0..n {
                    c.close(&format!("to_ortho(v)[{i}]"), out[i], ra[i], 3., 1e-13)?;
                }
                let z = cplx(&a, &d);
                let mut out = vec![C64::new(f64::NAN, 0.); n];
                b.to_ortho_slice(&z, &mut out);
                for i in 0..n {
                    c.close(&format!("to_ortho(complex)[{i}].re"), out[i].re, ra[i], 3., 1e-13)?;
                    c.close(&format!("to_ortho(complex)[{i}].im"), out[i].im, rd[i], 3., 1e-13)?;
                }
                // array form
                let o: Array1<f64> = b.to_ortho(&Array1::from(a.clone()), 0);
                for i in 0..n {
                    c.close(&format!("to_ortho(array)[{i}]"), o[i], ra[i], 3., 1e-13)?;
                }
                c.linear("to_ortho", m, &|x| call(&|a, o| b.to_ortho_slice(a, o), x, n))?;
                c.linear("complex to_ortho", 2 * m, &|x| zcall(&|a, o| b.to_ortho_slice(a, o), x, n))?;
                Ok(())
            });
        }
    }
}

pub fn c02(c: &mut Ctx) {
    for kind in COMPO {
        for n in sizes(c, nmin_solve(kind)) {
            c.case(format!("from_ortho kind={kind} n={n}"), |c| {
                let b = compo(kind, n);
                let m = msize(kind, n);
                let (a, d) = (c.rng.vec(n), c.rng.vec(n));
                let mut v = vec![f64::NAN; m];
                b.from_ortho_slice(&a, &mut v);
                let lhs = stencil_tmul(kind, m, &stencil_mul(kind, n, &v));
                let rhs = stencil_tmul(kind, m, &a);
                let sc = maxabs(&v).max(1.);
                for i in 0..m {
                    c.close(&format!("(S^T S v - S^T u)[{i}]"), lhs[i], rhs[i], sc, 1e-11)?;
                }
                let z = cplx(&a, &d);
                let mut w = vec![C64::new(f64::NAN, 0.); m];
                b.from_ortho_slice(&z, &mut w);
                let re: Vec<f64> = w.iter().map(|x| x.re).collect();
                let im: Vec<f64> = w.iter().map(|x| x.im).collect();
                for (part, src) in [(re, &a), (im, &d)] {
                    let lhs = stencil_tmul(kind, m, &stencil_mul(kind, n, &part));
                    let rhs = stencil_tmul(kind, m, src);
                    let sc = maxabs(&part).max(1.);
                    for i in 0..m {
                        c.close(&format!("complex (S^T S v - S^T u)[{i}]"), lhs[i], rhs[i], sc, 1e-11)?;
                    }
                }
                let o: Array1<f64> = b.from_ortho(&Array1::from(a.clone()), 0);
                for i in 0..m {
                    c.close(&format!("from_ortho(array)[{i}]"), o[i], v[i], sc, 1e-13)?;
                }
                c.linear("from_ortho", n, &|x| call(&|a, o| b.from_ortho_slice(a, o), x, m))?;
                c.linear("complex from_ortho", 2 * n, &|x| zcall(&|a, o| b.from_ortho_slice(a, o), x, m))?;
                // left inverse
                if n <= 130 {
                    let x = c.rng.vec(m);
                    let mut u = vec![0.; n];
                    b.to_ortho_slice(&x, &mut u);
                    let mut y = vec![f64::NAN; m];
                    b.from_ortho_slice(&u, &mut y);
                    for i in 0..m {
                        c.close(&format!("from_ortho(to_ortho(v))[{i}]"), y[i], x[i], 1., 1e-6)?;
                    }
                }
                Ok(())
            });
        }
    }
}

/// d-th derivative of T_k at x=1 (x=-1: times (-1)^(k+d))
fn tder(k: usize, d: u32) -> f64 {
    let k = k as f64;
    match d {
        0 => 1.,
        1 => k * k,
        _ => k * k * (k * k - 1.) / 3.,
    }
}
pub fn c03(c: &mut Ctx) {
    let bcs = |kind: &str| -> Vec<(i32, u32)> {
        match kind {
            "dirichlet" => vec![(-1, 0), (1, 0)],
            "neumann" => vec![(-1, 1), (1, 1)],
            "dirichlet_neumann" => vec![(-1, 0), (1, 1)],
            "biharmonic_a" => vec![(-1, 0), (1, 0), (-1, 1), (1, 1)],
            _ => vec![(-1, 0), (1, 0), (-1, 2), (1, 2)],
        }
    };
    let at = |u: &dyn Fn(usize) -> f64, n: usize, x: i32, d: u32| -> (f64, f64) {
        let (mut s, mut mag) = (0., 0.);
        for i in 0..n {
            let sg = if x < 0 && (i + d as usize) % 2 == 1 { -1. } else { 1. };
            let t = u(i) * tder(i, d) * sg;
            s += t;
            mag += t.abs();
        }
        (s, mag)
    };
    for kind in COMPO {
        for n in sizes(c, nmin_build(kind)) {
            c.case(format!("boundary conditions kind={kind} n={n}"), |c| {
                let b = compo(kind, n);
                let m = msize(kind, n);
                let s = b.stencil();
                for (x, d) in bcs(kind) {
                    for k in 0..m {
                        let (v, mag) = at(&|i| s[[i, k]], n, x, d);
                        c.close(&format!("phi_{k}^({d})({x})"), v, 0., mag, 1e-12)?;
                    }
                    let a = c.rng.vec(m);
                    let mut u = vec![0.; n];
                    b.to_ortho_slice(&a, &mut u);
                    let (v, mag) = at(&|i| u[i], n, x, d);
                    c.close(&format!("u^({d})({x}) of a random field"), v, 0., mag, 1e-11)?;
                    let z = cplx(&a, &c.rng.vec(m));
                    let mut uz = vec![C64::new(0., 0.); n];
                    b.to_ortho_slice(&z, &mut uz);
                    let (v, mag) = at(&|i| uz[i].im, n, x, d);
                    c.close(&format!("Im u^({d})({x}) of a random complex field"), v, 0., mag, 1e-11)?;
                    if d == 0 && n >= nmin_build(kind) {
                        let mut ph = vec![0.; n];
                        b.backward_slice(&a, &mut ph);
                        let e = if x < 0 { ph[0] } else { ph[n - 1] };
                        c.close(&format!("backward field at x={x}"), e, 0., n as f64, 1e-12)?;
                    }
                }
                Ok(())
            });
        }
    }
}

pub fn c04(c: &mut Ctx) {
    let mut kinds = vec!["chebyshev"];
    kinds.extend(COMPO);
    for kind in kinds {
        let full = if c.thorough { 100 } else { 36 };
        for n in c.sizes(nmin_build(kind), full, &[64, 65, 129]) {
            if n > 400 {
                continue;
            }
            c.case(format!("stencil_inv*stencil kind={kind} n={n}"), |c| {
                let b = compo(kind, n);
                let m = msize(kind, n);
                let (s, p) = (b.stencil(), b.stencil_inv());
                if p.shape() != [m, n] {
                    return Err(format!("stencil_inv shape {:?} expected [{m}, {n}]", p.shape()));
                }
                let q: Array2<f64> = p.dot(&s);
                let big = p.iter().fold(1f64, |a, x| a.max(x.abs()));
                for i in 0..m {
                    for j in 0..m {
                        let want = if i == j { 1. } else { 0. };
                        c.close(&format!("(stencil_inv*stencil)[{i},{j}]"), q[[i, j]], want, big, 1e-11)?;
                        if kind == "chebyshev" {
                            c.close("identity stencil", s[[i, j]], want, 0., 1e-15)?;
                            c.close("identity stencil_inv", p[[i, j]], want, 0., 1e-15)?;
                        }
                    }
                }
                Ok(())
            });
        }
    }
    for n in 1..12 {
        c.case(format!("orthogonal stencils fourier n={n}"), |c| {
            let (r, z) = (fourier_r2c::<f64>(n), fourier_c2c::<f64>(n));
            for (s, m) in [(r.stencil(), n / 2 + 1), (r.stencil_inv(), n / 2 + 1), (z.stencil(), n), (z.stencil_inv(), n)] {
                if s.shape() != [m, m] {
                    return Err(format!("shape {:?} expected [{m}, {m}]", s.shape()));
                }
                for i in 0..m {
                    for j in 0..m {
                        c.close("identity", s[[i, j]], if i == j { 1. } else { 0. }, 0., 1e-15)?;
                    }
                }
            }
            Ok(())
        });
    }
}

/// exact derivative (one order) of integer coefficients; doubled zeroth entry avoided by
/// keeping c0 as numerator over 1 (always even before halving)
fn ider(a: &[i128]) -> Vec<i128> {
    let n = a.len();
    let mut b = vec![0i128; n + 2];
    for i in (1..n).rev() {
        b[i - 1] = b[i + 1] + 2 * i as i128 * a[i];
    }
    b[0] /= 2;
    b.truncate(n);
    b
}
fn dcol(q: usize, n: usize, d: usize) -> Vec<i128> {
    let mut a = vec![0i128; n];
    a[q] = 1;
    for _ in 0..d {
        a = ider(&a);
    }
    a
}
pub fn c05(c: &mut Ctx) {
    let extra: &[usize] = if c.thorough { &[64, 65, 100, 200, 300, 512, 513, 566, 567, 600, 700] } else { &[64, 65, 100, 129, 257, 566, 567, 600] };
    for d in 1..=4usize {
        for n in c.sizes(1, if c.thorough { 70 } else { 40 }, extra) {
            c.case(format!("diffmat deriv={d} n={n}"), |c| {
                let m = if n >= 2 { chebyshev::<f64>(n).diffmat(d) } else { chebyshev::Chebyshev::<f64>::_dmat(n, d) };
                if m.shape() != [n, n] {
                    return Err(format!("shape {:?}", m.shape()));
                }
                let step = if n > 200 { 7 } else { 1 };
                for q in (0..n).rev().step_by(step) {
                    let want = dcol(q, n, d);
                    for p in 0..n {
                        let w = want[p] as f64;
                        c.close(&format!("D^{d}[{p},{q}]"), m[[p, q]], w, w, 1e-12)?;
                    }
                }
                Ok(())
            });
        }
        for n in [2000usize, 7200].iter().take(if c.thorough { 2 } else { 1 }) {
            let n = *n;
            c.case(format!("diffmat deriv={d} n={n} (last columns)"), |c| {
                let m = chebyshev::Chebyshev::<f64>::_dmat(n, d);
                for q in n - 2..n {
                    let want = dcol(q, n, d);
                    for p in 0..n {
                        let w = want[p] as f64;
                        c.close(&format!("D^{d}[{p},{q}]"), m[[p, q]], w, w, 1e-12)?;
                    }
                }
                Ok(())
            });
        }
    }
    for kind in COMPO {
        c.case(format!("diffmat of {kind}"), |c| {
            for n in [10usize, 13] {
                for d in 1..=4 {
                    let (a, b) = (compo(kind, n).diffmat(d), chebyshev::<f64>(n).diffmat(d));
                    c.evals += 1;
                    if a != b {
                        return Err(format!("diffmat({d}) of {kind} n={n} differs from the orthogonal base's"));
                    }
                }
                if compo(kind, n).laplacian() != chebyshev::<f64>(n).diffmat(2) || chebyshev::<f64>(n).laplacian() != chebyshev::<f64>(n).diffmat(2) {
                    return Err("laplacian differs from diffmat(2)".into());
                }
            }
            Ok(())
        });
    }
}

pub fn c06(c: &mut Ctx) {
    for d in 1..=4usize {
        let extra: &[usize] = if c.thorough { &[64, 65, 100, 129, 200] } else { &[64, 65, 129] };
        for n in c.sizes(d + 1, if c.thorough { 60 } else { 30 }, extra) {
            if n > 300 {
                continue;
            }
            c.case(format!("diffmat_pinv deriv={d} n={n}"), |c| {
                let b = chebyshev::<f64>(n);
                let (p, e) = b.diffmat_pinv(d);
                if p.shape() != [n, n] || e.shape() != [n - d, n] {
                    return Err(format!("shapes {:?} {:?}", p.shape(), e.shape()));
                }
                let mut cols = vec![];
                for q in 0..n {
                    cols.push(dcol(q, n, d));
                }
                for i in 0..n {
                    // band of the row
                    let nz: Vec<usize> = (0..n).filter(|j| p[[i, *j]] != 0.).collect();
                    for q in 0..n {
                        let (mut s, mut mag) = (0., 0.);
                        for &j in &nz {
                            let t = p[[i, j]] * cols[q][j] as f64;
                            s += t;
                            mag += t.abs();
                        }
                        let want = if i >= d && i == q { 1. } else { 0. };
                        c.close(&format!("(D_pinv*D^{d})[{i},{q}]"), s, want, mag, 1e-12)?;
                        if i >= d {
                            c.close(&format!("I_pinv[{},{q}]", i - d), e[[i - d, q]], want, 0., 1e-15)?;
                        }
                    }
                }
                for kind in COMPO {
                    if n >= nmin_build(kind) && n < 20 {
                        let x = compo(kind, n);
                        c.evals += 1;
                        if x.diffmat_pinv(d) != (p.clone(), e.clone()) {
                            return Err(format!("{kind}: diffmat_pinv differs from the orthogonal base's"));
                        }
                        if d == 2 && (x.laplacian_pinv() != (p.clone(), e.clone()) || b.laplacian_pinv() != (p.clone(), e.clone())) {
                            return Err(format!("{kind}: laplacian_pinv is not the order-2 pair"));
                        }
                    }
                }
                Ok(())
            });
        }
    }
}

fn der_ref(a: &[f64], times: usize) -> Vec<f64> {
    let mut a = a.to_vec();
    let n = a.len();
    for _ in 0..times {
        let mut b = vec![0.; n];
        if n > 600 {
            // suffix sums of the two parities
            let mut s = [0f64; 2];
            for p in (0..n).rev() {
                b[p] = if p == 0 { s[1] / 2. } else { s[(p + 1) % 2] };
                s[p % 2] += 2. * p as f64 * a[p];
            }
            a = b;
            continue;
        }
        for p in 0..n {
            let mut s = 0.;
            let mut q = p + 1;
            while q < n {
                s += 2. * q as f64 * a[q];
                q += 2;
            }
            b[p] = if p == 0 { s / 2. } else { s };
        }
        a = b;
    }
    a
}
pub fn c07(c: &mut Ctx) {
    let mut kinds = vec!["chebyshev"];
    kinds.extend(COMPO);
    for kind in kinds {
        let min = if kind == "chebyshev" { 2 } else { nmin_build(kind) };
        for n in sizes(c, min) {
            for times in 0..=(if c.search.is_some() { 12 } else if c.thorough { 7 } else { 5 }) {
                c.case(format!("gradient kind={kind} n={n} times={times}"), |c| {
                    let b = compo(kind, n);
                    let m = msize(kind, n);
                    let (a, d) = (c.rng.vec(m), c.rng.vec(m));
                    let (ra, rd) = (der_ref(&stencil_mul(kind, n, &a), times), der_ref(&stencil_mul(kind, n, &d), times));
                    let (sa, sd) = (maxabs(&ra), maxabs(&rd));
                    let mut out = vec![f64::NAN; n];
                    b.gradient_slice(&a, &mut out, times);
                    for i in 0..n {
                        c.close(&format!("gradient(v)[{i}]"), out[i], ra[i], sa, 1e-10)?;
                    }
                    let mut out = vec![C64::new(f64::NAN, 0.); n];
                    b.gradient_slice(&cplx(&a, &d), &mut out, times);
                    for i in 0..n {
                        c.close(&format!("gradient(complex)[{i}].re"), out[i].re, ra[i], sa, 1e-10)?;
                        c.close(&format!("gradient(complex)[{i}].im"), out[i].im, rd[i], sd, 1e-10)?;
                    }
                    let o: Array1<f64> = b.gradient(&Array1::from(a.clone()), times, 0);
                    for i in 0..n {
                        c.close(&format!("gradient(array)[{i}]"), o[i], ra[i], sa, 1e-10)?;
                    }
                    c.linear("gradient", m, &|x| call(&|a, o| b.gradient_slice(a, o, times), x, n))?;
                    c.linear("complex gradient", 2 * m, &|x| zcall(&|a, o| b.gradient_slice(a, o, times), x, n))?;
                    if (1..=4).contains(&times) && n <= 66 {
                        let mut u = vec![0.; n];
                        b.to_ortho_slice(&a, &mut u);
                        let dm = b.diffmat(times).dot(&Array1::from(u));
                        for i in 0..n {
                            c.close(&format!("diffmat*v[{i}]"), dm[i], ra[i], sa, 1e-10)?;
                        }
                    }
                    Ok(())
                });
            }
        }
    }
}

/// T_k at node j of the n-point grid, with the angle reduced exactly
fn tval(k: usize, j: usize, n: usize) -> f64 {
    let m = n - 1;
    let r = (k * j) % (2 * m);
    let v = (PI * r as f64 / m as f64).cos();
    if k % 2 == 1 { -v } else { v }
}
pub fn c08(c: &mut Ctx) {
    for n in sizes(c, 2) {
        c.case(format!("chebyshev transform n={n}"), |c| {
            let b = chebyshev::<f64>(n);
            let (v, a) = (c.rng.vec(n), c.rng.vec(n));
            let mut h = vec![f64::NAN; n];
            b.forward_slice(&v, &mut h);
            let sc = n as f64;
            let stepj = if n > 150 { 5 } else { 1 };
            for j in (0..n).step_by(stepj) {
                let s: f64 = (0..n).map(|k| h[k] * tval(k, j, n)).sum();
                c.close(&format!("interpolant of forward(v) at node {j}"), s, v[j], sc, 1e-12)?;
            }
            let mut w = vec![f64::NAN; n];
            b.backward_slice(&a, &mut w);
            for j in (0..n).step_by(stepj) {
                let s: f64 = (0..n).map(|k| a[k] * tval(k, j, n)).sum();
                c.close(&format!("backward(a)[{j}]"), w[j], s, sc, 1e-12)?;
            }
            let mut back = vec![f64::NAN; n];
            b.backward_slice(&h, &mut back);
            let mut fwd = vec![f64::NAN; n];
            b.forward_slice(&w, &mut fwd);
            for j in 0..n {
                c.close(&format!("backward(forward(v))[{j}]"), back[j], v[j], 1., 1e-11)?;
                c.close(&format!("forward(backward(a))[{j}]"), fwd[j], a[j], 1., 1e-11)?;
            }
            let o: Array1<f64> = b.forward(&Array1::from(v.clone()), 0);
            let p: Array1<f64> = b.backward(&Array1::from(a.clone()), 0);
            for j in 0..n {
                c.close("forward(array)", o[j], h[j], 1., 1e-13)?;
                c.close("backward(array)", p[j], w[j], sc, 1e-13)?;
            }
            c.linear("forward", n, &|x| call(&|a, o| b.forward_slice(a, o), x, n))?;
            c.linear("backward", n, &|x| call(&|a, o| b.backward_slice(a, o), x, n))?;
            Ok(())
        });
    }
    for n in [2usize, 3, 5, 8, 17, 32] {
        c.case(format!("chebyshev transform f32 n={n}"), |c| {
            let b = chebyshev::<f32>(n);
            let v: Vec<f32> = c.rng.vec(n).iter().map(|x| *x as f32).collect();
            let mut h = vec![f32::NAN; n];
            b.forward_slice(&v, &mut h);
            for j in 0..n {
                let s: f64 = (0..n).map(|k| h[k] as f64 * tval(k, j, n)).sum();
                c.close(&format!("f32 interpolant at node {j}"), s, v[j] as f64, n as f64, 1e-5)?;
            }
            let mut w = vec![f32::NAN; n];
            b.backward_slice(&h, &mut w);
            for j in 0..n {
                c.close("f32 round trip", w[j] as f64, v[j] as f64, 1., 1e-4)?;
            }
            Ok(())
        });
    }
}

pub fn c09(c: &mut Ctx) {
    for kind in COMPO {
        for n in sizes(c, nmin_build(kind)) {
            c.case(format!("composite backward kind={kind} n={n}"), |c| {
                let b = compo(kind, n);
                let m = msize(kind, n);
                let a = c.rng.vec(m);
                let u = stencil_mul(kind, n, &a);
                let mut w = vec![f64::NAN; n];
                b.backward_slice(&a, &mut w);
                let sc = n as f64;
                for j in (0..n).step_by(if n > 150 { 5 } else { 1 }) {
                    let s: f64 = (0..n).map(|k| u[k] * tval(k, j, n)).sum();
                    c.close(&format!("backward(c)[{j}]"), w[j], s, sc, 1e-12)?;
                }
                c.linear("backward", m, &|x| call(&|a, o| b.backward_slice(a, o), x, n))?;
                Ok(())
            });
        }
        for n in sizes(c, nmin_solve(kind)) {
            c.case(format!("composite forward kind={kind} n={n}"), |c| {
                let b = compo(kind, n);
                let m = msize(kind, n);
                let v = c.rng.vec(n);
                let mut h = vec![f64::NAN; m];
                b.forward_slice(&v, &mut h);
                // interpolant coefficients, independently
                let mut u = vec![0.; n];
                let mm = (n - 1) as f64;
                for (k, uk) in u.iter_mut().enumerate() {
                    let ck = if k == 0 || k == n - 1 { 2. } else { 1. };
                    let s: f64 = (0..n).map(|j| (if j == 0 || j == n - 1 { 0.5 } else { 1. }) * v[j] * tval(k, j, n)).sum();
                    *uk = 2. / (mm * ck) * s;
                }
                let lhs = stencil_tmul(kind, m, &stencil_mul(kind, n, &h));
                let rhs = stencil_tmul(kind, m, &u);
                let sc = maxabs(&h).max(1.);
                for i in 0..m {
                    c.close(&format!("normal equations of forward(v), row {i}"), lhs[i], rhs[i], sc, 1e-11)?;
                }
                c.linear("forward", n, &|x| call(&|a, o| b.forward_slice(a, o), x, m))?;
                if n <= 130 {
                    let a = c.rng.vec(m);
                    let mut w = vec![f64::NAN; n];
                    b.backward_slice(&a, &mut w);
                    let mut r = vec![f64::NAN; m];
                    b.forward_slice(&w, &mut r);
                    for i in 0..m {
                        c.close(&format!("forward(backward(c))[{i}]"), r[i], a[i], 1., 1e-5)?;
                    }
                }
                Ok(())
            });
        }
    }
}

fn wn_c2c(n: usize, k: usize) -> f64 {
    // 0,1,..,then negative up to -1
    if k < n - n / 2 { k as f64 } else { k as f64 - n as f64 }
}
fn ipow(z: C64, t: usize) -> C64 {
    (0..t).fold(C64::new(1., 0.), |a, _| a * z)
}
fn fsizes(c: &Ctx) -> Vec<usize> {
    c.sizes(1, if c.thorough { 140 } else { 48 }, &[63, 64, 65, 97, 100, 127, 128, 129, 256, 257])
}
fn cc(c: &mut Ctx, what: &str, got: C64, want: C64, sc: f64, tol: f64) -> Result<(), String> {
    c.close(&format!("{what}.re"), got.re, want.re, sc, tol)?;
    c.close(&format!("{what}.im"), got.im, want.im, sc, tol)
}
pub fn c10(c: &mut Ctx) {
    for n in fsizes(c) {
        for real in [false, true] {
            let name = if real { "r2c" } else { "c2c" };
            let m = if real { n / 2 + 1 } else { n };
            let wn = |k: usize| if real { k as f64 } else { wn_c2c(n, k) };
            for times in 0..=(if c.thorough || c.search.is_some() { 12usize } else { 5 }) {
                c.case(format!("fourier_{name} gradient n={n} times={times}"), |c| {
                    let a = cplx(&c.rng.vec(m), &c.rng.vec(m));
                    let mut o = vec![C64::new(f64::NAN, 0.); m];
                    let arr: Array1<C64>;
                    if real {
                        fourier_r2c::<f64>(n).gradient_slice(&a, &mut o, times);
                        arr = fourier_r2c::<f64>(n).gradient(&Array1::from(a.clone()), times, 0);
                    } else {
                        fourier_c2c::<f64>(n).gradient_slice(&a, &mut o, times);
                        arr = fourier_c2c::<f64>(n).gradient(&Array1::from(a.clone()), times, 0);
                    }
                    for k in 0..m {
                        let w = a[k] * ipow(C64::new(0., wn(k)), times);
                        cc(c, &format!("gradient[{k}]"), o[k], w, w.norm(), 1e-12)?;
                        cc(c, &format!("gradient(array)[{k}]"), arr[k], w, w.norm(), 1e-12)?;
                    }
                    c.linear("gradient", 2 * m, &|x| {
                        zcall(&|a, o| if real { fourier_r2c::<f64>(n).gradient_slice(a, o, times) } else { fourier_c2c::<f64>(n).gradient_slice(a, o, times) }, x, m)
                    })?;
                    if times > 0 && m <= 70 {
                        let d = if real { fourier_r2c::<f64>(n).diffmat(times) } else { fourier_c2c::<f64>(n).diffmat(times) };
                        if d.shape() != [m, m] {
                            return Err(format!("diffmat shape {:?}", d.shape()));
                        }
                        for i in 0..m {
                            for j in 0..m {
                                let w = if i == j { ipow(C64::new(0., wn(i)), times) } else { C64::new(0., 0.) };
                                cc(c, &format!("diffmat({times})[{i},{j}]"), d[[i, j]], w, w.norm(), 1e-12)?;
                            }
                        }
                    }
                    Ok(())
                });
            }
            c.case(format!("fourier_{name} laplacian/wavenumber n={n}"), |c| {
                let l = if real { fourier_r2c::<f64>(n).laplacian() } else { fourier_c2c::<f64>(n).laplacian() };
                let w = if real { fourier::FourierR2c::<f64>::wavenumber(n) } else { fourier::FourierC2c::<f64>::wavenumber(n) };
                if l.shape() != [m, m] || w.len() != m {
                    return Err(format!("laplacian shape {:?}, {} wavenumbers", l.shape(), w.len()));
                }
                for i in 0..m {
                    cc(c, &format!("wavenumber[{i}]"), w[i], C64::new(0., wn(i)), 0., 1e-14)?;
                    for j in 0..m {
                        let want = if i == j { -wn(i) * wn(i) } else { 0. };
                        c.close(&format!("laplacian[{i},{j}]"), l[[i, j]], want, want, 1e-14)?;
                    }
                }
                Ok(())
            });
        }
    }
}

pub fn c11(c: &mut Ctx) {
    for n in fsizes(c) {
        if n > 130 {
            continue;
        }
        for real in [false, true] {
            let name = if real { "r2c" } else { "c2c" };
            let m = if real { n / 2 + 1 } else { n };
            for d in 0..=5usize {
                c.case(format!("fourier_{name} pinv order={d} n={n} (0 = laplacian)"), |c| {
                    let z = |a: Array2<f64>| a.mapv(|x| C64::new(x, 0.));
                    let (mat, (p, e)) = match (real, d) {
                        (true, 0) => {
                            let b = fourier_r2c::<f64>(n);
                            let (p, e) = b.laplacian_pinv();
                            (z(b.laplacian()), (z(p), z(e)))
                        }
                        (false, 0) => {
                            let b = fourier_c2c::<f64>(n);
                            let (p, e) = b.laplacian_pinv();
                            (z(b.laplacian()), (z(p), z(e)))
                        }
                        (true, _) => (fourier_r2c::<f64>(n).diffmat(d), fourier_r2c::<f64>(n).diffmat_pinv(d)),
                        (false, _) => (fourier_c2c::<f64>(n).diffmat(d), fourier_c2c::<f64>(n).diffmat_pinv(d)),
                    };
                    if p.shape() != [m, m] || e.shape() != [m - 1, m] {
                        return Err(format!("shapes {:?} {:?}", p.shape(), e.shape()));
                    }
                    for i in 0..m {
                        for j in 0..m {
                            c.evals += 1;
                            if !(p[[i, j]].re.is_finite() && p[[i, j]].im.is_finite()) {
                                return Err(format!("pinv[{i},{j}] not finite"));
                            }
                        }
                    }
                    let prod = p.dot(&mat);
                    for i in 0..m {
                        for j in 0..m {
                            let w = C64::new(if i == j && i > 0 { 1. } else { 0. }, 0.);
                            cc(c, &format!("(D_pinv*D)[{i},{j}]"), prod[[i, j]], w, 1., 1e-12)?;
                            if i > 0 {
                                cc(c, &format!("I_pinv[{},{j}]", i - 1), e[[i - 1, j]], w, 0., 1e-14)?;
                            }
                        }
                    }
                    Ok(())
                });
            }
        }
    }
}

fn cis(k: usize, j: usize, n: usize, sign: f64) -> C64 {
    let r = (k * j) % n;
    let t = 2. * PI * r as f64 / n as f64;
    C64::new(t.cos(), sign * t.sin())
}
pub fn c12(c: &mut Ctx) {
    for n in fsizes(c) {
        c.case(format!("fourier_c2c transform n={n}"), |c| {
            let b = fourier_c2c::<f64>(n);
            let v = cplx(&c.rng.vec(n), &c.rng.vec(n));
            let mut h = vec![C64::new(f64::NAN, 0.); n];
            b.forward_slice(&v, &mut h);
            let mut w = vec![C64::new(f64::NAN, 0.); n];
            b.backward_slice(&v, &mut w);
            let mut rt = vec![C64::new(f64::NAN, 0.); n];
            b.backward_slice(&h, &mut rt);
            let sc = n as f64;
            for k in (0..n).step_by(if n > 150 { 5 } else { 1 }) {
                let s: C64 = (0..n).map(|j| v[j] * cis(k, j, n, -1.)).sum();
                cc(c, &format!("forward[{k}]"), h[k], s, sc, 1e-12)?;
                let s: C64 = (0..n).map(|j| v[j] * cis(k, j, n, 1.)).sum::<C64>() / n as f64;
                cc(c, &format!("backward[{k}]"), w[k], s, 1., 1e-12)?;
            }
            for k in 0..n {
                cc(c, &format!("backward(forward(v))[{k}]"), rt[k], v[k], 1., 1e-11)?;
            }
            c.linear("forward", 2 * n, &|x| zcall(&|a, o| b.forward_slice(a, o), x, n))?;
            c.linear("backward", 2 * n, &|x| zcall(&|a, o| b.backward_slice(a, o), x, n))?;
            Ok(())
        });
        c.case(format!("fourier_r2c transform n={n}"), |c| {
            let b = fourier_r2c::<f64>(n);
            let m = n / 2 + 1;
            let v = c.rng.vec(n);
            let mut h = vec![C64::new(f64::NAN, 0.); m];
            b.forward_slice(&v, &mut h);
            let sc = n as f64;
            for k in 0..m {
                let s: C64 = (0..n).map(|j| cis(k, j, n, -1.) * v[j]).sum();
                cc(c, &format!("forward[{k}]"), h[k], s, sc, 1e-12)?;
            }
            let mut rt = vec![f64::NAN; n];
            b.backward_slice(&h, &mut rt);
            for j in 0..n {
                c.close(&format!("backward(forward(v))[{j}]"), rt[j], v[j], 1., 1e-11)?;
            }
            // arbitrary coefficients, self-conjugate modes with imaginary parts
            let a = cplx(&c.rng.vec(m), &c.rng.vec(m));
            let mut w = vec![f64::NAN; n];
            b.backward_slice(&a, &mut w);
            for j in (0..n).step_by(if n > 150 { 5 } else { 1 }) {
                let mut s = a[0].re;
                for (k, ak) in a.iter().enumerate().skip(1) {
                    let z = ak * cis(k, j, n, 1.);
                    if 2 * k == n {
                        s += ak.re * cis(k, j, n, 1.).re;
                    } else {
                        s += 2. * z.re;
                    }
                }
                c.close(&format!("backward(c)[{j}]"), w[j], s / n as f64, 1., 1e-12)?;
            }
            c.linear("forward", n, &|x| {
                let mut o = vec![C64::new(f64::NAN, 0.); m];
                b.forward_slice(x, &mut o);
                o.iter().map(|z| z.re).chain(o.iter().map(|z| z.im)).collect()
            })?;
            c.linear("backward", 2 * m, &|x| {
                let mut o = vec![f64::NAN; n];
                b.backward_slice(&cplx(&x[..m], &x[m..]), &mut o);
                o
            })?;
            Ok(())
        });
    }
}

pub fn c13(c: &mut Ctx) {
    let top = if c.thorough { 20000 } else { 3000 };
    let ns: Vec<usize> = if c.search.is_some() { c.sweep(1) } else { (1..=top).collect() };
    for n in ns {
        c.case(format!("fourier coords n={n}"), |c| {
            let (x, y) = (fourier::FourierC2c::<f64>::nodes(n), fourier::FourierR2c::<f64>::nodes(n));
            for (name, x) in [("c2c", x), ("r2c", y)] {
                if x.len() != n {
                    return Err(format!("fourier_{name} reports {} coordinates for n={n}", x.len()));
                }
                for (j, v) in x.iter().enumerate() {
                    if j > 20 && j + 20 < n {
                        continue;
                    }
                    c.close(&format!("{name} x[{j}]"), *v, 2. * PI * j as f64 / n as f64, 6., 1e-13)?;
                }
                if !x.windows(2).all(|w| w[0] < w[1]) || x[0] < 0. || x[n - 1] >= 2. * PI {
                    return Err(format!("fourier_{name} coordinates not increasing in [0, 2pi)"));
                }
            }
            Ok(())
        });
    }
    for n in 1..=(if c.thorough { 6000 } else { 2000 }) {
        c.case(format!("fourier coords f32 n={n}"), |c| {
            c.evals += 1;
            let (x, y) = (fourier::FourierC2c::<f32>::nodes(n), fourier::FourierR2c::<f32>::nodes(n));
            if x.len() != n || y.len() != n {
                return Err(format!("{} / {} coordinates", x.len(), y.len()));
            }
            Ok(())
        });
    }
    let mut kinds = vec!["chebyshev"];
    kinds.extend(COMPO);
    for kind in kinds {
        for n in sizes(c, nmin_build(kind)) {
            c.case(format!("coords kind={kind} n={n}"), |c| {
                let x = compo(kind, n).coords();
                if x.len() != n {
                    return Err(format!("{} coordinates", x.len()));
                }
                let m = (n - 1) as f64;
                for j in 0..n {
                    c.close(&format!("x[{j}]"), x[j], -(PI * j as f64 / m).cos(), 1., 1e-14)?;
                    c.close(&format!("x[{j}] antisymmetry"), x[j], -x[n - 1 - j], 1., 1e-14)?;
                }
                if !x.windows(2).all(|w| w[0] < w[1]) {
                    return Err("coordinates not increasing".into());
                }
                Ok(())
            });
        }
    }
    for n in 1..40 {
        c.case(format!("coords via trait fourier n={n}"), |c| {
            c.evals += 1;
            if fourier_c2c::<f64>(n).coords() != fourier::FourierC2c::<f64>::nodes(n) || fourier_r2c::<f64>(n).coords() != fourier::FourierR2c::<f64>::nodes(n) {
                return Err("coords() differs from nodes()".into());
            }
            Ok(())
        });
    }
}

pub fn c20(c: &mut Ctx) {
    let tk = |k: enums::TransformKind| match k {
        enums::TransformKind::R2r => "r2r",
        enums::TransformKind::R2c => "r2c",
        enums::TransformKind::C2c => "c2c",
    };
    let mut kinds = vec!["chebyshev"];
    kinds.extend(COMPO);
    for kind in kinds {
        for n in nmin_solve(kind)..30 {
            c.case(format!("constructor {kind} n={n}"), |c| {
                c.evals += 12;
                let b = compo(kind, n);
                let m = msize(kind, n);
                if (b.len_phys(), b.len_spec(), b.len_orth()) != (n, m, n) {
                    return Err(format!("lengths {:?}", (b.len_phys(), b.len_spec(), b.len_orth())));
                }
                let want = match kind {
                    "chebyshev" => "Chebyshev",
                    "dirichlet" => "ChebDirichlet",
                    "neumann" => "ChebNeumann",
                    "dirichlet_neumann" => "ChebDirichletNeumann",
                    "biharmonic_a" => "ChebBiHarmonicA",
                    _ => "ChebBiHarmonicB",
                };
                if format!("{:?}", b.base_kind()) != want {
                    return Err(format!("base_kind {:?}", b.base_kind()));
                }
                if tk(b.transform_kind()) != "r2r" {
                    return Err(format!("transform_kind {}", tk(b.transform_kind())));
                }
                // forwarding of the general base equals the concrete one
                macro_rules! same {
                    ($k:expr) => {{
                        let k = $k;
                        let (u, v) = (c.rng.vec(n), c.rng.vec(m));
                        let (mut p1, mut p2) = (vec![0.; n], vec![0.; n]);
                        b.backward_slice(&v, &mut p1);
                        k.backward_slice(&v, &mut p2);
                        let (mut s1, mut s2) = (vec![0.; m], vec![0.; m]);
                        b.forward_slice(&u, &mut s1);
                        k.forward_slice(&u, &mut s2);
                        let (mut g1, mut g2) = (vec![0.; n], vec![0.; n]);
                        b.gradient_slice(&v, &mut g1, 2);
                        k.gradient_slice(&v, &mut g2, 2);
                        let (mut t1, mut t2) = (vec![0.; n], vec![0.; n]);
                        b.to_ortho_slice(&v, &mut t1);
                        k.to_ortho_slice(&v, &mut t2);
                        let (mut f1, mut f2) = (vec![0.; m], vec![0.; m]);
                        b.from_ortho_slice(&u, &mut f1);
                        k.from_ortho_slice(&u, &mut f2);
                        let ok = p1 == p2 && s1 == s2 && g1 == g2 && t1 == t2 && f1 == f2
                            && b.stencil() == k.stencil() && b.stencil_inv() == k.stencil_inv()
                            && b.diffmat(1) == k.diffmat(1) && b.diffmat(2) == k.diffmat(2)
                            && b.coords() == k.coords() && b.laplacian() == k.laplacian()
                            && (n < 8 || b.laplacian_pinv() == k.laplacian_pinv() && b.diffmat_pinv(1) == k.diffmat_pinv(1));
                        if !ok {
                            return Err("general base differs from the concrete basis".into());
                        }
                    }};
                }
                use chebyshev::{Chebyshev, ChebyshevComposite as CC};
                match kind {
                    "chebyshev" => same!(Chebyshev::<f64>::new(n)),
                    "dirichlet" => same!(CC::<f64>::dirichlet(n)),
                    "neumann" => same!(CC::<f64>::neumann(n)),
                    "dirichlet_neumann" => same!(CC::<f64>::dirichlet_neumann(n)),
                    "biharmonic_a" => same!(CC::<f64>::biharmonic_a(n)),
                    _ => same!(CC::<f64>::biharmonic_b(n)),
                }
                // the named basis itself
                let s = b.stencil();
                for k in 0..m {
                    for (o, w) in stencil_col(kind, k) {
                        c.close("stencil entry", s[[k + o, k]], w, 1., 1e-13)?;
                    }
                }
                Ok(())
            });
        }
    }
    for n in 1..30 {
        c.case(format!("constructor fourier n={n}"), |c| {
            c.evals += 8;
            let (r, z) = (fourier_r2c::<f64>(n), fourier_c2c::<f64>(n));
            let m = n / 2 + 1;
            if (r.len_phys(), r.len_spec(), r.len_orth()) != (n, m, m) || (z.len_phys(), z.len_spec(), z.len_orth()) != (n, n, n) {
                return Err("lengths".into());
            }
            if format!("{:?}", r.base_kind()) != "FourierR2c" || format!("{:?}", z.base_kind()) != "FourierC2c" {
                return Err("base_kind".into());
            }
            if tk(r.transform_kind()) != "r2c" || tk(z.transform_kind()) != "c2c" {
                return Err("transform_kind".into());
            }
            let kr = fourier::FourierR2c::<f64>::new(n);
            let kz = fourier::FourierC2c::<f64>::new(n);
            macro_rules! same {
                ($b:expr, $k:expr, $ph:expr, $m:expr, $p0:expr) => {{
                    let v = cplx(&c.rng.vec($m), &c.rng.vec($m));
                    let z0 = C64::new(0., 0.);
                    let (mut p1, mut p2) = (vec![$p0; n], vec![$p0; n]);
                    $b.backward_slice(&v, &mut p1);
                    $k.backward_slice(&v, &mut p2);
                    let (mut s1, mut s2) = (vec![z0; $m], vec![z0; $m]);
                    $b.forward_slice(&$ph, &mut s1);
                    $k.forward_slice(&$ph, &mut s2);
                    let (mut g1, mut g2) = (vec![z0; $m], vec![z0; $m]);
                    $b.gradient_slice(&v, &mut g1, 1);
                    $k.gradient_slice(&v, &mut g2, 1);
                    let (mut t1, mut f1) = (vec![z0; $m], vec![z0; $m]);
                    $b.to_ortho_slice(&v, &mut t1);
                    $b.from_ortho_slice(&v, &mut f1);
                    if !(p1 == p2 && s1 == s2 && g1 == g2 && t1 == v && f1 == v && $b.stencil() == $k.stencil()
                        && $b.stencil_inv() == $k.stencil_inv() && $b.diffmat(1) == $k.diffmat(1) && $b.laplacian() == $k.laplacian()
                        && $b.diffmat_pinv(1) == $k.diffmat_pinv(1) && $b.laplacian_pinv() == $k.laplacian_pinv() && $b.coords() == $k.coords())
                    {
                        return Err("general base differs from the concrete basis (or orthogonal conversion is not the identity)".into());
                    }
                }};
            }
            let u = c.rng.vec(n);
            same!(r, kr, u, m, 0f64);
            let uz = cplx(&c.rng.vec(n), &c.rng.vec(n));
            same!(z, kz, uz, n, C64::new(0., 0.));
            Ok(())
        });
    }
    for n in [2usize, 7, 20] {
        c.case(format!("orthogonal conversion is the identity chebyshev n={n}"), |c| {
            let b = chebyshev::<f64>(n);
            let v = c.rng.vec(n);
            let (mut t, mut f) = (vec![f64::NAN; n], vec![f64::NAN; n]);
            b.to_ortho_slice(&v, &mut t);
            b.from_ortho_slice(&v, &mut f);
            c.evals += 1;
            if t != v || f != v {
                return Err("not the identity".into());
            }
            Ok(())
        });
    }
}

/// Every size from 0: an operation finishes or panics (an abort or a signal ends the process and
/// is reported by the caller together with the current case); finished results contain no garbage
/// that differs between two differently prefilled buffers.
pub fn c21(c: &mut Ctx) {
    let mut kinds = vec!["chebyshev"];
    kinds.extend(COMPO);
    for kind in kinds {
        for n in 0..(if c.search.is_some() { 150 } else if c.thorough { 40 } else { 24 }) {
            for op in ["to_ortho", "from_ortho", "gradient", "forward", "backward", "stencil_inv", "pinv"] {
                for wrong in [(0i64, 0i64), (1, 0), (-1, 0), (0, 1), (0, -1), (-3, -3), (4, 4), (0, 7), (7, 0), (0, -20), (-20, 0)] {
                    c.case(format!("bounds kind={kind} n={n} op={op} extra_in={} extra_out={}", wrong.0, wrong.1), |c| {
                        c.evals += 1;
                        let b = match std::panic::catch_unwind(|| compo(kind, n)) {
                            Ok(b) => b,
                            Err(_) => return Ok(()), // size refused by the constructor
                        };
                        let (lp, ls) = (b.len_phys() as i64, b.len_spec() as i64);
                        let (li, lo) = match op {
                            "to_ortho" | "gradient" => (ls, lp),
                            "from_ortho" => (lp, ls),
                            "forward" => (lp, ls),
                            _ => (ls, lp),
                        };
                        let (li, lo) = ((li + wrong.0).max(0) as usize, (lo + wrong.1).max(0) as usize);
                        let a = c.rng.vec(li);
                        let run = |fill: f64| -> Option<Vec<f64>> {
                            // exact-capacity boxed slices so that a neighbour is never in bounds
                            let a = a.clone().into_boxed_slice();
                            let mut o = vec![fill; lo].into_boxed_slice();
                            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match op {
                                "to_ortho" => b.to_ortho_slice(&a, &mut o),
                                "from_ortho" => b.from_ortho_slice(&a, &mut o),
                                "gradient" => b.gradient_slice(&a, &mut o, 2),
                                "forward" => b.forward_slice(&a, &mut o),
                                "backward" => b.backward_slice(&a, &mut o),
                                "stencil_inv" => { let _ = b.stencil_inv(); }
                                _ => { for d in 1..=4 { let _ = std::panic::catch_unwind(|| chebyshev::Chebyshev::<f64>::_pinv(n, d)); } }
                            }));
                            r.ok().map(|_| o.to_vec())
                        };
                        let (x, y) = (run(1.5), run(-7.25));
                        if x.is_some() != y.is_some() {
                            return Err("panics depending on buffer contents".into());
                        }
                        if let (Some(x), Some(y)) = (x, y) {
                            if wrong == (0, 0) && op != "stencil_inv" && op != "pinv" && n >= 2 {
                                for (i, (p, q)) in x.iter().zip(&y).enumerate() {
                                    if p.to_bits() != q.to_bits() && !(p.is_nan() && q.is_nan()) {
                                        return Err(format!("element {i} depends on the previous contents of the output"));
                                    }
                                }
                            }
                        }
                        Ok(())
                    });
                }
            }
        }
    }
    for n in 0..20usize {
        for w in [0i64, 1, -1, 5, -5] {
            c.case(format!("bounds fourier n={n} extra_out={w}"), |c| {
                c.evals += 1;
                let _ = panics(|| {
                    let b = fourier_c2c::<f64>(n);
                    let a = vec![C64::new(1., 2.); n];
                    let mut o = vec![C64::new(0., 0.); (n as i64 + w).max(0) as usize];
                    let _ = panics(|| b.gradient_slice(&a, &mut o, 1));
                    let mut o = vec![C64::new(0., 0.); (n as i64 + w).max(0) as usize];
                    let _ = panics(|| b.forward_slice(&a, &mut o));
                    let _ = panics(|| b.backward_slice(&a, &mut o));
                });
                let _ = panics(|| {
                    let b = fourier_r2c::<f64>(n);
                    let m = n / 2 + 1;
                    let a = vec![C64::new(1., 2.); m];
                    let mut o = vec![C64::new(0., 0.); (m as i64 + w).max(0) as usize];
                    let _ = panics(|| b.gradient_slice(&a, &mut o, 1));
                    let mut p = vec![0f64; (n as i64 + w).max(0) as usize];
                    let _ = panics(|| b.backward_slice(&a, &mut p));
                    let _ = panics(|| b.forward_slice(&p, &mut o));
                });
                Ok(())
            });
        }
    }
}

/// The operations in single precision agree with those in double precision.
pub fn single(c: &mut Ctx, which: &str) {
    let near = |c: &mut Ctx, what: &str, a: &[f32], b: &[f64]| -> Result<(), String> {
        let sc = maxabs(b).max(1e-3);
        c.evals += a.len() as u64;
        for (i, (x, y)) in a.iter().zip(b).enumerate() {
            if !((*x as f64 - y).abs() <= 2e-3 * sc) {
                return Err(format!("{what}[{i}] in single precision: {x:e}, in double precision {y:e}"));
            }
        }
        Ok(())
    };
    let parts = |v: &[Complex<f32>]| -> Vec<f32> { v.iter().map(|z| z.re).chain(v.iter().map(|z| z.im)).collect() };
    let parts64 = |v: &[C64]| -> Vec<f64> { v.iter().map(|z| z.re).chain(v.iter().map(|z| z.im)).collect() };
    let small = |v: &[f64]| -> Vec<f32> { v.iter().map(|x| *x as f32).collect() };
    if matches!(which, "C10" | "C12") {
        for n in 1..=20 {
            c.case(format!("single precision fourier n={n}"), |c| {
                let m = n / 2 + 1;
                let (r, z) = (fourier_r2c::<f64>(n), fourier_c2c::<f64>(n));
                let (r3, z3) = (fourier_r2c::<f32>(n), fourier_c2c::<f32>(n));
                let (x, y) = (c.rng.vec(n), c.rng.vec(n));
                let a = cplx(&x, &y);
                let a3: Vec<Complex<f32>> = a.iter().map(|v| Complex::new(v.re as f32, v.im as f32)).collect();
                let (o, o3) = (C64::new(0., 0.), Complex::<f32>::new(0., 0.));
                macro_rules! both {
                    ($nm:expr, $b:ident, $b3:ident, $f:ident, $len:expr $(, $t:expr)?) => {{
                        let (mut p, mut q) = (vec![o; $len], vec![o3; $len]);
                        $b.$f(&a[..$len], &mut p $(, $t)?);
                        $b3.$f(&a3[..$len], &mut q $(, $t)?);
                        near(c, $nm, &parts(&q), &parts64(&p))?;
                    }};
                }
                if which == "C10" {
                    for t in 0..=3 {
                        both!("r2c gradient", r, r3, gradient_slice, m, t);
                        both!("c2c gradient", z, z3, gradient_slice, n, t);
                    }
                } else {
                    both!("c2c forward", z, z3, forward_slice, n);
                    both!("c2c backward", z, z3, backward_slice, n);
                    let (mut p, mut q) = (vec![o; m], vec![o3; m]);
                    r.forward_slice(&x, &mut p);
                    r3.forward_slice(&small(&x), &mut q);
                    near(c, "r2c forward", &parts(&q), &parts64(&p))?;
                    let (mut u, mut v) = (vec![0f64; n], vec![0f32; n]);
                    r.backward_slice(&a[..m], &mut u);
                    r3.backward_slice(&a3[..m], &mut v);
                    near(c, "r2c backward", &v, &u)?;
                }
                Ok(())
            });
        }
        return;
    }
    let mut kinds = vec!["chebyshev"];
    kinds.extend(COMPO);
    for kind in kinds {
        for n in nmin_solve(kind)..=(if c.thorough { 20 } else { 16 }) {
            c.case(format!("single precision kind={kind} n={n}"), |c| {
                let b = compo(kind, n);
                let s: BaseR2r<f32> = match kind {
                    "chebyshev" => chebyshev(n),
                    "dirichlet" => cheb_dirichlet(n),
                    "neumann" => cheb_neumann(n),
                    "dirichlet_neumann" => cheb_dirichlet_neumann(n),
                    "biharmonic_a" => cheb_biharmonic_a(n),
                    _ => cheb_biharmonic_b(n),
                };
                let m = msize(kind, n);
                let (u, v) = (c.rng.vec(n), c.rng.vec(m));
                macro_rules! both {
                    ($nm:expr, $f:ident, $x:expr, $len:expr $(, $t:expr)?) => {{
                        let (mut p, mut q) = (vec![0f64; $len], vec![0f32; $len]);
                        b.$f($x, &mut p $(, $t)?);
                        s.$f(&small($x), &mut q $(, $t)?);
                        near(c, $nm, &q, &p)?;
                    }};
                }
                match which {
                    "C01" => {
                        both!("to_ortho", to_ortho_slice, &v, n);
                        for (x, y) in s.stencil().iter().zip(b.stencil().iter()) {
                            c.close("stencil entry in single precision", *x as f64, *y, 1., 1e-5)?;
                        }
                    }
                    "C02" => both!("from_ortho", from_ortho_slice, &u, m),
                    "C07" => {
                        for t in 0..=3 {
                            both!("gradient", gradient_slice, &v, n, t);
                        }
                    }
                    "C13" => near(c, "coords", &s.coords(), &b.coords())?,
                    _ => {
                        both!("forward", forward_slice, &u, m);
                        both!("backward", backward_slice, &v, n);
                    }
                }
                Ok(())
            });
        }
    }
}
