//! Run-time evaluation of the space contracts (C15, C17, C18, C19).
use crate::base1d::{compo, C64};
use crate::lanes::{junk_arr, rnd_arr, same_arr, El};
use crate::util::*;
use funspace::traits::*;
use funspace::*;
use ndarray::{Array1, Array2, ArrayD, Axis, IxDyn};

fn re_im(v: &[C64]) -> (Vec<f64>, Vec<f64>) {
    (v.iter().map(|z| z.re).collect(), v.iter().map(|z| z.im).collect())
}
fn join(a: Vec<f64>, b: Vec<f64>) -> Vec<C64> {
    a.into_iter().zip(b).map(|(x, y)| C64::new(x, y)).collect()
}
/// One axis, through the one-dimensional slice operations only.
pub trait Ax {
    fn lens(&self) -> [usize; 3];
    fn fwd(&self, v: &[C64]) -> Vec<C64>;
    fn bwd(&self, v: &[C64]) -> Vec<C64>;
    fn to(&self, v: &[C64]) -> Vec<C64>;
    fn from(&self, v: &[C64]) -> Vec<C64>;
    fn grad(&self, v: &[C64], d: usize) -> Vec<C64>;
    fn q(&self) -> (String, String, Vec<f64>, Array2<f64>, Array2<f64>, Array2<f64>, Array2<f64>, Array2<f64>);
}
fn tk(k: &enums::TransformKind) -> String {
    match k {
        enums::TransformKind::R2r => "r2r",
        enums::TransformKind::R2c => "r2c",
        enums::TransformKind::C2c => "c2c",
    }
    .into()
}
macro_rules! q {
    ($s:expr) => {{
        let (p, i) = BaseMatOpLaplacian::laplacian_pinv($s);
        (
            format!("{:?}", BaseElements::base_kind($s)),
            tk(&BaseElements::transform_kind($s)),
            BaseElements::coords($s),
            BaseMatOpStencil::stencil($s),
            BaseMatOpStencil::stencil_inv($s),
            BaseMatOpLaplacian::laplacian($s),
            p,
            i,
        )
    }};
}
impl Ax for BaseR2r<f64> {
    fn lens(&self) -> [usize; 3] {
        [self.len_phys(), self.len_spec(), self.len_orth()]
    }
    fn fwd(&self, v: &[C64]) -> Vec<C64> {
        let (a, b) = re_im(v);
        let (mut x, mut y) = (vec![0.; self.len_spec()], vec![0.; self.len_spec()]);
        self.forward_slice(&a, &mut x);
        self.forward_slice(&b, &mut y);
        join(x, y)
    }
    fn bwd(&self, v: &[C64]) -> Vec<C64> {
        let (a, b) = re_im(v);
        let (mut x, mut y) = (vec![0.; self.len_phys()], vec![0.; self.len_phys()]);
        self.backward_slice(&a, &mut x);
        self.backward_slice(&b, &mut y);
        join(x, y)
    }
    fn to(&self, v: &[C64]) -> Vec<C64> {
        let (a, b) = re_im(v);
        let (mut x, mut y) = (vec![0.; self.len_orth()], vec![0.; self.len_orth()]);
        self.to_ortho_slice(&a, &mut x);
        self.to_ortho_slice(&b, &mut y);
        join(x, y)
    }
    fn from(&self, v: &[C64]) -> Vec<C64> {
        let (a, b) = re_im(v);
        let (mut x, mut y) = (vec![0.; self.len_spec()], vec![0.; self.len_spec()]);
        self.from_ortho_slice(&a, &mut x);
        self.from_ortho_slice(&b, &mut y);
        join(x, y)
    }
    fn grad(&self, v: &[C64], d: usize) -> Vec<C64> {
        let (a, b) = re_im(v);
        let (mut x, mut y) = (vec![0.; self.len_orth()], vec![0.; self.len_orth()]);
        self.gradient_slice(&a, &mut x, d);
        self.gradient_slice(&b, &mut y, d);
        join(x, y)
    }
    fn q(&self) -> (String, String, Vec<f64>, Array2<f64>, Array2<f64>, Array2<f64>, Array2<f64>, Array2<f64>) {
        q!(self)
    }
}
macro_rules! ax_fourier {
    ($t:ty, $real:tt) => {
        impl Ax for $t {
            fn lens(&self) -> [usize; 3] {
                [self.len_phys(), self.len_spec(), self.len_orth()]
            }
            fn fwd(&self, v: &[C64]) -> Vec<C64> {
                let mut o = vec![C64::new(0., 0.); self.len_spec()];
                ax_fourier!(@f $real, self, v, o);
                o
            }
            fn bwd(&self, v: &[C64]) -> Vec<C64> {
                ax_fourier!(@b $real, self, v)
            }
            fn to(&self, v: &[C64]) -> Vec<C64> {
                v.to_vec()
            }
            fn from(&self, v: &[C64]) -> Vec<C64> {
                v.to_vec()
            }
            fn grad(&self, v: &[C64], d: usize) -> Vec<C64> {
                let mut o = vec![C64::new(0., 0.); self.len_orth()];
                self.gradient_slice(v, &mut o, d);
                o
            }
            fn q(&self) -> (String, String, Vec<f64>, Array2<f64>, Array2<f64>, Array2<f64>, Array2<f64>, Array2<f64>) {
                q!(self)
            }
        }
    };
    (@f true, $s:expr, $v:expr, $o:expr) => { $s.forward_slice(&re_im($v).0, &mut $o) };
    (@f false, $s:expr, $v:expr, $o:expr) => { $s.forward_slice($v, &mut $o) };
    (@b true, $s:expr, $v:expr) => {{
        let mut p = vec![0f64; $s.len_phys()];
        $s.backward_slice($v, &mut p);
        p.into_iter().map(|x| C64::new(x, 0.)).collect()
    }};
    (@b false, $s:expr, $v:expr) => {{
        let mut p = vec![C64::new(0., 0.); $s.len_phys()];
        $s.backward_slice($v, &mut p);
        p
    }};
}
ax_fourier!(BaseR2c<f64>, true);
ax_fourier!(BaseC2c<f64>, false);

fn along(x: &ArrayD<C64>, axis: usize, f: &dyn Fn(&[C64]) -> Vec<C64>) -> ArrayD<C64> {
    let mut rows: Vec<Vec<C64>> = vec![];
    for l in x.lanes(Axis(axis)) {
        rows.push(f(&l.iter().copied().collect::<Vec<_>>()));
    }
    let mut sh = x.shape().to_vec();
    sh[axis] = rows.first().map_or(0, Vec::len);
    let mut o = ArrayD::<C64>::zeros(IxDyn(&sh));
    for (mut l, r) in o.lanes_mut(Axis(axis)).into_iter().zip(rows) {
        for (a, b) in l.iter_mut().zip(r) {
            *a = b;
        }
    }
    o
}
pub trait ToC: El {
    fn c(self) -> C64;
}
impl ToC for f64 {
    fn c(self) -> C64 {
        C64::new(self, 0.)
    }
}
impl ToC for C64 {
    fn c(self) -> C64 {
        self
    }
}
fn near(c: &Ctx, what: &str, got: &ArrayD<impl ToC>, want: &ArrayD<C64>) -> Result<(), String> {
    if got.shape() != want.shape() {
        return Err(format!("{what}: shape {:?} expected {:?}", got.shape(), want.shape()));
    }
    let sc = want.iter().fold(c.rng.2, |a, z| a.max(z.norm()));
    for ((ix, g), w) in got.indexed_iter().zip(want.iter()) {
        let g = g.c();
        if !((g - w).norm() <= 1e-9 * sc) {
            return Err(format!("{what}: element {:?} is {} expected {}", ix, g, w));
        }
    }
    Ok(())
}
fn derivs(n: usize, thorough: bool) -> Vec<Vec<usize>> {
    let m = if thorough { 3usize } else { 2 };
    let mut v = vec![];
    for k in 0..(m + 1).pow(n as u32) {
        v.push((0..n).map(|i| k / (m + 1).pow(i as u32) % (m + 1)).collect());
    }
    v.push((0..n).map(|i| if i == 0 { 4 } else { 0 }).collect());
    v.push((0..n).map(|i| if i + 1 == n { 3 } else { 0 }).collect());
    v.push((0..n).map(|i| if i == 0 { 5 } else { 0 }).collect());
    v.push((0..n).map(|i| if i + 1 == n { 6 } else { 1 }).collect());
    v
}

macro_rules! space {
    ($c:expr, $w:expr, $name:expr, $N:expr, $sp:expr, $P:ty, $S:ty, [$($b:expr),*]) => {{
        let sp = if $c.cases % 2 == 1 { $sp.clone() } else { $sp };
        let name: String = $name;
        let ax: Vec<&dyn Ax> = vec![$(&$b as &dyn Ax),*];
        const N: usize = $N;
        let lens: Vec<[usize; 3]> = ax.iter().map(|a| a.lens()).collect();
        let sh = |k: usize| -> Vec<usize> { lens.iter().map(|l| l[k]).collect() };
        type D = ndarray::Dim<[usize; N]>;
        macro_rules! st { ($a:expr) => { $a.into_dimensionality::<D>().unwrap() } }
        macro_rules! dy { ($a:expr) => { $a.into_dyn() } }
        match $w {
            "C17" | "C15" => {
                let ser = $w == "C17";
                $c.case(format!("transforms {name}"), |c| {
                    let p: ArrayD<$P> = rnd_arr(c, &sh(0));
                    let s: ArrayD<$S> = rnd_arr(c, &sh(1));
                    let o: ArrayD<$S> = rnd_arr(c, &sh(2));
                    let (ps, ss, os) = (st!(p.clone()), st!(s.clone()), st!(o.clone()));
                    let f = dy!(sp.forward(&ps));
                    let b = dy!(sp.backward(&ss));
                    let t = dy!(sp.to_ortho(&ss));
                    let r = dy!(sp.from_ortho(&os));
                    c.evals += (f.len() + b.len() + t.len() + r.len()) as u64;
                    if ser {
                        let (mut wf, mut wb, mut wt, mut wr) = (p.mapv(|x| x.c()), s.mapv(|x| x.c()), s.mapv(|x| x.c()), o.mapv(|x| x.c()));
                        for i in (0..N).rev() {
                            wf = along(&wf, i, &|v| ax[i].fwd(v));
                        }
                        for i in 0..N {
                            wb = along(&wb, i, &|v| ax[i].bwd(v));
                            wt = along(&wt, i, &|v| ax[i].to(v));
                            wr = along(&wr, i, &|v| ax[i].from(v));
                        }
                        near(c, "forward", &f, &wf)?;
                        near(c, "backward", &b, &wb)?;
                        near(c, "to_ortho", &t, &wt)?;
                        near(c, "from_ortho", &r, &wr)?;
                        let back = dy!(sp.forward(&sp.backward(&sp.forward(&ps))));
                        near(c, "forward(backward(coefficients))", &back, &f.mapv(|x| x.c()))?;
                        if f.shape() != &sp.shape_spectral()[..] || b.shape() != &sp.shape_physical()[..] || t.shape() != &sp.shape_spectral_ortho()[..] {
                            return Err("shape queries disagree with the results".into());
                        }
                    }
                    macro_rules! variants {
                        ($nm:expr, $x:expr, $want:expr, $T:ty, $par:ident, $ip:ident, $ipp:ident) => {
                            if ser {
                                let mut z = st!(junk_arr::<$T>($want.shape(), 0));
                                sp.$ip(&$x, &mut z);
                                same_arr(concat!($nm, " in place (prefilled output)"), &dy!(z), &$want)?;
                            } else {
                                same_arr(concat!($nm, " parallel"), &dy!(sp.$par(&$x)), &$want)?;
                                let mut z = st!(junk_arr::<$T>($want.shape(), 0));
                                sp.$ip(&$x, &mut z);
                                same_arr(concat!($nm, " in place"), &dy!(z), &$want)?;
                                let mut z = st!(junk_arr::<$T>($want.shape(), 1));
                                sp.$ipp(&$x, &mut z);
                                same_arr(concat!($nm, " in place parallel"), &dy!(z), &$want)?;
                            }
                        };
                    }
                    variants!("forward", ps, f, $S, forward_par, forward_inplace, forward_inplace_par);
                    variants!("backward", ss, b, $P, backward_par, backward_inplace, backward_inplace_par);
                    variants!("to_ortho", ss, t, $S, to_ortho_par, to_ortho_inplace, to_ortho_inplace_par);
                    variants!("from_ortho", os, r, $S, from_ortho_par, from_ortho_inplace, from_ortho_inplace_par);
                    if !ser {
                        for d in derivs(N, c.thorough) {
                            let mut da = [0usize; N];
                            da.copy_from_slice(&d);
                            let mut sc = [0f64; N];
                            for (i, s) in sc.iter_mut().enumerate() { *s = 1.5 + 0.75 * i as f64; }
                            for scale in [None, Some(sc)] {
                                same_arr(&format!("gradient_par {d:?}"), &dy!(sp.gradient_par(&ss, da, scale)), &dy!(sp.gradient(&ss, da, scale)))?;
                                c.evals += 1;
                            }
                        }
                    }
                    Ok(())
                });
            }
            "C18" => {
                for d in derivs(N, $c.thorough) {
                    for mode in 0..3 {
                        $c.case(format!("gradient {name} deriv={d:?} scale={}", ["none", "distinct", "negative"][mode]), |c| {
                            let s: ArrayD<$S> = rnd_arr(c, &sh(1));
                            let mut w = s.mapv(|x| x.c());
                            let mut da = [0usize; N];
                            let mut sc = [0f64; N];
                            let mut den = 1f64;
                            for i in 0..N {
                                da[i] = d[i];
                                sc[i] = if mode == 1 { 0.5 + 1.25 * i as f64 } else { -2. + 0.75 * i as f64 };
                                w = along(&w, i, &|v| ax[i].grad(v, d[i]));
                                den *= sc[i].powi(d[i] as i32);
                            }
                            let scale = if mode == 0 { None } else { Some(sc) };
                            if mode > 0 {
                                w.mapv_inplace(|z| z / den);
                            }
                            let ss = st!(s);
                            c.evals += 2 * w.len() as u64;
                            near(c, "gradient", &dy!(sp.gradient(&ss, da, scale)), &w)?;
                            near(c, "gradient_par", &dy!(sp.gradient_par(&ss, da, scale)), &w)
                        });
                    }
                }
            }
            _ => {
                $c.case(format!("queries {name}"), |c| {
                    c.evals += 3 + 8 * N as u64;
                    if sp.shape_physical()[..] != sh(0)[..] || sp.shape_spectral()[..] != sh(1)[..] || sp.shape_spectral_ortho()[..] != sh(2)[..] {
                        return Err("shapes".into());
                    }
                    let (a, b) = (sp.ndarray_physical(), sp.ndarray_spectral());
                    if a.shape() != &sh(0)[..] || b.shape() != &sh(1)[..] {
                        return Err("allocated shapes".into());
                    }
                    let e: ndarray::Array<f64, D> = sp.ndarray_from_shape(sp.shape_spectral_ortho());
                    if e.shape() != &sh(2)[..] || e.iter().any(|x| *x != 0.) || a.iter().any(|x| x.c() != C64::new(0., 0.)) || b.iter().any(|x| x.c() != C64::new(0., 0.)) {
                        return Err("allocated contents or shape".into());
                    }
                    let all = sp.coords();
                    for i in 0..N {
                        let (k, t, x, s, si, l, lp, li) = ax[i].q();
                        let xs = Array1::from(x);
                        if format!("{:?}", sp.base_kind(i)) != k { return Err(format!("base_kind axis {i}: {:?} expected {k}", sp.base_kind(i))); }
                        if tk(&sp.transform_kind(i)) != t { return Err(format!("transform_kind axis {i}")); }
                        if sp.coords_axis(i) != xs || all[i] != xs { return Err(format!("coords axis {i}")); }
                        if sp.stencil(i) != s { return Err(format!("stencil axis {i}")); }
                        if sp.stencil_inv(i) != si { return Err(format!("stencil_inv axis {i}")); }
                        if sp.laplacian(i) != l { return Err(format!("laplacian axis {i}")); }
                        let (p, q) = sp.laplacian_pinv(i);
                        if p != lp || q != li { return Err(format!("laplacian_pinv axis {i}")); }
                    }
                    Ok(())
                });
            }
        }
    }};
}

pub fn run(c: &mut Ctx, w: &str) {
    c.scaled = w != "C19";
    c.patterns = if w == "C18" { 2 } else { 8 };
    const K: [&str; 6] = ["chebyshev", "dirichlet", "neumann", "dirichlet_neumann", "biharmonic_a", "biharmonic_b"];
    let r = |k: usize, n: usize| compo(K[k % 6], n);
    let f = fourier_r2c::<f64>;
    let z = fourier_c2c::<f64>;
    if c.search.is_some() {
        return search(c, w);
    }
    for k in 0..6 {
        for n in [10usize, 13] {
            let a = r(k, n);
            space!(c, w, format!("Space1<{}({n})>", K[k]), 1, Space1::new(&a), f64, f64, [a]);
        }
    }
    for n in [1usize, 2, 5, 8] {
        let a = f(n);
        space!(c, w, format!("Space1<r2c({n})>"), 1, Space1::new(&a), f64, C64, [a]);
        let a = z(n);
        space!(c, w, format!("Space1<c2c({n})>"), 1, Space1::new(&a), C64, C64, [a]);
    }
    for k in 0..6 {
        let js = if c.thorough { 0..6 } else { 1..3 };
        for j in js {
            for (n, m) in [(10usize, 12usize), (11, 11)] {
                let (a, b) = (r(k, n), r(k + j, m));
                space!(c, w, format!("Space2<{}({n}),{}({m})>", K[k], K[(k + j) % 6]), 2, Space2::new(&a, &b), f64, f64, [a, b]);
            }
        }
        for n in [5usize, 6, 12] {
            let (a, b) = (f(n), r(k, 11));
            space!(c, w, format!("Space2<r2c({n}),{}(11)>", K[k]), 2, Space2::new(&a, &b), f64, C64, [a, b]);
        }
    }
    for (n, m) in [(5usize, 6usize), (6, 5), (7, 7), (8, 8), (4, 7), (1, 4)] {
        let (a, b) = (z(n), f(m));
        space!(c, w, format!("Space2<c2c({n}),r2c({m})>"), 2, Space2::new(&a, &b), f64, C64, [a, b]);
        let (a, b) = (z(n), z(m));
        space!(c, w, format!("Space2<c2c({n}),c2c({m})>"), 2, Space2::new(&a, &b), C64, C64, [a, b]);
    }
    let ks: &[usize] = if c.thorough { &[0, 1, 2, 3, 4, 5] } else { &[0, 1, 4] };
    for &k in ks {
        for (n, m, o) in [(10usize, 11usize, 12usize), (10, 10, 10)] {
            let (a, b, d) = (r(k, n), r(k + 1, m), r(k + 2, o));
            space!(c, w, format!("Space3<{}({n}),{}({m}),{}({o})>", K[k], K[(k + 1) % 6], K[(k + 2) % 6]), 3, Space3::new(&a, &b, &d), f64, f64, [a, b, d]);
        }
        for n in [5usize, 6] {
            let (a, b, d) = (f(n), r(k, 10), r(k + 1, 10));
            space!(c, w, format!("Space3<r2c({n}),{}(10),{}(10)>", K[k], K[(k + 1) % 6]), 3, Space3::new(&a, &b, &d), f64, C64, [a, b, d]);
            let (a, b, d) = (z(n), f(n + 1), r(k, 10));
            space!(c, w, format!("Space3<c2c({n}),r2c({}),{}(10)>", n + 1, K[k]), 3, Space3::new(&a, &b, &d), f64, C64, [a, b, d]);
        }
    }
    for (n, m, o) in [(3usize, 4usize, 5usize), (4, 4, 4), (5, 5, 5)] {
        let (a, b, d) = (z(n), z(m), f(o));
        space!(c, w, format!("Space3<c2c({n}),c2c({m}),r2c({o})>"), 3, Space3::new(&a, &b, &d), f64, C64, [a, b, d]);
        let (a, b, d) = (z(n), z(m), z(o));
        space!(c, w, format!("Space3<c2c({n}),c2c({m}),c2c({o})>"), 3, Space3::new(&a, &b, &d), C64, C64, [a, b, d]);
    }
}

/// larger and more uneven shapes, all combinations of the kinds of bases
fn search(c: &mut Ctx, w: &str) {
    const K: [&str; 6] = ["chebyshev", "dirichlet", "neumann", "dirichlet_neumann", "biharmonic_a", "biharmonic_b"];
    let r = |k: usize, n: usize| compo(K[k % 6], n);
    let f = fourier_r2c::<f64>;
    let z = fourier_c2c::<f64>;
    let big: Vec<usize> = c.sweep(14).into_iter().filter(|x| (x % 16 < 3 || *x < 24) && *x <= 300).collect();
    for &n in &big {
        for k in 0..6 {
            let a = r(k, n);
            space!(c, w, format!("Space1<{}({n})>", K[k]), 1, Space1::new(&a), f64, f64, [a]);
        }
        let a = f(n);
        space!(c, w, format!("Space1<r2c({n})>"), 1, Space1::new(&a), f64, C64, [a]);
        let a = z(n);
        space!(c, w, format!("Space1<c2c({n})>"), 1, Space1::new(&a), C64, C64, [a]);
    }
    for j in 0..6 {
        for k in 0..6 {
            let (n, m) = (10 + j, 10 + k);
            let (a, b) = (r(k, n), r(j, m));
            space!(c, w, format!("Space2<{}({n}),{}({m})>", K[k], K[j]), 2, Space2::new(&a, &b), f64, f64, [a, b]);
            for i in 0..6 {
                let (a, b, d) = (r(k, 10), r(j, 11), r(i, 10));
                space!(c, w, format!("Space3<{}(10),{}(11),{}(10)>", K[k], K[j], K[i]), 3, Space3::new(&a, &b, &d), f64, f64, [a, b, d]);
            }
            let (a, b, d) = (f(9), r(k, 10), r(j, 10));
            space!(c, w, format!("Space3<r2c(9),{}(10),{}(10)>", K[k], K[j]), 3, Space3::new(&a, &b, &d), f64, C64, [a, b, d]);
        }
        let (a, b, d) = (z(6), f(7), r(j, 10));
        space!(c, w, format!("Space3<c2c(6),r2c(7),{}(10)>", K[j]), 3, Space3::new(&a, &b, &d), f64, C64, [a, b, d]);
        let (a, b) = (f(9 + j), r(j, 10));
        space!(c, w, format!("Space2<r2c({}),{}(10)>", 9 + j, K[j]), 2, Space2::new(&a, &b), f64, C64, [a, b]);
    }
    for &q in &big {
        for (n, m) in [(q, 11usize), (11, q), (q, q + 1)] {
            if n * m > 70_000 {
                continue;
            }
            let (a, b) = (r(q, n), r(q + 1, m));
            space!(c, w, format!("Space2<{}({n}),{}({m})>", K[q % 6], K[(q + 1) % 6]), 2, Space2::new(&a, &b), f64, f64, [a, b]);
            let (a, b) = (f(n), r(q, m));
            space!(c, w, format!("Space2<r2c({n}),{}({m})>", K[q % 6]), 2, Space2::new(&a, &b), f64, C64, [a, b]);
            let (a, b) = (z(n), f(m));
            space!(c, w, format!("Space2<c2c({n}),r2c({m})>"), 2, Space2::new(&a, &b), f64, C64, [a, b]);
            let (a, b) = (z(n), z(m));
            space!(c, w, format!("Space2<c2c({n}),c2c({m})>"), 2, Space2::new(&a, &b), C64, C64, [a, b]);
        }
        for (n, m, o) in [(q, 10usize, 11usize), (10, q, 11), (11, 10, q), (q, q, q)] {
            if n * m * o > 300_000 {
                continue;
            }
            let (a, b, d) = (r(q, n), r(q + 1, m), r(q + 2, o));
            space!(c, w, format!("Space3<{}({n}),{}({m}),{}({o})>", K[q % 6], K[(q + 1) % 6], K[(q + 2) % 6]), 3, Space3::new(&a, &b, &d), f64, f64, [a, b, d]);
            let (a, b, d) = (f(n), r(q, m), r(q + 1, o));
            space!(c, w, format!("Space3<r2c({n}),{}({m}),{}({o})>", K[q % 6], K[(q + 1) % 6]), 3, Space3::new(&a, &b, &d), f64, C64, [a, b, d]);
            let (a, b, d) = (z(n), z(m), f(o));
            space!(c, w, format!("Space3<c2c({n}),c2c({m}),r2c({o})>"), 3, Space3::new(&a, &b, &d), f64, C64, [a, b, d]);
            let (a, b, d) = (z(n), z(m), z(o));
            space!(c, w, format!("Space3<c2c({n}),c2c({m}),c2c({o})>"), 3, Space3::new(&a, &b, &d), C64, C64, [a, b, d]);
        }
    }
}
