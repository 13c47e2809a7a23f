//! Run-time evaluation of the distributed contracts (C22 to C25).
mod util;
use funspace::space_mpi::*;
use funspace::*;
use ndarray::{s, Array2};
use num_complex::Complex;
use util::*;
type C64 = Complex<f64>;
use mpi_fork_fnsp as mpi;
use decomp2d::Distribution;

/// i-th part of n points over p processes, as documented: first the smaller parts
fn owner_ok(parts: &[(usize, usize, usize)], n: usize) -> Result<(), String> {
    let mut next = 0;
    let (mut lo, mut hi) = (usize::MAX, 0);
    for (r, (st, en, sz)) in parts.iter().enumerate() {
        if *st != next {
            return Err(format!("rank {r} starts at {st}, expected {next}"));
        }
        if *en + 1 != st + sz {
            return Err(format!("rank {r}: start {st} end {en} size {sz} disagree"));
        }
        next = st + sz;
        lo = lo.min(*sz);
        hi = hi.max(*sz);
    }
    if next != n {
        return Err(format!("parts cover {next} of {n} points"));
    }
    if hi - lo > 1 {
        return Err(format!("sizes between {lo} and {hi}"));
    }
    Ok(())
}

fn c22(c: &mut Ctx) {
    let top = if c.thorough { 70 } else { 30 };
    for n in c.sizes(1, top, &[63, 64, 100]) {
        for p in 1..=(n + 2).min(if c.thorough { 72 } else { 33 }) {
            for axis in 0..2usize {
                c.case(format!("decomposition n={n} procs={p} contiguous axis={axis}"), |c| {
                    let mut g = [0usize; 2];
                    g[axis] = 5 + n % 4;
                    g[1 - axis] = n;
                    c.evals += p as u64;
                    if p > n {
                        for r in [0, p - 1] {
                            if !panics(|| { let _ = Distribution::<2>::new(g, p, r, axis); }) {
                                return Err("more processes than points accepted".into());
                            }
                        }
                        return Ok(());
                    }
                    let d: Vec<Distribution<2>> = (0..p).map(|r| Distribution::<2>::new(g, p, r, axis)).collect();
                    let split = 1 - axis;
                    owner_ok(&d.iter().map(|x| (x.st[split], x.en[split], x.sz[split])).collect::<Vec<_>>(), n)?;
                    for (r, x) in d.iter().enumerate() {
                        if (x.st[axis], x.en[axis], x.sz[axis]) != (0, g[axis] - 1, g[axis]) {
                            return Err(format!("rank {r}: contiguous axis is not whole"));
                        }
                        if x.st != x.st_procs[r] || x.en != x.en_procs[r] || x.sz != x.sz_procs[r] || x.nrank != r || x.nprocs != p || x.axis_contig != axis {
                            return Err(format!("rank {r}: own entry differs from the table"));
                        }
                        if x.st_procs != d[0].st_procs || x.en_procs != d[0].en_procs || x.sz_procs != d[0].sz_procs {
                            return Err(format!("rank {r}: table differs from rank 0"));
                        }
                        if x.length() != x.sz[0] * x.sz[1] {
                            return Err(format!("rank {r}: length"));
                        }
                        let (cn, dp) = x.get_counts_all_gather();
                        let mut acc = 0;
                        for q in 0..p {
                            if cn[q] as usize != d[q].sz[0] * d[q].sz[1] || dp[q] as usize != acc {
                                return Err(format!("rank {r}: gather counts or displacements of {q}"));
                            }
                            acc += cn[q] as usize;
                        }
                        let a = Array2::from_shape_fn(g, |(i, j)| (i * 1000 + j) as f64);
                        let want = a.slice(s![x.st[0]..x.st[0] + x.sz[0], x.st[1]..x.st[1] + x.sz[1]]).to_owned();
                        let mut w = Array2::zeros(x.sz);
                        x.split_array_inplace(&a, &mut w);
                        if x.split_array(&a) != want || w != want {
                            return Err(format!("rank {r}: split array"));
                        }
                        x.check_shape(&want);
                        let [a, b] = x.sz;
                        for w in [[a + 1, b], [a, b + 1], [a - 1, b], [a, b - 1], [b, a], [a * b, 1], [1, a * b], g, [0, b]] {
                            if w != x.sz && !panics(|| x.check_shape(&Array2::<f64>::zeros(w))) {
                                return Err(format!("rank {r}: shape {w:?} accepted for {:?}", x.sz));
                            }
                        }
                    }
                    Ok(())
                });
            }
        }
    }
    for axis in [2usize, 3] {
        c.case(format!("contiguous axis {axis} rejected"), |c| {
            c.evals += 1;
            if panics(|| { let _ = Distribution::<2>::new([4, 4], 2, 0, axis); }) { Ok(()) } else { Err("accepted".into()) }
        });
    }
}

trait El: Equivalence + num_traits::Zero + PartialEq + std::fmt::Debug + Send + Sync {
    fn of(i: usize, j: usize) -> Self;
    fn junk() -> Self;
}
impl El for f64 {
    fn of(i: usize, j: usize) -> f64 {
        if (i * 5 + j * 3) % 7 == 2 { 0. } else { 1.0 + (i * 977 + j) as f64 }
    }
    fn junk() -> f64 {
        -4.5e33
    }
}
impl El for C64 {
    fn of(i: usize, j: usize) -> C64 {
        let h = (i * 5 + j * 3) % 7;
        C64::new(if h == 1 { 0. } else { 1.0 + (i * 977 + j) as f64 }, if h == 3 { 0. } else { 0.5 - (i * 31 + j * 7) as f64 })
    }
    fn junk() -> C64 {
        C64::new(-4.5e33, 1e11)
    }
}
fn ranks<F: Fn(mpi::environment::Universe) -> Result<(), String> + Sync>(p: usize, f: F) -> Result<(), String> {
    let res = mpi::run(p, f);
    let mut second = None;
    for (r, x) in res.into_iter().enumerate() {
        match x {
            Ok(Ok(())) => {}
            Ok(Err(e)) => return Err(format!("rank {r}: {e}")),
            Err(e) if e.starts_with("collective abandoned: rank") => second = Some(format!("rank {r}: {e}")),
            Err(e) => return Err(format!("rank {r} panicked: {e}")),
        }
    }
    second.map_or(Ok(()), Err)
}
fn eq<T: El>(what: &str, a: &Array2<T>, b: &Array2<T>) -> Result<(), String> {
    if a.shape() != b.shape() {
        return Err(format!("{what}: shape {:?} expected {:?}", a.shape(), b.shape()));
    }
    for ((ix, x), y) in a.indexed_iter().zip(b) {
        if x != y {
            return Err(format!("{what}: element {ix:?} is {x:?} expected {y:?}"));
        }
    }
    Ok(())
}
fn redistribute<T: El>(u: &mpi::environment::Universe, g: [usize; 2], fortran: bool) -> Result<(), String> {
    let d = Decomp2d::new(u, g);
    let d = if (g[0] + g[1]) % 2 == 1 { d.clone() } else { d };
    let global = Array2::from_shape_fn(g, |(i, j)| T::of(i, j));
    let cut = |p: &Distribution<2>| global.slice(s![p.st[0]..p.st[0] + p.sz[0], p.st[1]..p.st[1] + p.sz[1]]).to_owned();
    let lay = |a: Array2<T>| -> Array2<T> {
        if fortran {
            let mut b = Array2::from_elem((a.shape()[1], a.shape()[0]), T::zero()).reversed_axes();
            b.assign(&a);
            b
        } else {
            a
        }
    };
    let (x, y) = (cut(&d.x_pencil), cut(&d.y_pencil));
    let (xi, yi) = (lay(x.clone()), lay(y.clone()));
    let gl = lay(global.clone());
    let new = |sh: [usize; 2]| lay(Array2::from_elem(sh, T::junk()));
    if d.get_global_shape() != g || d.get_x_pencil_shape() != d.x_pencil.sz || d.get_y_pencil_shape() != d.y_pencil.sz {
        return Err("shape queries".into());
    }
    eq("split_array_x_pencil", &d.split_array_x_pencil(&gl), &x)?;
    eq("split_array_y_pencil", &d.split_array_y_pencil(&gl), &y)?;
    let mut a = new(d.y_pencil.sz);
    d.transpose_x_to_y(&xi, &mut a);
    eq("transpose_x_to_y", &a, &y)?;
    let mut b = new(d.x_pencil.sz);
    d.transpose_y_to_x(&a, &mut b);
    eq("transpose_y_to_x(transpose_x_to_y)", &b, &x)?;
    let mut b = new(d.x_pencil.sz);
    d.transpose_y_to_x(&yi, &mut b);
    eq("transpose_y_to_x", &b, &x)?;
    let mut a = new(g);
    d.all_gather_x(&xi, &mut a);
    eq("all_gather_x", &a, &global)?;
    let mut a = new(g);
    d.all_gather_y(&yi, &mut a);
    eq("all_gather_y", &a, &global)?;
    if d.nrank == 0 {
        eq("gather_x_root", &d.gather_x_root(&xi), &global)?;
        let mut a = new(g);
        d.gather_x_inplace_root(&xi, &mut a);
        eq("gather_x_inplace_root", &a, &global)?;
        eq("gather_y_root", &d.gather_y_root(&yi), &global)?;
        let mut a = new(g);
        d.gather_y_inplace_root(&yi, &mut a);
        eq("gather_y_inplace_root", &a, &global)?;
        eq("scatter_x_root", &d.scatter_x_root(&gl), &x)?;
        let mut a = new(d.x_pencil.sz);
        d.scatter_x_inplace_root(&gl, &mut a);
        eq("scatter_x_inplace_root", &a, &x)?;
        eq("scatter_y_root", &d.scatter_y_root(&gl), &y)?;
        let mut a = new(d.y_pencil.sz);
        d.scatter_y_inplace_root(&gl, &mut a);
        eq("scatter_y_inplace_root", &a, &y)?;
    } else {
        d.gather_x(&xi);
        d.gather_x(&xi);
        d.gather_y(&yi);
        d.gather_y(&yi);
        eq("scatter_x", &d.scatter_x(), &x)?;
        let mut a = new(d.x_pencil.sz);
        d.scatter_x_inplace(&mut a);
        eq("scatter_x_inplace", &a, &x)?;
        eq("scatter_y", &d.scatter_y(), &y)?;
        let mut a = new(d.y_pencil.sz);
        d.scatter_y_inplace(&mut a);
        eq("scatter_y_inplace", &a, &y)?;
    }
    Ok(())
}
fn c23(c: &mut Ctx) {
    let pm = if c.thorough { 9 } else { 8 };
    let mut shapes: Vec<[usize; 2]> = vec![[1, 1], [2, 3], [3, 2], [5, 5], [6, 4], [4, 7], [7, 9], [13, 8], [9, 16]];
    let top = if c.thorough { 14 } else { 9 };
    {
        for a in 1..top {
            for b in 1..top {
                shapes.push([a, b]);
            }
        }
    }
    if c.thorough {
        shapes.extend([[33, 17], [64, 9], [10, 65]]);
    }
    for h in c.hints.clone() {
        shapes.push([h.min(200), 5 + h % 3]);
        shapes.push([5 + h % 3, h.min(200)]);
    }
    for g in shapes {
        for p in 1..=pm.min(g[0]).min(g[1]) {
            for fo in [false, true] {
                c.case(format!("redistribution shape={g:?} procs={p} f-order={fo}"), |c| {
                    c.evals += 14 * (g[0] * g[1]) as u64;
                    ranks(p, |u| redistribute::<f64>(&u, g, fo))?;
                    ranks(p, |u| redistribute::<C64>(&u, g, fo))
                });
            }
        }
    }
}

/// the same, for decompositions of several shapes that live in the same processes
fn c23_history(c: &mut Ctx) {
    for p in 1..=6usize {
        for h in 0..if c.thorough { 60 } else { 10 } {
            let mut r = Rng(h * 17 + p as u64, 0, 1., 0);
            let shapes: Vec<([usize; 2], bool, bool)> = (0..8)
                .map(|i| {
                    // shapes that share an extent or the number of elements
                    let (a, b) = (p + r.below(4), p + r.below(4));
                    let g = match i % 4 { 0 | 1 => [a, b], 2 => [b, a], _ => [a, b + 2 * r.below(3)] };
                    (g, r.below(2) == 0, r.below(2) == 0)
                })
                .collect();
            c.case(format!("history procs={p} shapes, complex, f-order={shapes:?}"), |c| {
                c.evals += shapes.iter().map(|g| 14 * (g.0[0] * g.0[1]) as u64).sum::<u64>();
                ranks(p, |u| {
                    for (g, cx, fo) in &shapes {
                        if *cx { redistribute::<C64>(&u, *g, *fo) } else { redistribute::<f64>(&u, *g, *fo) }.map_err(|e| format!("{g:?} complex={cx} f-order={fo}: {e}"))?;
                    }
                    Ok(())
                })
            });
        }
    }
}
/// the value rank q gives; magnitudes differ so that a rank counted twice or left out shows
fn given(q: usize) -> i64 {
    3 * (q as i64) * (q as i64) - 7 * q as i64 + 5
}

fn scalars<T>(u: &mpi::environment::Universe, p: usize, of: fn(i64) -> T) -> Result<(), String>
where
    T: num_traits::Zero + Equivalence + Clone + Copy + std::iter::Sum + PartialEq + std::fmt::Debug,
{
    let me = Communicator::rank(&u.world()) as usize;
    let sum = of((0..p).map(given).sum());
    let mut x = of(given(me) + 100);
    broadcast_scalar(u, &mut x);
    if x != of(given(0) + 100) {
        return Err(format!("broadcast_scalar gives {x:?} on rank {me}"));
    }
    for old in [-1, 1000] {
        let (x, mut s) = (of(given(me)), of(old));
        all_gather_sum(u, &x, &mut s);
        if s != sum || x != of(given(me)) {
            return Err(format!("all_gather_sum gives {s:?} on rank {me}, expected {sum:?}"));
        }
        let mut s = of(old);
        gather_sum(u, &x, &mut s);
        let want = if me == 0 { sum } else { of(old) };
        if s != want || x != of(given(me)) {
            return Err(format!("gather_sum gives {s:?} on rank {me}, expected {want:?}"));
        }
    }
    Ok(())
}

fn c25(c: &mut Ctx) {
    let top = if c.thorough { 40 } else { 18 };
    for p in c.sizes(1, top, &[32, 33]) {
        let p = p.clamp(1, 70);
        c.case(format!("scalar collectives procs={p}"), |c| {
            c.evals += 15;
            ranks(p, |u| {
                scalars::<f64>(&u, p, |k| k as f64)?;
                scalars::<f32>(&u, p, |k| k as f32)?;
                scalars::<i64>(&u, p, |k| k)?;
                scalars::<i32>(&u, p, |k| k as i32)?;
                scalars::<C64>(&u, p, |k| C64::new(k as f64, -2. * k as f64))?;
                scalars::<f64>(&u, p, |k| -3. * k as f64)?;
                scalars::<i64>(&u, p, |k| 2 * k)
            })
        });
    }
}

trait Near: Copy {
    fn c(self) -> C64;
}
impl Near for f64 {
    fn c(self) -> C64 {
        C64::new(self, 0.)
    }
}
impl Near for C64 {
    fn c(self) -> C64 {
        self
    }
}
fn near<T: Near>(unit: f64, what: &str, got: &Array2<T>, want: &Array2<T>) -> Result<(), String> {
    if got.shape() != want.shape() {
        return Err(format!("{what}: shape {:?} expected {:?}", got.shape(), want.shape()));
    }
    let sc = want.iter().fold(unit, |a, z| a.max(z.c().norm()));
    for ((ix, g), w) in got.indexed_iter().zip(want.iter()) {
        if !((g.c() - w.c()).norm() <= 1e-9 * sc) {
            return Err(format!("{what}: element {:?} is {} expected {}", ix, g.c(), w.c()));
        }
    }
    Ok(())
}
fn cut<T: Copy>(a: &Array2<T>, p: &Distribution<2>) -> Array2<T> {
    a.slice(s![p.st[0]..p.st[0] + p.sz[0], p.st[1]..p.st[1] + p.sz[1]]).to_owned()
}

type Body = Box<dyn Fn(&mpi::environment::Universe) -> Result<(), String> + Sync>;
/// what every rank checks for one distributed space
macro_rules! body {
    ($p:expr, $a:expr, $b:expr, $P:ty, $S:ty, $seed:expr) => {{
            let p: usize = $p;
            let (a, b) = ($a.clone(), $b.clone());
            let ser = Space2::new(&a, &b);
            let (seed, pat, unit) = $seed;
            let fill_p = |sh: [usize; 2], k: u64| { let mut r = Rng(seed ^ k, pat, unit, k); Array2::<$P>::from_shape_fn(sh, |_| <$P>::rnd(&mut r)) };
            let fill_s = |sh: [usize; 2], k: u64| { let mut r = Rng(seed ^ k, pat, unit, k); Array2::<$S>::from_shape_fn(sh, |_| <$S>::rnd(&mut r)) };
            let (sp, ss, so) = (ser.shape_physical(), ser.shape_spectral(), ser.shape_spectral_ortho());
            let (v, vh, vo) = (fill_p(sp, 1), fill_s(ss, 2), fill_s(so, 3));
            let f = ser.forward(&v);
            let bw = ser.backward(&vh);
            let mut to = Array2::<$S>::zeros(so);
            ser.to_ortho_inplace(&vh, &mut to);
            let fr = ser.from_ortho(&vo);
            let derivs = [[0usize, 0usize], [1, 0], [0, 1], [2, 1], [1, 2]];
            let grads: Vec<_> = derivs.iter().flat_map(|d| [(*d, None), (*d, Some([0.5, -1.75]))]).map(|(d, s)| (d, s, ser.gradient(&vh, d, s))).collect();
            let body: Body = Box::new(move |u| {
                let m = Space2Mpi::new(&a, &b, u);
                let m = if seed % 2 == 1 { m.clone() } else { m };
                let me = m.get_nrank();
                if m.get_nprocs() != p || me >= p { return Err("rank queries".into()); }
                if m.shape_physical() != sp || m.shape_spectral() != ss || m.shape_spectral_ortho() != so { return Err("global shapes".into()); }
                for i in 0..2 {
                    if format!("{:?}", m.base_kind(i)) != format!("{:?}", ser.base_kind(i)) || m.coords_axis(i) != ser.coords_axis(i) || m.coords()[i] != ser.coords()[i]
                        || m.stencil(i) != ser.stencil(i) || m.stencil_inv(i) != ser.stencil_inv(i) || m.laplacian(i) != ser.laplacian(i) || m.laplacian_pinv(i) != ser.laplacian_pinv(i)
                        || std::mem::discriminant(&m.transform_kind(i)) != std::mem::discriminant(&ser.transform_kind(i)) {
                        return Err(format!("queries axis {i}"));
                    }
                }
                let dist = |sh: [usize; 2]| (Distribution::<2>::new(sh, p, me, 0), Distribution::<2>::new(sh, p, me, 1));
                let ((px, py), (sx, sy), (ox, _)) = (dist(sp), dist(ss), dist(so));
                if m.shape_physical_x_pen() != px.sz || m.shape_physical_y_pen() != py.sz || m.shape_spectral_x_pen() != sx.sz || m.shape_spectral_y_pen() != sy.sz {
                    return Err("pencil shapes".into());
                }
                if m.ndarray_physical_x_pen().shape() != px.sz || m.ndarray_physical_y_pen().shape() != py.sz || m.ndarray_spectral_x_pen().shape() != sx.sz || m.ndarray_spectral_y_pen().shape() != sy.sz {
                    return Err("pencil arrays".into());
                }
                near(unit, "forward_mpi", &m.forward_mpi(&cut(&v, &py)), &cut(&f, &sx))?;
                let mut z = Array2::<$S>::from_elem(sx.sz, <$S>::bad());
                m.forward_inplace_mpi(&cut(&v, &py), &mut z);
                near(unit, "forward_inplace_mpi", &z, &cut(&f, &sx))?;
                near(unit, "backward_mpi", &m.backward_mpi(&cut(&vh, &sx)), &cut(&bw, &py))?;
                let mut z = Array2::<$P>::from_elem(py.sz, <$P>::bad());
                m.backward_inplace_mpi(&cut(&vh, &sx), &mut z);
                near(unit, "backward_inplace_mpi", &z, &cut(&bw, &py))?;
                near(unit, "to_ortho_mpi", &m.to_ortho_mpi(&cut(&vh, &sx)), &cut(&to, &ox))?;
                let mut z = Array2::<$S>::from_elem(ox.sz, <$S>::bad());
                m.to_ortho_inplace_mpi(&cut(&vh, &sx), &mut z);
                near(unit, "to_ortho_inplace_mpi", &z, &cut(&to, &ox))?;
                near(unit, "from_ortho_mpi", &m.from_ortho_mpi(&cut(&vo, &ox)), &cut(&fr, &sx))?;
                let mut z = Array2::<$S>::from_elem(sx.sz, <$S>::bad());
                m.from_ortho_inplace_mpi(&cut(&vo, &ox), &mut z);
                near(unit, "from_ortho_inplace_mpi", &z, &cut(&fr, &sx))?;
                for (d, s, g) in &grads {
                    near(unit, &format!("gradient_mpi {d:?} scale {s:?}"), &m.gradient_mpi(&cut(&vh, &sx), *d, *s), &cut(g, &ox))?;
                }
                // serial methods carried by the distributed space
                near(unit, "serial forward", &m.forward(&v), &f)?;
                near(unit, "serial backward", &m.backward(&vh), &bw)?;
                near(unit, "serial forward_par", &m.forward_par(&v), &f)?;
                near(unit, "serial backward_par", &m.backward_par(&vh), &bw)?;
                near(unit, "serial from_ortho", &m.from_ortho(&vo), &fr)?;
                near(unit, "serial from_ortho_par", &m.from_ortho_par(&vo), &fr)?;
                let mut z = Array2::<$S>::zeros(so);
                m.to_ortho_inplace(&vh, &mut z);
                near(unit, "serial to_ortho", &z, &to)?;
                near(unit, "serial to_ortho_par", &m.to_ortho_par(&vh), &to)?;
                for (d, s, g) in &grads {
                    near(unit, "serial gradient", &m.gradient(&vh, *d, *s), g)?;
                    near(unit, "serial gradient_par", &m.gradient_par(&vh, *d, *s), g)?;
                }
                macro_rules! movement {
                    ($g:expr, $x:expr, $y:expr, $T:ty, $ag_x:ident, $ag_y:ident, $g_x:ident, $g_xr:ident, $g_y:ident, $g_yr:ident, $s_x:ident, $s_xr:ident, $s_y:ident, $s_yr:ident, $t_xy:ident, $t_yx:ident) => {{
                        let new = |sh: [usize; 2]| Array2::<$T>::from_elem(sh, <$T>::bad());
                        let (x, y) = (cut(&$g, &$x), cut(&$g, &$y));
                        let sh = [$g.shape()[0], $g.shape()[1]];
                        let mut z = new(sh); m.$ag_x(&x, &mut z); near(unit, stringify!($ag_x), &z, &$g)?;
                        let mut z = new(sh); m.$ag_y(&y, &mut z); near(unit, stringify!($ag_y), &z, &$g)?;
                        if me == 0 {
                            let mut z = new(sh); m.$g_xr(&x, &mut z); near(unit, stringify!($g_xr), &z, &$g)?;
                            let mut z = new(sh); m.$g_yr(&y, &mut z); near(unit, stringify!($g_yr), &z, &$g)?;
                            let mut z = new($x.sz); m.$s_xr(&$g, &mut z); near(unit, stringify!($s_xr), &z, &x)?;
                            let mut z = new($y.sz); m.$s_yr(&$g, &mut z); near(unit, stringify!($s_yr), &z, &y)?;
                        } else {
                            m.$g_x(&x);
                            m.$g_y(&y);
                            let mut z = new($x.sz); m.$s_x(&mut z); near(unit, stringify!($s_x), &z, &x)?;
                            let mut z = new($y.sz); m.$s_y(&mut z); near(unit, stringify!($s_y), &z, &y)?;
                        }
                        let mut z = new($y.sz); m.$t_xy(&x, &mut z); near(unit, stringify!($t_xy), &z, &y)?;
                        let mut z = new($x.sz); m.$t_yx(&y, &mut z); near(unit, stringify!($t_yx), &z, &x)?;
                    }};
                }
                movement!(v, px, py, $P, all_gather_from_x_pencil_phys, all_gather_from_y_pencil_phys, gather_from_x_pencil_phys, gather_from_x_pencil_phys_root,
                    gather_from_y_pencil_phys, gather_from_y_pencil_phys_root, scatter_to_x_pencil_phys, scatter_to_x_pencil_phys_root, scatter_to_y_pencil_phys,
                    scatter_to_y_pencil_phys_root, transpose_x_to_y_phys, transpose_y_to_x_phys);
                movement!(vh, sx, sy, $S, all_gather_from_x_pencil_spec, all_gather_from_y_pencil_spec, gather_from_x_pencil_spec, gather_from_x_pencil_spec_root,
                    gather_from_y_pencil_spec, gather_from_y_pencil_spec_root, scatter_to_x_pencil_spec, scatter_to_x_pencil_spec_root, scatter_to_y_pencil_spec,
                    scatter_to_y_pencil_spec_root, transpose_x_to_y_spec, transpose_y_to_x_spec);
                Ok(())
            });
            body
    }};
}
macro_rules! space {
    ($c:expr, $only:expr, $all:expr, $name:expr, $p:expr, $a:expr, $b:expr, $P:ty, $S:ty) => {{
        let p: usize = $p;
        if !$only {
            $c.case(format!("space {} procs={p}", $name), |c| {
                c.evals += 40 * p as u64;
                let f = body!(p, $a, $b, $P, $S, (c.rng.next(), c.rng.1, c.rng.2));
                ranks(p, |u| f(&u))
            });
        }
        if $all.len() < 60 {
            $all.push(($name, body!(p, $a, $b, $P, $S, ($all.len() as u64 + 5, 0, 1.))));
        }
    }};
}
trait Val {
    fn rnd(r: &mut Rng) -> Self;
    fn bad() -> Self;
}
impl Val for f64 {
    fn rnd(r: &mut Rng) -> f64 {
        r.f()
    }
    fn bad() -> f64 {
        f64::NAN
    }
}
impl Val for C64 {
    fn rnd(r: &mut Rng) -> C64 {
        C64::new(r.f(), r.f())
    }
    fn bad() -> C64 {
        C64::new(f64::NAN, f64::NAN)
    }
}

/// only: the histories alone
fn c24(c: &mut Ctx, only: bool) {
    c.scaled = true;
    c.patterns = 3;
    const K: [&str; 6] = ["chebyshev", "dirichlet", "neumann", "dirichlet_neumann", "biharmonic_a", "biharmonic_b"];
    let mk = |k: usize, n: usize| match k % 6 {
        0 => chebyshev::<f64>(n),
        1 => cheb_dirichlet(n),
        2 => cheb_neumann(n),
        3 => cheb_dirichlet_neumann(n),
        4 => cheb_biharmonic_a(n),
        _ => cheb_biharmonic_b(n),
    };
    let ps: &[usize] = if c.thorough { &[1, 2, 3, 4, 5, 6] } else { &[1, 2, 3, 4, 5] };
    for &p in ps {
        let mut all: Vec<(String, Body)> = vec![];
        for k in 0..6 {
            for j in 0..6 {
                if !c.thorough && (k * 6 + j + p) % 3 == 1 && k != 0 && j != 0 {
                    continue;
                }
                for (n, m) in [(10usize, 13usize), (12, 12)] {
                    let (a, b) = (mk(k, n), mk(j, m));
                    space!(c, only, all, format!("{}({n})x{}({m})", K[k], K[j]), p, a, b, f64, f64);
                }
            }
            for n in [9usize, 12, 8] {
                if n / 2 + 1 < p {
                    continue;
                }
                let (a, b) = (fourier_r2c::<f64>(n), mk(k, 11));
                space!(c, only, all, format!("r2c({n})x{}(11)", K[k]), p, a, b, f64, C64);
            }
        }
        for (n, m) in [(9usize, 9usize), (8, 12), (11, 8)] {
            if m / 2 + 1 < p {
                continue;
            }
            let (a, b) = (fourier_c2c::<f64>(n), fourier_r2c::<f64>(m));
            space!(c, only, all, format!("c2c({n})xr2c({m})"), p, a, b, f64, C64);
            let (a, b) = (fourier_c2c::<f64>(n), fourier_c2c::<f64>(m));
            space!(c, only, all, format!("c2c({n})xc2c({m})"), p, a, b, C64, C64);
        }
        // what a rank did before does not matter: several spaces, one after the other, in the same processes
        for h in 0..if c.thorough { 60 } else if only { 25 } else { 12 } {
            let mut r = Rng(h * 31 + p as u64, 0, 1., 0);
            let ix: Vec<usize> = (0..8).map(|_| r.below(all.len())).collect();
            let names = ix.iter().map(|i| all[*i].0.as_str()).collect::<Vec<_>>().join(", ");
            c.case(format!("history procs={p}: {names}"), |c| {
                c.evals += 320 * p as u64;
                ranks(p, |u| ix.iter().try_for_each(|i| all[*i].1(&u).map_err(|e| format!("{}: {e}", all[*i].0))))
            });
        }
    }
}

fn main() {
    let mut args = std::env::args().skip(1);
    let prop = args.next().expect("property id");
    let (mut thorough, mut seed, mut hints, mut cur) = (false, 1u64, vec![], None);
    while let Some(a) = args.next() {
        match a.as_str() {
            "--thorough" => thorough = true,
            "--seed" => seed = args.next().unwrap().parse().unwrap_or(1),
            "--hints" => hints = args.next().unwrap().split(',').filter_map(|x| x.parse().ok()).collect(),
            "--cur" => cur = args.next(),
            _ => {}
        }
    }
    std::panic::set_hook(Box::new(|_| {}));
    let mut c = Ctx::new(seed, thorough, hints, cur);
    match prop.as_str() {
        "C22" => c22(&mut c),
        "C23" => {
            c23_history(&mut c);
            c23(&mut c)
        }
        "C24" => c24(&mut c, false),
        "C26" => {
            c23_history(&mut c);
            c24(&mut c, true);
            c25(&mut c)
        }
        "C25" => c25(&mut c),
        _ => {
            println!("{{\"error\":\"unknown property\"}}");
            std::process::exit(3);
        }
    }
    c.report(&prop);
}
