//! The value of an operation depends on its arguments only, not on what ran before or runs at the same time.
//! Every compared operation is first evaluated alone in a process of its own; the same operations, mixed with all
//! others on other bases of the same and of other sizes, on new and on used objects and on several threads, have
//! to give the same values.
use crate::base1d::{compo, C64};
use crate::util::*;
use funspace::traits::*;
use funspace::*;
use ndarray::{Array, Array2, Dim, Dimension, IntoDimension};
use std::panic::{catch_unwind, AssertUnwindSafe};

const KINDS: [&str; 8] = ["chebyshev", "dirichlet", "neumann", "dirichlet_neumann", "biharmonic_a", "biharmonic_b", "r2c", "c2c"];
const SIZES: [usize; 11] = [10, 11, 12, 13, 16, 17, 18, 20, 24, 32, 33];

#[derive(Clone)]
enum B {
    R(BaseR2r<f64>),
    F(BaseR2c<f64>),
    C(BaseC2c<f64>),
}
macro_rules! each {
    ($s:expr, $b:ident => $e:expr) => {
        match $s {
            B::R($b) => $e,
            B::F($b) => $e,
            B::C($b) => $e,
        }
    };
}
fn make(k: usize, n: usize) -> B {
    match KINDS[k] {
        "r2c" => B::F(fourier_r2c(n)),
        "c2c" => B::C(fourier_c2c(n)),
        s => B::R(compo(s, n)),
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op {
    To,
    From,
    Fwd,
    Bwd,
    Grad(usize),
    Diff(usize),
    Pinv(usize),
    Stencil,
    StencilInv,
    Lap,
    LapPinv,
    Coords,
    Query,
    /// operation 0..5 along an axis; serial, in place, parallel, parallel in place
    Lane(usize, usize, usize),
    Space(usize, bool),
    SpaceGrad([usize; 2], bool, bool),
    SpaceQuery,
    /// an operation with wrong lengths: it fails, always or never
    Bad(usize),
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Item {
    k: usize,
    n: usize,
    op: Op,
    var: u64,
}
trait Flat {
    fn flat(&self, o: &mut Vec<f64>);
}
impl Flat for f64 {
    fn flat(&self, o: &mut Vec<f64>) {
        o.push(*self);
    }
}
impl Flat for C64 {
    fn flat(&self, o: &mut Vec<f64>) {
        o.push(self.re);
        o.push(self.im);
    }
}
impl<T: Flat> Flat for Vec<T> {
    fn flat(&self, o: &mut Vec<f64>) {
        o.push(self.len() as f64);
        self.iter().for_each(|x| x.flat(o));
    }
}
impl<T: Flat, D: Dimension> Flat for Array<T, D> {
    fn flat(&self, o: &mut Vec<f64>) {
        self.shape().iter().for_each(|x| o.push(*x as f64));
        self.iter().for_each(|x| x.flat(o));
    }
}
impl<S: Flat, T: Flat> Flat for (S, T) {
    fn flat(&self, o: &mut Vec<f64>) {
        self.0.flat(o);
        self.1.flat(o);
    }
}
fn fl<T: Flat>(x: T) -> Vec<f64> {
    let mut o = vec![];
    x.flat(&mut o);
    o
}
trait Mk: Copy + num_traits::Zero {
    fn mk(r: &mut Rng) -> Self;
}
impl Mk for f64 {
    fn mk(r: &mut Rng) -> f64 {
        r.f()
    }
}
impl Mk for C64 {
    fn mk(r: &mut Rng) -> C64 {
        C64::new(r.f(), r.f())
    }
}
fn data<T: Mk>(r: &mut Rng, n: usize) -> Vec<T> {
    (0..n).map(|_| T::mk(r)).collect()
}
fn arr<T: Mk>(r: &mut Rng, sh: [usize; 2]) -> Array2<T> {
    Array2::from_shape_vec(sh, data(r, sh[0] * sh[1])).unwrap()
}
fn slice_op(b: &B, op: Op, r: &mut Rng) -> Vec<f64> {
    macro_rules! one {
        ($b:expr, $f:ident, $I:ty, $O:ty, $li:ident, $lo:ident $(, $x:expr)?) => {{
            let v = data::<$I>(r, $b.$li());
            let mut o = vec![<$O as num_traits::Zero>::zero(); $b.$lo()];
            $b.$f(&v, &mut o $(, $x)?);
            fl(o)
        }};
    }
    macro_rules! ops {
        ($b:expr, $P:ty, $S:ty) => {
            match op {
                Op::To => one!($b, to_ortho_slice, $S, $S, len_spec, len_orth),
                Op::From => one!($b, from_ortho_slice, $S, $S, len_orth, len_spec),
                Op::Fwd => one!($b, forward_slice, $P, $S, len_phys, len_spec),
                Op::Bwd => one!($b, backward_slice, $S, $P, len_spec, len_phys),
                Op::Grad(d) => one!($b, gradient_slice, $S, $S, len_spec, len_orth, d),
                _ => unreachable!(),
            }
        };
    }
    match b {
        B::R(b) => ops!(b, f64, f64),
        B::F(b) => ops!(b, f64, C64),
        B::C(b) => ops!(b, C64, C64),
    }
}
fn lane_op(b: &B, w: usize, axis: usize, how: usize, r: &mut Rng) -> Vec<f64> {
    macro_rules! one {
        ($b:expr, $f:ident, $fi:ident, $fp:ident, $fip:ident, $I:ty, $O:ty, $li:ident, $lo:ident $(, $x:expr)?) => {{
            let sh = |n: usize| if axis == 0 { [n, 9] } else { [9, n] };
            let v = arr::<$I>(r, sh($b.$li()));
            let mut o = Array2::<$O>::zeros(sh($b.$lo()));
            match how {
                0 => o = $b.$f(&v $(, $x)?, axis),
                1 => $b.$fi(&v, &mut o $(, $x)?, axis),
                2 => o = $b.$fp(&v $(, $x)?, axis),
                _ => $b.$fip(&v, &mut o $(, $x)?, axis),
            }
            fl(o)
        }};
    }
    macro_rules! ops {
        ($b:expr, $P:ty, $S:ty) => {
            match w {
                0 => one!($b, to_ortho, to_ortho_inplace, to_ortho_par, to_ortho_inplace_par, $S, $S, len_spec, len_orth),
                1 => one!($b, from_ortho, from_ortho_inplace, from_ortho_par, from_ortho_inplace_par, $S, $S, len_orth, len_spec),
                2 => one!($b, forward, forward_inplace, forward_par, forward_inplace_par, $P, $S, len_phys, len_spec),
                3 => one!($b, backward, backward_inplace, backward_par, backward_inplace_par, $S, $P, len_spec, len_phys),
                w => one!($b, gradient, gradient_inplace, gradient_par, gradient_inplace_par, $S, $S, len_spec, len_orth, w - 3),
            }
        };
    }
    match b {
        B::R(b) => ops!(b, f64, f64),
        B::F(b) => ops!(b, f64, C64),
        B::C(b) => ops!(b, C64, C64),
    }
}
fn arrn<T: Mk, const N: usize>(r: &mut Rng, sh: [usize; N]) -> Array<T, Dim<[usize; N]>>
where
    Dim<[usize; N]>: Dimension,
    [usize; N]: IntoDimension<Dim = Dim<[usize; N]>>,
{
    Array::from_shape_vec(sh, data(r, sh.iter().product())).unwrap()
}
/// spaces of one to three dimensions
fn space_op(b: &B, n: usize, op: Op, r: &mut Rng) -> Vec<f64> {
    let (k1, n1) = ((n + r.0 as usize) % 6, 10 + n % 3);
    let dim = if r.0 % 2 == 0 { 2 } else { [1, 3][n % 2] };
    macro_rules! run {
        ($s:expr, $N:expr, $P:ty, $S:ty) => {{
            let s = $s;
            match op {
                Op::Space(w, par) => match (w, par) {
                    (0, false) => fl(s.to_ortho(&arrn::<$S, $N>(r, s.shape_spectral()))),
                    (0, true) => fl(s.to_ortho_par(&arrn::<$S, $N>(r, s.shape_spectral()))),
                    (1, false) => fl(s.from_ortho(&arrn::<$S, $N>(r, s.shape_spectral_ortho()))),
                    (1, true) => fl(s.from_ortho_par(&arrn::<$S, $N>(r, s.shape_spectral_ortho()))),
                    (2, false) => fl(s.forward(&arrn::<$P, $N>(r, s.shape_physical()))),
                    (2, true) => fl(s.forward_par(&arrn::<$P, $N>(r, s.shape_physical()))),
                    (_, false) => fl(s.backward(&arrn::<$S, $N>(r, s.shape_spectral()))),
                    (_, true) => fl(s.backward_par(&arrn::<$S, $N>(r, s.shape_spectral()))),
                },
                Op::SpaceGrad(d, scaled, par) => {
                    let d: [usize; $N] = std::array::from_fn(|i| d[i % 2]);
                    let sc = if scaled { Some(std::array::from_fn::<f64, $N, _>(|i| [1.5, -2., 2.5][i] + r.f())) } else { None };
                    let v = arrn::<$S, $N>(r, s.shape_spectral());
                    if par { fl(s.gradient_par(&v, d, sc)) } else { fl(s.gradient(&v, d, sc)) }
                }
                _ => {
                    let mut o = vec![];
                    for i in 0..$N {
                        s.coords_axis(i).flat(&mut o);
                        s.coords()[i].flat(&mut o);
                        s.stencil(i).flat(&mut o);
                        s.stencil_inv(i).flat(&mut o);
                        s.laplacian(i).flat(&mut o);
                        s.laplacian_pinv(i).flat(&mut o);
                        text(&format!("{:?}", s.base_kind(i)), &mut o);
                        o.extend(s.shape_physical().iter().chain(s.shape_spectral().iter()).map(|x| *x as f64));
                    }
                    o
                }
            }
        }};
    }
    let (q, q2) = (|| compo(KINDS[k1], n1), || compo(KINDS[(k1 + 2) % 6], n1 + 1));
    match (b, dim) {
        (B::R(b), 1) => run!(Space1::new(b), 1, f64, f64),
        (B::F(b), 1) => run!(Space1::new(b), 1, f64, C64),
        (B::C(b), 1) => run!(Space1::new(b), 1, C64, C64),
        (B::R(b), 2) => run!(Space2::new(b, &q()), 2, f64, f64),
        (B::F(b), 2) => run!(Space2::new(b, &q()), 2, f64, C64),
        (B::C(b), 2) if k1 % 2 == 0 => run!(Space2::new(b, &fourier_r2c::<f64>(n1)), 2, f64, C64),
        (B::C(b), 2) => run!(Space2::new(b, &fourier_c2c::<f64>(n1)), 2, C64, C64),
        (B::R(b), _) => run!(Space3::new(&q2(), &q(), b), 3, f64, f64),
        (B::F(b), _) => run!(Space3::new(b, &q(), &q2()), 3, f64, C64),
        (B::C(b), _) if k1 % 2 == 0 => run!(Space3::new(b, &fourier_r2c::<f64>(n1), &q()), 3, f64, C64),
        (B::C(b), _) => run!(Space3::new(b, &fourier_c2c::<f64>(n1), &fourier_c2c::<f64>(n1 + 1)), 3, C64, C64),
    }
}
fn text(s: &str, o: &mut Vec<f64>) {
    o.extend(s.bytes().map(f64::from));
}
fn eval(it: &Item, b: &B) -> Vec<f64> {
    let mut r = Rng(it.var * 77 + it.n as u64, 0, 1., 0);
    match it.op {
        Op::To | Op::From | Op::Fwd | Op::Bwd | Op::Grad(_) => slice_op(b, it.op, &mut r),
        Op::Diff(d) => each!(b, b => fl(b.diffmat(d))),
        Op::Pinv(d) => each!(b, b => fl(b.diffmat_pinv(d))),
        Op::Stencil => each!(b, b => fl(b.stencil())),
        Op::StencilInv => each!(b, b => fl(b.stencil_inv())),
        Op::Lap => each!(b, b => fl(b.laplacian())),
        Op::LapPinv => each!(b, b => fl(b.laplacian_pinv())),
        Op::Coords => each!(b, b => fl(b.coords())),
        Op::Query => each!(b, b => {
            let mut o = vec![b.len_phys() as f64, b.len_spec() as f64, b.len_orth() as f64];
            text(&format!("{:?}", b.base_kind()), &mut o);
            o
        }),
        Op::Bad(how) => {
            rejected(b, it.n, how);
            vec![]
        }
        Op::Lane(w, axis, how) => lane_op(b, w, axis, how, &mut r),
        _ => space_op(b, it.n, it.op, &mut r),
    }
}
/// an operation that fails: wrong lengths
fn rejected(b: &B, n: usize, how: usize) {
    macro_rules! bad {
        ($b:expr, $p:expr, $s:expr) => {{
            let (p, s) = ($p, $s);
            match how % 8 {
                0 => $b.from_ortho_slice(&vec![s; $b.len_orth() + 1 + how / 8], &mut vec![s; $b.len_spec()]),
                1 => $b.to_ortho_slice(&vec![s; $b.len_spec()], &mut vec![s; $b.len_orth() - 1]),
                2 => $b.forward_slice(&vec![p; n + 3], &mut vec![s; $b.len_spec()]),
                3 => $b.forward_slice(&vec![p; n], &mut vec![s; $b.len_spec() - 1]),
                4 => $b.backward_slice(&vec![s; $b.len_spec() + 1], &mut vec![p; n]),
                5 => $b.gradient_slice(&vec![s; $b.len_spec()], &mut vec![s; $b.len_orth() + 2], 1 + how / 8),
                6 => {
                    $b.forward(&Array2::from_elem([n + 1, 3], p), 0);
                }
                _ => {
                    $b.backward_par(&Array2::from_elem([2, $b.len_spec() + 1], s), 1);
                }
            }
        }};
    }
    match b {
        B::R(b) => bad!(b, 1.5, 2.5),
        B::F(b) => bad!(b, 1.5, C64::new(2.5, 1.)),
        B::C(b) => bad!(b, C64::new(1.5, 3.), C64::new(2.5, 1.)),
    }
}
fn ops(prop: &str, k: usize) -> Vec<Op> {
    let comp = (1..6).contains(&k);
    let four = k >= 6;
    use Op::*;
    let lanes = |hows: &[usize]| {
        let mut v = vec![];
        for w in 0..6 {
            for axis in 0..2 {
                v.extend(hows.iter().map(|h| Lane(w, axis, *h)));
            }
        }
        v
    };
    match prop {
        "C01" if comp => vec![To, Stencil],
        "C02" if comp => vec![From],
        "C03" if comp => vec![To, Bwd],
        "C04" => vec![StencilInv],
        "C05" if !four => (1..5).map(Diff).collect(),
        "C06" if !four => (1..5).map(Pinv).chain([LapPinv]).collect(),
        "C07" if !four => (0..6).map(Grad).collect(),
        "C08" if k == 0 => vec![Fwd, Bwd],
        "C09" if comp => vec![Fwd, Bwd],
        "C10" if four => (0..5).map(Grad).chain((1..5).map(Diff)).chain([Lap]).collect(),
        "C11" if four => (1..5).map(Pinv).chain([LapPinv]).collect(),
        "C12" if four => vec![Fwd, Bwd],
        "C13" => vec![Coords],
        "C14" => lanes(&[0, 1]),
        "C15" => lanes(&[2, 3]),
        "C17" => (0..4).flat_map(|w| [Space(w, false), Space(w, true)]).collect(),
        "C18" => [[0, 1], [1, 0], [2, 1], [1, 3], [0, 0]].iter().flat_map(|d| [SpaceGrad(*d, false, false), SpaceGrad(*d, true, false), SpaceGrad(*d, true, true)]).collect(),
        "C19" => vec![SpaceQuery],
        "C20" => vec![Query, To, Coords],
        "C21" => vec![To, From, Grad(1), Grad(2)],
        _ => vec![],
    }
}
/// everything, more and larger sizes: the property that is only about this
const WIDE: &str = "C26";
const ALL: [&str; 20] = ["C01", "C02", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C17", "C18", "C19", "C20", "C03", "C21"];
fn items(prop: &str) -> Vec<Item> {
    let mut v = vec![];
    if prop == WIDE {
        use Op::Bad;
        let mut r = Rng(3, 0, 1., 0);
        for p in ALL {
            let mut w = items(p);
            let mut r = Rng(p.as_bytes()[2] as u64 + 10, 0, 1., 0);
            while w.len() > 60 {
                let i = r.below(w.len());
                w.swap_remove(i);
            }
            v.extend(w);
            // a size the others do not use, several operations of it
            for k in 0..8 {
                if !matches!(p, "C17" | "C18" | "C19") {
                    for op in ops(p, k) {
                        if r.below(12) == 0 {
                            let n = [64, 65, 5, 8, 100][r.below(5)];
                            if catch_unwind(|| make(k, n)).is_ok() {
                                v.push(Item { k, n, op, var: r.below(2) as u64 });
                            }
                        }
                    }
                }
            }
        }
        for k in 0..8 {
            for how in 0..24 {
                v.push(Item { k, n: SIZES[r.below(11)], op: Bad(how), var: 0 });
            }
        }
        return v;
    }
    for k in 0..8 {
        for op in ops(prop, k) {
            for n in SIZES {
                for var in 0..2 {
                    v.push(Item { k, n, op, var });
                }
            }
        }
    }
    let mut r = Rng(7, 0, 1., 0);
    while v.len() > 480 {
        let i = r.below(v.len());
        v.swap_remove(i);
    }
    v
}
/// the process of its own: one item, as bits
pub fn alone(prop: &str, from: usize) {
    if let Some(it) = items(prop).get(from) {
        let s = catch_unwind(|| eval(it, &make(it.k, it.n))).map_or("panic".into(), |v| v.iter().map(|x| format!("{:x}", x.to_bits())).collect::<Vec<_>>().join(" "));
        println!("{s}");
    }
}
fn check(it: &Item, got: &std::thread::Result<Vec<f64>>, want: &Option<Vec<f64>>) -> Result<(), String> {
    match (got, want) {
        (Err(_), None) => Ok(()),
        (Err(p), Some(_)) => Err(format!("{it:?} panics here ({}), alone it does not", panic_msg(p))),
        (Ok(_), None) => Err(format!("{it:?} panics alone, here it does not")),
        (Ok(a), Some(b)) => {
            if a.len() != b.len() {
                return Err(format!("{it:?}: {} values, alone {}", a.len(), b.len()));
            }
            let big = b.iter().fold(0f64, |m, x| if x.is_finite() { m.max(x.abs()) } else { m });
            match a.iter().zip(b).position(|(x, y)| !(x.to_bits() == y.to_bits() || (x - y).abs() <= 1e-12 * big || (x.is_nan() && y.is_nan()))) {
                None => Ok(()),
                Some(i) => Err(format!("{it:?}: value {i} is {:e}, alone {:e}", a[i], b[i])),
            }
        }
    }
}
fn name(it: &Item) -> String {
    format!("{} n={} {:?} data={}", KINDS[it.k], it.n, it.op, it.var)
}
pub fn run(c: &mut Ctx, prop: &str) {
    let its = items(prop);
    if its.is_empty() {
        return;
    }
    let exe = std::env::current_exe().unwrap();
    let next = std::sync::atomic::AtomicUsize::new(0);
    let want = std::sync::Mutex::new(vec![None; its.len()]);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if i >= its.len() {
                    break;
                }
                let o = std::process::Command::new(&exe).args([prop, "--alone", &i.to_string()]).output().unwrap();
                let t = String::from_utf8_lossy(&o.stdout).to_string();
                let v: Option<Vec<f64>> = t.split_whitespace().map(|x| u64::from_str_radix(x, 16).ok().map(f64::from_bits)).collect();
                want.lock().unwrap()[i] = v.filter(|_| o.status.success());
            });
        }
    });
    let want = want.into_inner().unwrap();
    let all: Vec<Item> = ALL.iter().flat_map(|p| items(p)).collect();
    let steps = if c.thorough || c.search.is_some() { if prop == WIDE { 400_000 } else { 20_000 } } else if prop == WIDE { 60_000 } else { 3_000 };
    let seed = c.rng.next() ^ c.search.is_some() as u64;
    // one thread: a case is a history
    let mut pool: Vec<(usize, usize, B)> = vec![];
    let mut r = Rng(seed, 0, 1., 0);
    let end = std::time::Instant::now() + std::time::Duration::from_secs(if c.thorough || c.search.is_some() { 60 } else if prop == WIDE { 25 } else { 8 });
    let mut last = its[0];
    for step in 0..steps {
        if std::time::Instant::now() > end || !c.failures.is_empty() {
            break;
        }
        let j = r.below(its.len());
        // half of the time another operation or base of the size used just before
        let near = r.below(2) == 0;
        let j = if near { (0..its.len()).map(|d| (j + d) % its.len()).find(|j| its[*j].n == last.n && its[*j] != last).unwrap_or(j) } else { j };
        let (it, w) = if r.below(4) == 0 { (all[r.below(all.len())], None) } else { (its[j], Some(&want[j])) };
        let used = r.below(3) > 0;
        let prev = last;
        let at = pool.iter().position(|p| used && (p.0, p.1) == (it.k, it.n)).unwrap_or_else(|| {
            pool.push((it.k, it.n, make(it.k, it.n)));
            pool.len() - 1
        });
        if r.below(40) == 0 {
            let how = r.below(24);
            let _ = catch_unwind(AssertUnwindSafe(|| rejected(&pool[at].2, it.n, how)));
        }
        // a clone is as good as the original
        let copy = if r.below(4) == 0 { Some(pool[at].2.clone()) } else { None };
        let got = catch_unwind(AssertUnwindSafe(|| eval(&it, copy.as_ref().unwrap_or(&pool[at].2))));
        if copy.is_some() && r.below(2) == 0 {
            pool[at].2 = copy.unwrap();
        }
        last = it;
        if let Some(w) = w {
            c.evals += 1;
            let bad = check(&it, &got, w);
            if step % 50 == 0 || bad.is_err() {
                c.case(format!("history step={step}: {} after {}", name(&it), name(&prev)), |_| bad.clone());
            }
        }
    }
    // several threads at once, on shared objects
    let shared: Vec<B> = its.iter().map(|it| make(it.k, it.n)).collect();
    let bad = std::sync::Mutex::new(None);
    let count = std::sync::atomic::AtomicU64::new(0);
    std::thread::scope(|s| {
        for t in 0..if prop == WIDE { 12 } else { 6 } {
            let (its, want, shared, bad, count) = (&its, &want, &shared, &bad, &count);
            s.spawn(move || {
                let mut r = Rng(seed ^ (t + 1), 0, 1., 0);
                let end = std::time::Instant::now() + std::time::Duration::from_secs(if prop == WIDE { 8 } else { 3 });
                for step in 0..steps / 6 {
                    if std::time::Instant::now() > end || bad.lock().unwrap().is_some() {
                        break;
                    }
                    // now and then all threads the same item, at about the same time
                    let j = if step % 8 < 4 { (step / 8 * 31 + seed as usize % 97) % its.len() } else { r.below(its.len()) };
                    if r.below(50) == 0 {
                        let how = r.below(24);
                        let _ = catch_unwind(AssertUnwindSafe(|| rejected(&shared[j], its[j].n, how)));
                    }
                    let got = catch_unwind(AssertUnwindSafe(|| eval(&its[j], &shared[j])));
                    count.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    if let Err(e) = check(&its[j], &got, &want[j]) {
                        *bad.lock().unwrap() = Some((name(&its[j]), e));
                    }
                }
            });
        }
    });
    c.evals += count.into_inner();
    let bad = bad.into_inner().unwrap();
    c.case(format!("history on several threads{}", bad.as_ref().map_or(String::new(), |b| format!(": {}", b.0))), |_| bad.clone().map_or(Ok(()), |b| Err(b.1)));
    if prop == WIDE {
        together(c, seed);
    }
}
/// one object (and clones of it), one operation, eight threads with data of their own
fn together(c: &mut Ctx, seed: u64) {
    use Op::*;
    let ms = if c.thorough || c.search.is_some() { 250 } else { 40 };
    for k in 0..8 {
        let n = [16, 33, 24, 17][(k + seed as usize) % 4];
        for op in [To, From, Fwd, Bwd, Grad(1), Grad(2), Diff(1), Pinv(2), StencilInv, LapPinv, Coords, Lane(2, 0, 2), Lane(3, 1, 3), Lane(0, 1, 1), Space(2, false), Space(3, true), SpaceGrad([1, 1], true, true)] {
            let fresh = |var: u64| catch_unwind(|| eval(&Item { k, n, op, var }, &make(k, n)));
            let want: Vec<Option<Vec<f64>>> = (0..8).map(|t| fresh(2 * t).ok()).collect();
            let b = make(k, n);
            let (bad, count) = (std::sync::Mutex::new(None), std::sync::atomic::AtomicU64::new(0));
            std::thread::scope(|s| {
                for t in 0..8u64 {
                    let (own, b, want, bad, count) = (b.clone(), &b, &want, &bad, &count);
                    s.spawn(move || {
                        let it = Item { k, n, op, var: 2 * t };
                        let end = std::time::Instant::now() + std::time::Duration::from_millis(ms);
                        while std::time::Instant::now() < end {
                            let got = catch_unwind(AssertUnwindSafe(|| eval(&it, if t % 2 == 0 { b } else { &own })));
                            count.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                            if let Err(e) = check(&it, &got, &want[t as usize]) {
                                *bad.lock().unwrap() = Some(e);
                                return;
                            }
                        }
                    });
                }
            });
            c.evals += count.into_inner();
            let bad = bad.into_inner().unwrap();
            c.case(format!("eight threads on one object and clones of it: {}", name(&Item { k, n, op, var: 0 })), |_| bad.clone().map_or(Ok(()), Err));
        }
    }
}
