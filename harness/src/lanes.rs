//! Run-time evaluation of the lane contracts (C14, C16) and the axis part of C15.
use crate::base1d::{compo, nmin_solve, C64, COMPO};
use crate::util::*;
use funspace::traits::*;
use funspace::*;
use ndarray::{ArrayD, Axis, IxDyn};

pub trait El: Copy + std::fmt::Debug + num_traits::Zero + Send + Sync + 'static {
    fn rnd(r: &mut Rng) -> Self;
    fn junk(i: usize) -> Self;
    fn same(a: Self, b: Self) -> bool;
    fn near(a: Self, b: Self, tol: f64) -> bool;
}
fn feq(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}
impl El for f64 {
    fn rnd(r: &mut Rng) -> Self {
        r.f()
    }
    fn junk(i: usize) -> Self {
        if i % 3 == 0 { f64::NAN } else { 1e30 + i as f64 * 1e27 }
    }
    fn same(a: Self, b: Self) -> bool {
        feq(a, b)
    }
    fn near(a: Self, b: Self, tol: f64) -> bool {
        (a - b).abs() <= tol
    }
}
impl El for C64 {
    fn rnd(r: &mut Rng) -> Self {
        C64::new(r.f(), r.f())
    }
    fn junk(i: usize) -> Self {
        C64::new(f64::junk(i), f64::junk(i + 1))
    }
    fn same(a: Self, b: Self) -> bool {
        feq(a.re, b.re) && feq(a.im, b.im)
    }
    fn near(a: Self, b: Self, tol: f64) -> bool {
        (a - b).norm() <= tol
    }
}
pub struct Op<'a, I, O> {
    pub name: &'static str,
    pub li: usize,
    pub lo: usize,
    pub slice: Box<dyn Fn(&[I], &mut [O]) + 'a>,
    pub alloc: Box<dyn Fn(&ArrayD<I>, usize) -> ArrayD<O> + 'a>,
    pub alloc_par: Box<dyn Fn(&ArrayD<I>, usize) -> ArrayD<O> + 'a>,
    pub inpl: Box<dyn Fn(&ArrayD<I>, &mut ArrayD<O>, usize) + 'a>,
    pub inpl_par: Box<dyn Fn(&ArrayD<I>, &mut ArrayD<O>, usize) + 'a>,
}
pub fn rnd_arr<T: El>(c: &mut Ctx, sh: &[usize]) -> ArrayD<T> {
    let n: usize = sh.iter().product();
    let v: Vec<T> = (0..n).map(|_| T::rnd(&mut c.rng)).collect();
    ArrayD::from_shape_vec(IxDyn(sh), v).unwrap()
}
pub fn junk_arr<T: El>(sh: &[usize], off: usize) -> ArrayD<T> {
    let n: usize = sh.iter().product();
    ArrayD::from_shape_vec(IxDyn(sh), (0..n).map(|i| T::junk(i + off)).collect()).unwrap()
}
pub fn same_arr<T: El>(what: &str, a: &ArrayD<T>, b: &ArrayD<T>) -> Result<(), String> {
    if a.shape() != b.shape() {
        return Err(format!("{what}: shape {:?} expected {:?}", a.shape(), b.shape()));
    }
    for ((ix, x), y) in a.indexed_iter().zip(b.iter()) {
        if !T::same(*x, *y) {
            return Err(format!("{what}: element {:?} is {:?} expected {:?}", ix, x, y));
        }
    }
    Ok(())
}
/// one-dimensional operation on every lane
pub fn by_lane<I: El, O: El>(op: &Op<I, O>, x: &ArrayD<I>, axis: usize) -> ArrayD<O> {
    let mut sh = x.shape().to_vec();
    sh[axis] = op.lo;
    let mut out = ArrayD::<O>::zeros(IxDyn(&sh));
    for (a, mut b) in x.lanes(Axis(axis)).into_iter().zip(out.lanes_mut(Axis(axis))) {
        let v: Vec<I> = a.iter().copied().collect();
        let mut w = vec![O::zero(); op.lo];
        (op.slice)(&v, &mut w);
        for (p, q) in b.iter_mut().zip(w) {
            *p = q;
        }
    }
    out
}
/// (shape with the axis extent replaced by 0, axis)
fn frames(thorough: bool, small: bool) -> Vec<(Vec<usize>, usize)> {
    let mut v = vec![
        (vec![0], 0),
        (vec![0, 3], 0),
        (vec![3, 0], 1),
        (vec![0, 1], 0),
        (vec![1, 0], 1),
        (vec![0, 2, 3], 0),
        (vec![2, 0, 3], 1),
        (vec![3, 2, 0], 2),
        (vec![0, 37], 0),
        (vec![37, 0], 1),
        (vec![2, 0, 2, 3], 1),
        (vec![2, 2, 0, 3], 2),
    ];
    if small {
        // all combinations of thin extents, and no lane at all
        for a in 1..4usize {
            for b in 1..4usize {
                if a == 1 || b == 1 {
                    v.extend([(vec![0, a, b], 0), (vec![a, 0, b], 1), (vec![a, b, 0], 2)]);
                }
            }
        }
        v.extend([(vec![0, 0], 0), (vec![0, 0], 1), (vec![2, 0, 1, 1], 1), (vec![0, 1, 2, 1], 0), (vec![1, 2, 1, 0], 3)]);
    }
    if thorough {
        v.extend([
            (vec![0, 260], 0),
            (vec![260, 0], 1),
            (vec![0, 9, 7], 0),
            (vec![9, 0, 7], 1),
            (vec![9, 7, 0], 2),
            (vec![2, 3, 2, 0], 3),
            (vec![0, 3, 2, 2], 0),
            (vec![2, 0, 2, 1, 3], 1),
            (vec![2, 2, 1, 2, 0], 4),
        ]);
    }
    v
}
fn with(sh: &[usize], axis: usize, n: usize) -> Vec<usize> {
    let mut s = sh.to_vec();
    s[axis] = n;
    s
}
fn run_op<I: El, O: El>(c: &mut Ctx, which: &str, base: &str, op: &Op<I, O>) {
    for (fr, axis) in frames(c.thorough || c.search.is_some(), op.li <= 12) {
        // also frames whose other extents equal the lengths of the axis
        let mut shs = vec![fr.clone()];
        if fr.len() == 2 && fr[1 - axis] == 3 {
            shs.push(with(&fr, 1 - axis, op.li));
            shs.push(with(&fr, 1 - axis, op.lo));
        }
        for fr in shs {
            let (si, so) = (with(&fr, axis, op.li), with(&fr, axis, op.lo));
            match which {
                "C14" => c.case(format!("lanes base={base} op={} shape={si:?} axis={axis}", op.name), |c| {
                    let x = rnd_arr::<I>(c, &si);
                    let want = by_lane(op, &x, axis);
                    c.evals += 4 * want.len() as u64;
                    same_arr("allocating", &(op.alloc)(&x, axis), &want)?;
                    same_arr("allocating parallel", &(op.alloc_par)(&x, axis), &want)?;
                    let mut o = junk_arr::<O>(&so, 0);
                    (op.inpl)(&x, &mut o, axis);
                    same_arr("in place (prefilled output)", &o, &want)?;
                    let mut o = junk_arr::<O>(&so, 1);
                    (op.inpl_par)(&x, &mut o, axis);
                    same_arr("in place parallel (prefilled output)", &o, &want)?;
                    // other lanes: change everything outside the first lane
                    let mut y = rnd_arr::<I>(c, &si);
                    for (mut a, b) in y.lanes_mut(Axis(axis)).into_iter().zip(x.lanes(Axis(axis))).take(1) {
                        a.assign(&b);
                    }
                    let z = (op.alloc)(&y, axis);
                    if let (Some(a), Some(b)) = (z.lanes(Axis(axis)).into_iter().next(), want.lanes(Axis(axis)).into_iter().next()) {
                        if !a.iter().zip(b.iter()).all(|(p, q)| O::same(*p, *q)) {
                            return Err("first lane depends on the other lanes".into());
                        }
                    }
                    Ok(())
                }),
                "C15" => c.case(format!("variants base={base} op={} shape={si:?} axis={axis}", op.name), |c| {
                    let x = rnd_arr::<I>(c, &si);
                    let want = (op.alloc)(&x, axis);
                    c.evals += 3 * want.len() as u64;
                    same_arr("parallel vs serial", &(op.alloc_par)(&x, axis), &want)?;
                    let mut o = junk_arr::<O>(&so, 0);
                    (op.inpl)(&x, &mut o, axis);
                    same_arr("in place vs allocating", &o, &want)?;
                    let mut o = junk_arr::<O>(&so, 2);
                    (op.inpl_par)(&x, &mut o, axis);
                    same_arr("in place parallel vs allocating", &o, &want)
                }),
                _ => {
                    for (di, dz) in [(0i64, 0i64), (1, 0), (-1, 0), (2, 0), (-2, 0), (0, 1), (0, -1), (0, 2), (0, -2), (1, 1), (-1, -1), (4, 0), (0, 4), (-4, 0), (0, -4)] {
                        c.case(format!("extents base={base} op={} shape={si:?} axis={axis} in{di:+} out{dz:+}", op.name), |c| {
                            c.evals += 4;
                            let ni = (op.li as i64 + di).max(0) as usize;
                            let no = (op.lo as i64 + dz).max(0) as usize;
                            let bad = ni != op.li || no != op.lo;
                            let x = rnd_arr::<I>(c, &with(&fr, axis, ni));
                            if dz == 0 {
                                let p1 = panics(|| { let _ = (op.alloc)(&x, axis); });
                                let p2 = panics(|| { let _ = (op.alloc_par)(&x, axis); });
                                if p1 != bad || p2 != bad {
                                    return Err(format!("allocating: extent {ni} (base requires {}) panics: {p1} (parallel {p2})", op.li));
                                }
                            }
                            for (nm, f) in [("in place", &op.inpl), ("in place parallel", &op.inpl_par)] {
                                let mut o = junk_arr::<O>(&with(&fr, axis, no), 0);
                                let keep = o.clone();
                                let p = panics(|| f(&x, &mut o, axis));
                                if p != bad {
                                    return Err(format!("{nm}: extents {ni}->{no} (base requires {}->{}) panics: {p}", op.li, op.lo));
                                }
                                if bad {
                                    same_arr(&format!("{nm}: rejected call wrote"), &o, &keep)?;
                                }
                            }
                            Ok(())
                        });
                    }
                    if fr.len() == 2 && fr[1 - axis] > 1 {
                        c.case(format!("other extent base={base} op={} shape={si:?} axis={axis}", op.name), |c| {
                            c.evals += 2;
                            let x = rnd_arr::<I>(c, &si);
                            for (nm, f) in [("in place", &op.inpl), ("in place parallel", &op.inpl_par)] {
                                let mut o = junk_arr::<O>(&with(&so, 1 - axis, so[1 - axis] + 1), 0);
                                let keep = o.clone();
                                if !panics(|| f(&x, &mut o, axis)) {
                                    return Err(format!("{nm}: accepted an output with another extent off the axis"));
                                }
                                same_arr(&format!("{nm}: rejected call wrote"), &o, &keep)?;
                            }
                            Ok(())
                        });
                    }
                }
            }
        }
    }
    if which == "C16" {
        for (ni, no) in [(op.li, op.lo)] {
            c.case(format!("slice base={base} op={} {ni}->{no}", op.name), |c| {
                c.evals += 1;
                let x: Vec<I> = (0..ni).map(|_| I::rnd(&mut c.rng)).collect();
                let mut o = vec![O::zero(); no];
                (op.slice)(&x, &mut o);
                Ok(())
            });
        }
    }
}

const GRADS: [&str; 12] = ["gradient0", "gradient1", "gradient2", "gradient3", "gradient4", "gradient5", "gradient6", "gradient7", "gradient8",
    "gradient9", "gradient10", "gradient11"];
macro_rules! op {
    ($b:expr, $name:expr, $I:ty, $O:ty, $li:ident, $lo:ident, $sl:ident, $al:ident, $alp:ident, $ip:ident, $ipp:ident $(, $n:expr)?) => {
        Op::<$I, $O> {
            name: $name,
            li: $b.$li(),
            lo: $b.$lo(),
            slice: Box::new(|x, o| $b.$sl(x, o $(, $n)?)),
            alloc: Box::new(|x, a| $b.$al(x $(, $n)?, a)),
            alloc_par: Box::new(|x, a| $b.$alp(x $(, $n)?, a)),
            inpl: Box::new(|x, o, a| $b.$ip(x, o $(, $n)?, a)),
            inpl_par: Box::new(|x, o, a| $b.$ipp(x, o $(, $n)?, a)),
        }
    };
}
macro_rules! ops {
    ($c:expr, $w:expr, $nm:expr, $b:expr, $P:ty, $S:ty) => {{
        let b = $b;
        let nm: String = $nm;
        run_op($c, $w, &nm, &op!(b, "forward", $P, $S, len_phys, len_spec, forward_slice, forward, forward_par, forward_inplace, forward_inplace_par));
        run_op($c, $w, &nm, &op!(b, "backward", $S, $P, len_spec, len_phys, backward_slice, backward, backward_par, backward_inplace, backward_inplace_par));
        ops!(@ $c, $w, nm, b, $S);
    }};
    (@ $c:expr, $w:expr, $nm:expr, $b:expr, $T:ty) => {{
        run_op($c, $w, &$nm, &op!($b, "to_ortho", $T, $T, len_spec, len_orth, to_ortho_slice, to_ortho, to_ortho_par, to_ortho_inplace, to_ortho_inplace_par));
        run_op($c, $w, &$nm, &op!($b, "from_ortho", $T, $T, len_orth, len_spec, from_ortho_slice, from_ortho, from_ortho_par, from_ortho_inplace, from_ortho_inplace_par));
        for d in 0usize..if $c.search.is_some() { 12 } else { 4 } {
            run_op($c, $w, &$nm, &op!($b, GRADS[d], $T, $T, len_spec, len_orth, gradient_slice, gradient, gradient_par, gradient_inplace, gradient_inplace_par, d));
        }
    }};
}

pub fn run(c: &mut Ctx, w: &str) {
    c.scaled = w != "C16";
    c.patterns = if c.scaled { 2 } else { 1 };
    let mut kinds = vec!["chebyshev"];
    kinds.extend(COMPO);
    for kind in kinds {
        let m = nmin_solve(kind).max(5);
        let mut ns = vec![m, m + 1, m + 6];
        if c.thorough {
            ns.extend([m + 2, m + 3, 33, 64]);
        }
        if c.search.is_some() {
            ns = c.sweep(m + 2).into_iter().filter(|x| x % 16 < 3 || *x < 24).collect();
        }
        for n in ns {
            let b = compo(kind, n);
            ops!(c, w, format!("{kind}({n})"), &b, f64, f64);
            if n == m {
                ops!(@ c, w, format!("{kind}({n}) on complex"), &b, C64);
            }
        }
    }
    let ns: &[usize] = if c.thorough { &[1, 2, 3, 4, 5, 8, 9, 16, 31] } else { &[1, 4, 5, 9] };
    let more: Vec<usize> = c.sweep(3).into_iter().filter(|x| x % 16 < 3 || *x < 24).collect();
    let ns = if c.search.is_some() { &more[..] } else { ns };
    for &n in ns {
        let b = fourier_r2c::<f64>(n);
        ops!(c, w, format!("fourier_r2c({n})"), &b, f64, C64);
        let b = fourier_c2c::<f64>(n);
        ops!(c, w, format!("fourier_c2c({n})"), &b, C64, C64);
    }
    // the concrete types behind the general base
    use chebyshev::{Chebyshev, ChebyshevComposite};
    ops!(c, w, "Chebyshev(6)".into(), &Chebyshev::<f64>::new(6), f64, f64);
    ops!(c, w, "ChebyshevComposite::neumann(7)".into(), &ChebyshevComposite::<f64>::neumann(7), f64, f64);
    ops!(c, w, "FourierR2c(6)".into(), &fourier::FourierR2c::<f64>::new(6), f64, C64);
    ops!(c, w, "FourierC2c(7)".into(), &fourier::FourierC2c::<f64>::new(7), C64, C64);
}
