use ndarray::*;
pub fn a_loop(v: &[f64], out: &mut [f64]) { let mut i = 0; loop { if i >= v.len() { break; } out[i] = v[i] * 2.0; i += 1; } }
pub fn a_loop2(v: &[f64], out: &mut [f64]) { let n = v.len(); let mut i = 0; loop { out[i] = v[i] * 2.0; i += 1; if i == n { break; } } }
pub fn a_while_and0(v: &[f64], out: &mut [f64]) { let mut i = 0; while i < v.len() && i < out.len() { out[i] = v[i] * 2.0; i += 1; } }
pub fn a_while_ne(v: &[f64], out: &mut [f64]) { let mut i = 0; while i != v.len() { out[i] = v[i] * 2.0; i += 1; } }
pub fn a_while_down(v: &[f64], out: &mut [f64]) { let mut i = v.len(); while i > 0 { i -= 1; out[i] = v[i] * 2.0; } }
pub fn a_next(v: &[f64], out: &mut [f64]) { let mut it = v.iter(); for o in out.iter_mut() { *o = it.next().unwrap() * 2.0; } }
pub fn a_next_iflet(v: &[f64], out: &mut [f64]) { let mut it = v.iter(); for o in out.iter_mut() { if let Some(x) = it.next() { *o = x * 2.0; } } }
pub fn a_whilelet(v: &[f64], out: &mut [f64]) { let mut it = v.iter().enumerate(); while let Some((i, x)) = it.next() { out[i] = x * 2.0; } }
pub fn a_whilelet_zip(v: &[f64], out: &mut [f64]) { let mut it = v.iter().zip(out.iter_mut()); while let Some((x, o)) = it.next() { *o = x * 2.0; } }
pub fn a_chunks2(v: &[f64], out: &mut [f64]) { for (x, o) in v.chunks(2).zip(out.chunks_mut(2)) { for (a, b) in x.iter().zip(o.iter_mut()) { *b = a * 2.0; } } }
pub fn a_chunks_exact(v: &[f64], out: &mut [f64]) { let n = v.len(); let h = n / 2 * 2; for (x, o) in v[..h].chunks_exact(2).zip(out[..h].chunks_exact_mut(2)) { o[0] = x[0] * 2.0; o[1] = x[1] * 2.0; } if n % 2 == 1 { out[n - 1] = v[n - 1] * 2.0; } }
pub fn a_remainder(v: &[f64], out: &mut [f64]) { let n = v.len(); let c = v.chunks_exact(2); let r = c.remainder(); if r.len() == 1 { out[n - 1] = r[0] * 2.0; } for (i, x) in c.enumerate() { out[2 * i] = x[0] * 2.0; out[2 * i + 1] = x[1] * 2.0; } }
pub fn a_unroll(v: &[f64], out: &mut [f64]) { let n = v.len(); let mut i = 0; while i + 1 < n { out[i] = v[i] * 2.0; out[i + 1] = v[i + 1] * 2.0; i += 2; } if i < n { out[i] = v[i] * 2.0; } }
pub fn a_stepby(v: &[f64], out: &mut [f64]) { for i in (0..v.len()).step_by(2) { out[i] = v[i] * 2.0; } for i in (1..v.len()).step_by(2) { out[i] = v[i] * 2.0; } }
pub fn a_split_first(v: &[f64], out: &mut [f64]) { if let (Some((a, r)), Some((b, s))) = (v.split_first(), out.split_first_mut()) { *b = a * 2.0; for (x, y) in r.iter().zip(s) { *y = x * 2.0; } } }
pub fn a_split_last(v: &[f64], out: &mut [f64]) { if let Some((b, s)) = out.split_last_mut() { for (x, y) in v.iter().zip(s.iter_mut()) { *y = x * 2.0; } *b = v[v.len() - 1] * 2.0; } }
pub fn a_split_at(v: &[f64], out: &mut [f64]) { let h = v.len() / 2; let (a, b) = out.split_at_mut(h); for (x, y) in v[..h].iter().zip(a) { *y = x * 2.0; } for (x, y) in v[h..].iter().zip(b) { *y = x * 2.0; } }
pub fn a_slicepat(v: &[f64], out: &mut [f64]) { if let [first, rest @ ..] = v { out[0] = first * 2.0; for (i, x) in rest.iter().enumerate() { out[i + 1] = x * 2.0; } } }
pub fn a_collect(v: &[f64], out: &mut [f64]) { let w: Vec<f64> = v.iter().map(|x| x * 2.0).collect(); out.copy_from_slice(&w); }
pub fn a_collect_turbofish(v: &[f64], out: &mut [f64]) { let w = v.iter().map(|&x| x * 2.0).collect::<Vec<_>>(); out.clone_from_slice(&w); }
pub fn a_from_fn(v: &[f64], out: &mut [f64]) { let w: Vec<f64> = (0..v.len()).map(|i| v[i] * 2.0).collect(); for i in 0..w.len() { out[i] = w[i]; } }
pub fn a_push(v: &[f64], out: &mut [f64]) { let mut w = Vec::with_capacity(v.len()); for x in v { w.push(x * 2.0); } out.copy_from_slice(&w); }
pub fn a_extend(v: &[f64], out: &mut [f64]) { let mut w = Vec::new(); w.extend(v.iter().map(|x| x * 2.0)); out.copy_from_slice(&w); }
pub fn a_extend_chain(v: &[f64], out: &mut [f64]) { let w: Vec<f64> = std::iter::once(v[0] * 2.0).chain(v[1..].iter().map(|x| x * 2.0)).collect(); out.copy_from_slice(&w); }
pub fn a_foreach(v: &[f64], out: &mut [f64]) { out.iter_mut().zip(v).for_each(|(o, x)| *o = x * 2.0); }
pub fn a_swap(v: &[f64], out: &mut [f64]) { out.copy_from_slice(v); let n = out.len(); out.swap(0, n - 1); out.swap(n - 1, 0); for o in out { *o *= 2.0; } }
pub fn a_replace(v: &[f64], out: &mut [f64]) { for (o, x) in out.iter_mut().zip(v) { let _ = std::mem::replace(o, x * 2.0); } }
pub fn a_rev2(v: &[f64], out: &mut [f64]) { for (i, x) in v.iter().rev().enumerate() { let n = v.len(); out[n - 1 - i] = x * 2.0; } }
pub fn a_fold(v: &[f64], out: &mut [f64]) { v.iter().fold(0usize, |i, x| { out[i] = x * 2.0; i + 1 }); }
pub fn a_scan(v: &[f64], out: &mut [f64]) { let w: Vec<f64> = v.iter().scan(2.0, |c, x| Some(x * *c)).collect(); out.copy_from_slice(&w); }
pub fn a_windows(v: &[f64], out: &mut [f64]) { for (i, w) in v.windows(2).enumerate() { out[i] = w[0] * 2.0; if i + 2 == v.len() { out[i + 1] = w[1] * 2.0; } } }
pub fn a_match_guard(v: &[f64], out: &mut [f64]) { for i in 0..v.len() { out[i] = match i { 0 => v[0] + v[0], k if k % 2 == 0 => v[k] * 2.0, _ => 2.0 * v[i] }; } }
pub fn a_closure(v: &[f64], out: &mut [f64]) { let f = |x: f64| x + x; for i in 0..v.len() { out[i] = f(v[i]); } }
pub fn a_closure_mut(v: &[f64], out: &mut [f64]) { let mut set = |i: usize, x: f64| out[i] = x; for i in 0..v.len() { set(i, v[i] * 2.0); } }
pub fn a_innerfn(v: &[f64], out: &mut [f64]) { fn dbl(x: f64) -> f64 { x * 2.0 } for (o, x) in out.iter_mut().zip(v) { *o = dbl(*x); } }
pub fn a_generic(v: &[f64], out: &mut [f64]) { fill(out, |i| v[i] * 2.0); }
fn fill<F: Fn(usize) -> f64>(out: &mut [f64], f: F) { for (i, o) in out.iter_mut().enumerate() { *o = f(i); } }
pub fn a_impl_iter(v: &[f64], out: &mut [f64]) { for (o, x) in out.iter_mut().zip(doubled(v)) { *o = x; } }
fn doubled(v: &[f64]) -> impl Iterator<Item = f64> + '_ { v.iter().map(|x| x * 2.0) }
pub fn a_array1(v: &[f64], out: &mut [f64]) { let a = ArrayView1::from(v); let b = &a * 2.0; for i in 0..v.len() { out[i] = b[i]; } }
pub fn a_array1_mapv(v: &[f64], out: &mut [f64]) { let a = Array1::from_vec(v.to_vec()); let b = a.mapv(|x| x * 2.0); out.copy_from_slice(b.as_slice().unwrap()); }
pub fn a_shape_fn(v: &[f64], out: &mut [f64]) { let b = Array1::from_shape_fn(v.len(), |i| v[i] * 2.0); out.copy_from_slice(&b.to_vec()); }
pub fn a_shape_fn2(v: &[f64], out: &mut [f64]) { let b = Array2::from_shape_fn((v.len(), 2), |(i, j)| if j == 0 { v[i] } else { 2.0 * v[i] }); for (o, x) in out.iter_mut().zip(b.column(1).iter()) { *o = *x; } }
pub fn a_zip_nd(v: &[f64], out: &mut [f64]) { let a = ArrayView1::from(v); let mut b = ArrayViewMut1::from(out); Zip::from(&mut b).and(&a).for_each(|o, &x| *o = x * 2.0); }
pub fn a_zip_indexed(v: &[f64], out: &mut [f64]) { let mut b = ArrayViewMut1::from(out); Zip::indexed(&mut b).for_each(|i, o| *o = v[i] * 2.0); }
pub fn a_pow(v: &[f64], out: &mut [f64]) { for i in 0..v.len() { out[i] = v[i] * 2f64.powi(1); } }
pub fn a_sat(v: &[f64], out: &mut [f64]) { for i in 0..v.len() { let j = i.saturating_sub(v.len()); out[i] = v[i + j] * 2.0; } }
pub fn a_checked(v: &[f64], out: &mut [f64]) { for i in 0..v.len() { let p = i.checked_sub(1); out[i] = match p { Some(k) => v[k + 1] * 2.0, None => v[0] * 2.0 }; } }
pub fn a_checked_map(v: &[f64], out: &mut [f64]) { for i in 0..v.len() { let p = i.checked_sub(1).map_or(0, |k| k + 1); out[i] = v[p] * 2.0; } }
pub fn a_boolcast(v: &[f64], out: &mut [f64]) { for i in 0..v.len() { let c = (i > 0) as usize; out[i] = v[i - c + c] * 2.0; } }
pub fn a_parity(v: &[f64], out: &mut [f64]) { for i in 0..v.len() { let s = if i & 1 == 0 { 2.0 } else { -2.0 }; let t = [1.0, -1.0][i % 2]; out[i] = v[i] * s * t; } }
pub fn a_sign_toggle(v: &[f64], out: &mut [f64]) { let mut s = 1.0; for i in 0..v.len() { out[i] = v[i] * 2.0 * s * s; s = -s; } }
pub fn a_recursive(v: &[f64], out: &mut [f64]) { rec(v, out, 0); }
fn rec(v: &[f64], out: &mut [f64], i: usize) { if i < v.len() { out[i] = v[i] * 2.0; rec(v, out, i + 1); } }
pub fn a_fill(v: &[f64], out: &mut [f64]) { out.fill(2.0); for (o, x) in out.iter_mut().zip(v) { *o *= *x; } }
pub fn a_copy_within(v: &[f64], out: &mut [f64]) { out.copy_from_slice(v); out.copy_within(0.., 0); out.iter_mut().for_each(|o| *o += *o); }
pub fn a_unzip(v: &[f64], out: &mut [f64]) { let (a, b): (Vec<f64>, Vec<f64>) = v.iter().map(|x| (*x, *x)).unzip(); for i in 0..v.len() { out[i] = a[i] + b[i]; } }
pub fn a_flatmap(v: &[f64], out: &mut [f64]) { let n = v.len(); let w: Vec<f64> = (0..2).flat_map(|k| v.iter().map(move |x| x * (1 + k) as f64)).collect(); out.copy_from_slice(&w[n..]); }
pub fn a_label(v: &[f64], out: &mut [f64]) { 'o: for i in 0..v.len() { for j in 0..2 { if j == 1 { out[i] = v[i] * 2.0; continue 'o; } } } }
pub fn a_break(v: &[f64], out: &mut [f64]) { for i in 0..=v.len() { if i == v.len() { break; } out[i] = v[i] * 2.0; } }
pub fn a_tuple(v: &[f64], out: &mut [f64]) { let mut st = (0usize, 2.0); for x in v { out[st.0] = x * st.1; st.0 += 1; } }
pub fn a_struct(v: &[f64], out: &mut [f64]) { struct W { i: usize, c: f64 } let mut w = W { i: 0, c: 2.0 }; while w.i < v.len() { out[w.i] = v[w.i] * w.c; w.i += 1; } }
pub fn a_option_acc(v: &[f64], out: &mut [f64]) { let mut prev: Option<f64> = None; for (o, x) in out.iter_mut().zip(v) { let p = prev.unwrap_or(0.0); *o = x * 2.0 + p - p; prev = Some(*x); } }
pub fn a_iter_sum(v: &[f64], out: &mut [f64]) { for i in 0..v.len() { out[i] = [v[i], v[i]].iter().sum(); } }
pub fn a_max(v: &[f64], out: &mut [f64]) { let n = v.len().max(1).min(out.len()); for i in 0..n { out[i] = v[i] * 2.0; } }
pub fn a_range_contains(v: &[f64], out: &mut [f64]) { for i in 0..v.len() { if (1..v.len()).contains(&i) { out[i] = v[i] * 2.0; } else { out[0] = v[0] * 2.0; } } }
pub fn a_ptr_swap(v: &[f64], out: &mut [f64]) { let mut a = v.to_vec(); let mut b = vec![0.0; v.len()]; for i in 0..v.len() { b[i] = a[i] * 2.0; } std::mem::swap(&mut a, &mut b); out.copy_from_slice(&a); }
pub fn a_iter_mut_rev(v: &[f64], out: &mut [f64]) { for (o, x) in out.iter_mut().rev().zip(v.iter().rev()) { *o = x * 2.0; } }
pub fn a_take_while(v: &[f64], out: &mut [f64]) { let n = v.len(); for i in (0..).take_while(|i| *i < n) { out[i] = v[i] * 2.0; } }
pub fn a_successors(v: &[f64], out: &mut [f64]) { let n = v.len(); for i in std::iter::successors(Some(0usize), |i| if i + 1 < n { Some(i + 1) } else { None }) { out[i] = v[i] * 2.0; } }
pub fn a_repeat(v: &[f64], out: &mut [f64]) { for ((o, x), c) in out.iter_mut().zip(v).zip(std::iter::repeat(2.0)) { *o = x * c; } }
pub fn a_cycle(v: &[f64], out: &mut [f64]) { for ((o, x), c) in out.iter_mut().zip(v).zip([2.0, 2.0].iter().cycle()) { *o = x * c; } }
pub fn a_partial(v: &[f64], out: &mut [f64]) { for b in 0..2 { for i in 0..v.len() { if i % 2 == b { out[i] = v[i] * 2.0; } } } }
pub fn a_blocks(v: &[f64], out: &mut [f64]) { let n = v.len(); let mut s = 0; while s < n { let e = (s + 4).min(n); for i in s..e { out[i] = v[i] * 2.0; } s = e; } }
pub fn a_const_arr(v: &[f64], out: &mut [f64]) { const C: [f64; 2] = [2.0, 3.0]; for (i, x) in v.iter().enumerate() { out[i] = x * C[0]; } }
pub fn a_box(v: &[f64], out: &mut [f64]) { let f: Box<dyn Fn(f64) -> f64> = Box::new(|x| x * 2.0); for (o, x) in out.iter_mut().zip(v.iter()) { *o = f(*x); } }
pub fn a_fnptr(v: &[f64], out: &mut [f64]) { let f: fn(f64) -> f64 = dd; for (o, x) in out.iter_mut().zip(v.iter()) { *o = f(*x); } }
fn dd(x: f64) -> f64 { x * 2.0 }
pub fn a_result(v: &[f64], out: &mut [f64]) { match chk(v, out) { Ok(n) => { for i in 0..n { out[i] = v[i] * 2.0; } } Err(s) => panic!("{}", s) } }
fn chk(v: &[f64], out: &[f64]) -> Result<usize, String> { if v.len() != out.len() { return Err("len".to_string()); } Ok(v.len()) }
pub fn a_assign_nd(v: &[f64], out: &mut [f64]) { let a = aview1(v); let mut b = aview_mut1(out); b.assign(&a); b *= 2.0; }
pub fn a_scaled_add(v: &[f64], out: &mut [f64]) { let a = aview1(v); let mut b = aview_mut1(out); b.assign(&a); b.scaled_add(1.0, &a); }
pub fn a_slice_assign(v: &[f64], out: &mut [f64]) { let a = aview1(v); let mut b = aview_mut1(out); b.slice_mut(s![1..]).assign(&a.slice(s![1..])); b[0] = v[0]; b.map_inplace(|x| *x *= 2.0); }
pub fn a_get_mut(v: &[f64], out: &mut [f64]) { for (i, x) in v.iter().enumerate() { if let Some(o) = out.get_mut(i) { *o = x * 2.0; } } }
pub fn a_unsafe(v: &[f64], out: &mut [f64]) { for i in 0..v.len() { unsafe { *out.get_unchecked_mut(i) = *v.get_unchecked(i) * 2.0; } } }
pub fn a_letelse(v: &[f64], out: &mut [f64]) { let Some(_) = v.first() else { return; }; for i in 0..v.len() { out[i] = v[i] * 2.0; } }
pub fn a_bytake(v: &[f64], out: &mut [f64]) { let mut it = v.iter(); let h = v.len() / 2; for (i, x) in it.by_ref().take(h).enumerate() { out[i] = x * 2.0; } for (i, x) in it.enumerate() { out[h + i] = x * 2.0; } }
pub fn a_rchunks(v: &[f64], out: &mut [f64]) { let w: Vec<f64> = v.iter().rev().map(|x| x * 2.0).collect(); for (o, x) in out.iter_mut().zip(w.into_iter().rev()) { *o = x; } }
pub fn a_intoiter(v: &[f64], out: &mut [f64]) { let w = v.to_vec(); for (i, x) in w.into_iter().enumerate() { out[i] = x * 2.0; } }
pub fn a_last_sep(v: &[f64], out: &mut [f64]) { let n = v.len(); for i in 0..n - 1 { out[i] = v[i] * 2.0; } out[n - 1] = v[n - 1] * 2.0; }
pub fn a_div_ceil(v: &[f64], out: &mut [f64]) { let h = v.len().div_ceil(2); for i in 0..h { out[i] = v[i] * 2.0; } for i in h..v.len() { out[i] = v[i] * 2.0; } }
pub fn a_pairs(v: &[f64], out: &mut [f64]) { let n = v.len(); for i in 0..n / 2 { out[2 * i] = v[2 * i] * 2.0; out[2 * i + 1] = v[2 * i + 1] * 2.0; } if n % 2 != 0 { out[n - 1] = v[n - 1] * 2.0; } }
pub fn a_outer(v: &[f64], out: &mut [f64]) { let mut i = 0; for _ in 0..v.len() { out[i] = v[i] * 2.0; i = i + 1; } }
pub fn a_iszero(v: &[f64], out: &mut [f64]) { for (o, x) in out.iter_mut().zip(v) { *o = if *x == 0.0 { 0.0 } else { x * 2.0 }; } }
pub fn a_last_mut(v: &[f64], out: &mut [f64]) { out.copy_from_slice(v); for o in out.iter_mut() { *o *= 2.0; } if let Some(l) = out.last_mut() { *l = *l + 0.0; } }
pub fn a_accum2(v: &[f64], out: &mut [f64]) { out.iter_mut().for_each(|o| *o = 0.0); for _ in 0..2 { for i in 0..v.len() { out[i] += v[i]; } } }
pub fn a_rotate(v: &[f64], out: &mut [f64]) { let n = v.len(); for i in 0..n { out[(i + 1) % n] = v[(i + 1) % n] * 2.0; } }
pub fn a_mulassign(v: &[f64], out: &mut [f64]) { for i in 0..v.len() { let o = &mut out[i]; *o = v[i]; *o *= 2.0; } }
pub fn a_collect_arr(v: &[f64], out: &mut [f64]) { let a: Array1<f64> = v.iter().map(|x| 2.0 * x).collect(); for (o, x) in out.iter_mut().zip(&a) { *o = *x; } }
pub fn a_row(v: &[f64], out: &mut [f64]) { let mut m = Array2::<f64>::zeros((2, v.len())); m.row_mut(1).assign(&ArrayView1::from(v)); let r = m.row(1); for i in 0..v.len() { out[i] = r[i] * 2.0; } }
pub fn a_dot(v: &[f64], out: &mut [f64]) { for i in 0..v.len() { let a = array![v[i], 1.0]; let b = array![2.0, 0.0]; out[i] = a.dot(&b); } }
pub fn a_diag(v: &[f64], out: &mut [f64]) { let m = Array2::from_diag(&aview1(v)); for i in 0..v.len() { out[i] = m[[i, i]] * 2.0; } }
pub fn a_diagmut(v: &[f64], out: &mut [f64]) { let n = v.len(); let mut m = Array2::<f64>::zeros((n, n)); m.diag_mut().assign(&aview1(v)); for (o, x) in out.iter_mut().zip(m.diag()) { *o = x * 2.0; } }
pub fn a_outer_iter(v: &[f64], out: &mut [f64]) { let m = Array2::from_shape_fn((v.len(), 2), |(i, _)| v[i]); for (o, r) in out.iter_mut().zip(m.outer_iter()) { *o = r[0] + r[1]; } }
pub fn a_rows_sum(v: &[f64], out: &mut [f64]) { let m = Array2::from_shape_fn((v.len(), 2), |(i, _)| v[i]); for (o, r) in out.iter_mut().zip(m.rows()) { *o = r.sum(); } }
pub fn a_to_owned(v: &[f64], out: &mut [f64]) { let mut a = aview1(v).to_owned(); a += &aview1(v); out.copy_from_slice(a.as_slice().unwrap()); }
pub fn a_loop3(v: &[f64], out: &mut [f64]) { let mut i = 0; loop { let x = v[i]; out[i] = x * 2.0; i += 1; if i >= v.len() { break; } } }
pub fn a_loop4(v: &[f64], out: &mut [f64]) { let mut i = 0; loop { if i < v.len() { out[i] = v[i] * 2.0; } else { break; } i += 1; } }
pub fn a_loop5(v: &[f64], out: &mut [f64]) { let mut i = 0; loop { let j = i; if j == v.len() { break; } out[j] = v[j] * 2.0; i += 1; } }
pub fn a_while_and(v: &[f64], out: &mut [f64]) { let mut i = 0; while i < v.len() && i < out.len() { out[i] = v[i] * 2.0; i += 1; } }
pub fn a_blocks_for(v: &[f64], out: &mut [f64]) { let n = v.len(); for s in (0..n).step_by(4) { let e = (s + 4).min(n); for i in s..e { out[i] = v[i] * 2.0; } } }
pub fn a_rotate_left(v: &[f64], out: &mut [f64]) { let n = v.len(); for i in 0..n { out[i] = v[(i + 1) % n] * 2.0; } out.rotate_right(1); }
pub fn a_slicepat2(v: &[f64], out: &mut [f64]) { if let ([a, r @ ..], [b, s @ ..]) = (v, out) { *b = a * 2.0; for (x, y) in r.iter().zip(s) { *y = x * 2.0; } } }
pub fn a_axis_iter(v: &[f64], out: &mut [f64]) { let m = Array2::from_shape_fn((2, v.len()), |(_, j)| v[j]); for (o, r) in out.iter_mut().zip(m.axis_iter(Axis(1))) { *o = r[0] + r[1]; } }
pub fn a_flatten(v: &[f64], out: &mut [f64]) { let w: Vec<f64> = v.iter().map(|x| [*x, 2.0 * x]).flatten().collect(); for i in 0..v.len() { out[i] = w[2 * i + 1]; } }
pub fn a_flatmap2(v: &[f64], out: &mut [f64]) { let n = v.len(); let w: Vec<f64> = (0..n).flat_map(|k| (0..n).map(move |j| v[k] + v[j])).collect(); for i in 0..n { out[i] = w[i * n + i]; } }
pub fn a_take(v: &[f64], out: &mut [f64]) { let mut s = Some(2.0); let c = s.take().unwrap(); for (o, x) in out.iter_mut().zip(v) { *o = x * c; } }
pub fn a_break2(v: &[f64], out: &mut [f64]) { for i in 0.. { if i >= v.len() { break; } out[i] = v[i] * 2.0; } }
pub fn a_break3(v: &[f64], out: &mut [f64]) { for (i, x) in v.iter().enumerate() { if i > out.len() { break; } out[i] = x * 2.0; } }
pub fn a_break4(v: &[f64], out: &mut [f64]) { let n = v.len(); let mut left = n; for i in 0..2 * n { if left == 0 { break; } out[i] = v[i] * 2.0; left -= 1; } }
pub fn a_azip(v: &[f64], out: &mut [f64]) { let a = aview1(v); let mut b = aview_mut1(out); azip!((o in &mut b, &x in &a) *o = x * 2.0); }
pub fn a_azip_index(v: &[f64], out: &mut [f64]) { let mut b = aview_mut1(out); azip!((index i, o in &mut b) { *o = v[i] * 2.0; }); }
pub fn a_zip_mut_with(v: &[f64], out: &mut [f64]) { let a = aview1(v); let mut b = aview_mut1(out); b.zip_mut_with(&a, |o, &x| *o = x * 2.0); }
pub fn a_slice_step(v: &[f64], out: &mut [f64]) { let a = aview1(v); let mut b = aview_mut1(out); b.slice_mut(s![..;2]).assign(&a.slice(s![..;2])); b.slice_mut(s![1..;2]).assign(&a.slice(s![1..;2])); b *= 2.0; }
pub fn a_slice_neg(v: &[f64], out: &mut [f64]) { let a = aview1(v); let mut b = aview_mut1(out); b.slice_mut(s![..-1]).assign(&a.slice(s![..-1])); let n = v.len(); b[n - 1] = v[n - 1]; b.mapv_inplace(|x| 2.0 * x); }
pub fn a_slice_rev(v: &[f64], out: &mut [f64]) { let a = aview1(v); let r = a.slice(s![..;-1]); let n = v.len(); for i in 0..n { out[n - 1 - i] = r[i] * 2.0; } }
pub fn a_slice_axis(v: &[f64], out: &mut [f64]) { let a = aview1(v); let mut b = aview_mut1(out); b.slice_axis_mut(Axis(0), Slice::from(0..3)).assign(&a.slice_axis(Axis(0), Slice::from(0..3))); b.slice_axis_mut(Axis(0), Slice::from(3..)).assign(&a.slice_axis(Axis(0), Slice::from(3..))); b *= 2.0; }
pub fn a_lanes_zip(v: &[f64], out: &mut [f64]) { let n = v.len(); let m = Array2::from_shape_fn((n, 3), |(i, j)| v[i] + j as f64); let mut w = Array2::<f64>::zeros((n, 3)); for (x, mut y) in m.lanes(Axis(0)).into_iter().zip(w.lanes_mut(Axis(0))) { for i in 0..x.len() { y[i] = x[i] * 2.0; } } for i in 0..n { out[i] = w[[i, 0]]; } }
pub fn a_rows_zip(v: &[f64], out: &mut [f64]) { let n = v.len(); let m = Array2::from_shape_fn((n, 3), |(i, j)| v[i] + j as f64); let mut w = Array2::<f64>::zeros((n, 3)); Zip::from(m.rows()).and(w.rows_mut()).for_each(|x, mut y| { y.assign(&(&x * 2.0)); }); for i in 0..n { out[i] = w[[i, 0]]; } }
pub fn a_par(v: &[f64], out: &mut [f64]) { let n = v.len(); let m = Array2::from_shape_fn((n, 3), |(i, j)| v[i] + j as f64); let mut w = Array2::<f64>::zeros((n, 3)); Zip::from(m.rows()).and(w.rows_mut()).par_for_each(|x, mut y| { for (a, b) in x.iter().zip(y.iter_mut()) { *b = a * 2.0; } }); for i in 0..n { out[i] = w[[i, 0]]; } }
pub fn a_axis_iter_mut(v: &[f64], out: &mut [f64]) { let n = v.len(); let mut w = Array2::<f64>::zeros((n, 3)); for (i, mut r) in w.axis_iter_mut(Axis(0)).enumerate() { r[0] = v[i]; r[2] = v[i]; } for i in 0..n { out[i] = w[[i, 0]] + w[[i, 2]]; } }
pub fn a_index_axis_mut(v: &[f64], out: &mut [f64]) { let n = v.len(); let mut w = Array2::<f64>::zeros((n, 3)); for j in 0..3 { let mut c = w.index_axis_mut(Axis(1), j); for i in 0..n { c[i] = v[i] * j as f64; } } for i in 0..n { out[i] = w[[i, 2]]; } }
pub fn a_sum_axis(v: &[f64], out: &mut [f64]) { let n = v.len(); let m = Array2::from_shape_fn((n, 2), |(i, _)| v[i]); let s = m.sum_axis(Axis(1)); for i in 0..n { out[i] = s[i]; } }
pub fn a_map_axis(v: &[f64], out: &mut [f64]) { let n = v.len(); let m = Array2::from_shape_fn((n, 2), |(i, _)| v[i]); let s = m.map_axis(Axis(1), |r| r[0] + r[1]); for i in 0..n { out[i] = s[i]; } }
pub fn a_from_iter(v: &[f64], out: &mut [f64]) { let a = Array1::from_iter(v.iter().map(|x| x * 2.0)); for (o, x) in out.iter_mut().zip(a.iter()) { *o = *x; } }
pub fn a_linspace(v: &[f64], out: &mut [f64]) { let n = v.len(); let a = Array1::<f64>::range(0.0, n as f64, 1.0); for i in 0..n { out[i] = v[i] * 2.0 + a[i] - i as f64; } }
pub fn a_broadcast(v: &[f64], out: &mut [f64]) { let n = v.len(); let a = aview1(v); let b = a.broadcast((2, n)).unwrap(); for i in 0..n { out[i] = b[[0, i]] + b[[1, i]]; } }
pub fn a_insert_axis(v: &[f64], out: &mut [f64]) { let n = v.len(); let a = aview1(v).insert_axis(Axis(1)); for i in 0..n { out[i] = a[[i, 0]] * 2.0; } }
pub fn a_concat(v: &[f64], out: &mut [f64]) { let n = v.len(); let a = aview1(v); let c = concatenate(Axis(0), &[a, a]).unwrap(); for i in 0..n { out[i] = c[i] + c[n + i]; } }
pub fn a_stack(v: &[f64], out: &mut [f64]) { let n = v.len(); let a = aview1(v); let c = stack(Axis(0), &[a, a]).unwrap(); for i in 0..n { out[i] = c[[0, i]] + c[[1, i]]; } }
pub fn a_from_shape(v: &[f64], out: &mut [f64]) { let n = v.len(); let a = ArrayView2::from_shape((n, 1), v).unwrap(); for i in 0..n { out[i] = a[[i, 0]] * 2.0; } }
pub fn a_from_shape2(v: &[f64], out: &mut [f64]) { let n = v.len(); let mut w = vec![0.0; 2 * n]; { let mut a = ArrayViewMut2::from_shape((2, n), &mut w).unwrap(); for i in 0..n { a[[1, i]] = v[i] * 2.0; } } out.copy_from_slice(&w[n..]); }
pub fn a_get_mut2(v: &[f64], out: &mut [f64]) { for i in 0..v.len() { if let Some(o) = out.get_mut(i) { *o = v[i] * 2.0; } } }
pub fn a_arith(v: &[f64], out: &mut [f64]) { let a = aview1(v); let b = &a + &a; let c = b.clone() - &a; let d = c * 2.0; out.copy_from_slice(d.as_slice().unwrap()); }
pub fn a_arith_assign(v: &[f64], out: &mut [f64]) { let a = aview1(v).to_owned(); let mut d = a.clone(); d += &a; for (o, x) in out.iter_mut().zip(d) { *o = x; } }
pub fn a_diag_from(v: &[f64], out: &mut [f64]) { let d = Array2::from_diag(&Array1::from_vec(v.to_vec())); let e = d.diag().to_owned(); for i in 0..v.len() { out[i] = 2.0 * e[i]; } }
pub fn a_fold_axis(v: &[f64], out: &mut [f64]) { let n = v.len(); let m = Array2::from_shape_fn((n, 2), |(i, _)| v[i]); let s = m.fold_axis(Axis(1), 0.0, |a, b| a + b); for i in 0..n { out[i] = s[i]; } }
pub fn a_into_raw(v: &[f64], out: &mut [f64]) { let a = Array1::from(v.to_vec()); let w = a.into_raw_vec_and_offset().0; for i in 0..v.len() { out[i] = w[i] * 2.0; } }
pub fn a_split_view(v: &[f64], out: &mut [f64]) { let a = aview1(v); let (l, r) = a.split_at(Axis(0), 2); for i in 0..2 { out[i] = 2.0 * l[i]; } for i in 2..v.len() { out[i] = 2.0 * r[i - 2]; } }
pub fn a_multi_slice(v: &[f64], out: &mut [f64]) { let mut b = aview_mut1(out); let (mut x, mut y) = b.multi_slice_mut((s![..2], s![2..])); for i in 0..2 { x[i] = 2.0 * v[i]; } for i in 2..v.len() { y[i - 2] = 2.0 * v[i]; } }
pub fn a_uninit(v: &[f64], out: &mut [f64]) { let mut a = Array1::<f64>::uninit(v.len()); for i in 0..v.len() { a[i].write(v[i] * 2.0); } let a = unsafe { a.assume_init() }; for i in 0..v.len() { out[i] = a[i]; } }
pub fn a_const_gen(v: &[f64], out: &mut [f64]) { dup::<2>(v, out); }
fn dup<const K: usize>(v: &[f64], out: &mut [f64]) { for i in 0..v.len() { out[i] = v[i] * K as f64; } }
pub fn a_trait(v: &[f64], out: &mut [f64]) { use_op(&Dbl, v, out); }
trait Op { fn f(&self, x: f64) -> f64; }
struct Dbl;
impl Op for Dbl { fn f(&self, x: f64) -> f64 { 2.0 * x } }
fn use_op<T: Op>(t: &T, v: &[f64], out: &mut [f64]) { for (o, x) in out.iter_mut().zip(v) { *o = t.f(*x); } }
pub fn a_dyn(v: &[f64], out: &mut [f64]) { let t: &dyn Op = &Dbl; for (o, x) in out.iter_mut().zip(v) { *o = t.f(*x); } }
pub fn a_impl_fn(v: &[f64], out: &mut [f64]) { apply(v, out, |x| 2.0 * x); }
fn apply(v: &[f64], out: &mut [f64], f: impl Fn(f64) -> f64) { for (o, x) in out.iter_mut().zip(v) { *o = f(*x); } }
pub fn a_where_fn(v: &[f64], out: &mut [f64]) { apply2(v, out, &mut |o: &mut f64, x: &f64| *o = 2.0 * x); }
fn apply2<F>(v: &[f64], out: &mut [f64], f: &mut F) where F: FnMut(&mut f64, &f64) { for (o, x) in out.iter_mut().zip(v) { f(o, x); } }
pub fn a_ret_clo(v: &[f64], out: &mut [f64]) { let f = scale(2.0); for (o, x) in out.iter_mut().zip(v) { *o = f(*x); } }
fn scale(c: f64) -> impl Fn(f64) -> f64 { move |x| c * x }
pub fn a_ret_iter(v: &[f64], out: &mut [f64]) { for (o, x) in out.iter_mut().zip(twice(v)) { *o = x; } }
fn twice(v: &[f64]) -> impl Iterator<Item = f64> + '_ { v.iter().map(|x| 2.0 * x) }
pub fn a_let_else(v: &[f64], out: &mut [f64]) { let Some(c) = v.first() else { return; }; out[0] = c * 2.0; for i in 1..v.len() { out[i] = v[i] * 2.0; } }
pub fn a_matches(v: &[f64], out: &mut [f64]) { for i in 0..v.len() { out[i] = if matches!(i % 2, 0) { v[i] * 2.0 } else { v[i] + v[i] }; } }
pub fn a_tern_match(v: &[f64], out: &mut [f64]) { for i in 0..v.len() { out[i] = match (i == 0, i % 2) { (true, _) => v[0] * 2.0, (false, 0) => 2.0 * v[i], _ => v[i] + v[i] }; } }
pub fn a_cmp(v: &[f64], out: &mut [f64]) { for i in 0..v.len() { out[i] = match i.cmp(&1) { std::cmp::Ordering::Less => v[0] * 2.0, std::cmp::Ordering::Equal => v[1] * 2.0, std::cmp::Ordering::Greater => v[i] * 2.0 }; } }
pub fn a_bitshift(v: &[f64], out: &mut [f64]) { for i in 0..v.len() { let j = (i << 1) >> 1; out[j] = v[i] * (1 << 1) as f64; } }
pub fn a_divceil(v: &[f64], out: &mut [f64]) { let n = v.len(); let h = n.div_ceil(2); for i in 0..h { out[i] = v[i] * 2.0; } for i in h..n { out[i] = v[i] * 2.0; } }
pub fn a_fold_mut(v: &[f64], out: &mut [f64]) { v.iter().fold(0usize, |i, x| { out[i] = x * 2.0; i + 1 }); }
pub fn a_try_fold(v: &[f64], out: &mut [f64]) { let r: Option<usize> = v.iter().try_fold(0usize, |i, x| { out[i] = x * 2.0; Some(i + 1) }); assert!(r.is_some()); }
pub fn a_position(v: &[f64], out: &mut [f64]) { let k = (0..v.len()).position(|i| i == 2).unwrap(); for i in 0..v.len() { out[i] = v[i] * k as f64; } }
pub fn a_last(v: &[f64], out: &mut [f64]) { let m = (0..v.len()).last().unwrap(); for i in 0..=m { out[i] = v[i] * 2.0; } }
pub fn a_maxr(v: &[f64], out: &mut [f64]) { let m = (0..v.len()).max().unwrap(); for i in 0..=m { out[i] = v[i] * 2.0; } }
pub fn a_shadow(v: &[f64], out: &mut [f64]) { for i in 0..v.len() { let x = v[i]; let x = x + x; let i = i; out[i] = x; } }
pub fn a_mulacc(v: &[f64], out: &mut [f64]) { for i in 0..v.len() { out[i] = v[i].mul_add(2.0, 0.0); } }
pub fn a_recip(v: &[f64], out: &mut [f64]) { let h = 2f64.recip(); for i in 0..v.len() { out[i] = v[i] / h; } }
pub fn a_powi(v: &[f64], out: &mut [f64]) { for i in 0..v.len() { out[i] = v[i] * 2.0 * (-1f64).powi(2 * i as i32); } }
pub fn a_copysign(v: &[f64], out: &mut [f64]) { for i in 0..v.len() { let s = if i % 2 == 0 { 1.0 } else { -1.0 }; out[i] = (s * v[i]) * (s * 2.0); } }
pub fn a_vecdeque(v: &[f64], out: &mut [f64]) { let mut a = [0.0; 2]; for i in 0..v.len() { a[i % 2] = v[i]; out[i] = a[i % 2] * 2.0; } }
pub fn a_rc(v: &[f64], out: &mut [f64]) { let c = std::cell::Cell::new(0usize); for x in v { out[c.get()] = x * 2.0; c.set(c.get() + 1); } }
pub fn a_refcell(v: &[f64], out: &mut [f64]) { let c = std::cell::RefCell::new(vec![0.0; v.len()]); for i in 0..v.len() { c.borrow_mut()[i] = v[i] * 2.0; } out.copy_from_slice(&c.borrow()); }
