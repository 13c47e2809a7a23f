//! Ranks are threads of one process; each collective is a rendezvous of all ranks in which every
//! rank contributes a byte buffer with counts and displacements. What the standard leaves undefined
//! (mismatching counts, different collectives on different ranks, out-of-range blocks) is an error.
use std::cell::RefCell;
use std::sync::{Arc, Condvar, Mutex};

pub type Count = i32;
pub type Rank = i32;

#[derive(Clone, Default)]
struct Post {
    op: &'static str,
    root: i32,
    data: Vec<u8>,
    counts: Vec<usize>,
    displs: Vec<usize>,
    recv_len: usize,
    elem: usize,
    kind: &'static str,
}
struct State {
    arrived: usize,
    generation: u64,
    posts: Vec<Option<Post>>,
    round: Arc<Vec<Post>>,
    poisoned: Option<String>,
}
struct Shared {
    size: usize,
    st: Mutex<State>,
    cv: Condvar,
}
impl std::fmt::Debug for Shared {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "World({})", self.size)
    }
}
impl Shared {
    fn lock(&self) -> std::sync::MutexGuard<'_, State> {
        match self.st.lock() {
            Ok(g) => g,
            Err(e) => e.into_inner(),
        }
    }
    fn poison(&self, why: &str) {
        let mut s = self.lock();
        if s.poisoned.is_none() {
            s.poisoned = Some(why.to_string());
        }
        drop(s);
        self.cv.notify_all();
    }
    fn meet(&self, rank: usize, post: Post) -> Arc<Vec<Post>> {
        let mut s = self.lock();
        if let Some(w) = s.poisoned.clone() {
            drop(s);
            panic!("collective abandoned: {w}");
        }
        assert!(s.posts[rank].is_none(), "rank {rank} entered twice");
        s.posts[rank] = Some(post);
        s.arrived += 1;
        let g = s.generation;
        if s.arrived == self.size {
            let all: Vec<Post> = s.posts.iter_mut().map(|p| p.take().unwrap()).collect();
            for (r, p) in all.iter().enumerate() {
                if p.op != all[0].op || p.root != all[0].root || p.elem != all[0].elem || p.kind != all[0].kind {
                    let w = format!("rank {r} calls {} of {} while rank 0 calls {} of {}", p.op, p.kind, all[0].op, all[0].kind);
                    s.poisoned = Some(w.clone());
                    drop(s);
                    self.cv.notify_all();
                    panic!("collective mismatch: {w}");
                }
            }
            s.round = Arc::new(all);
            s.arrived = 0;
            s.generation += 1;
            let r = s.round.clone();
            drop(s);
            self.cv.notify_all();
            return r;
        }
        while s.generation == g && s.poisoned.is_none() {
            let (s2, t) = match self.cv.wait_timeout(s, std::time::Duration::from_secs(60)) {
                Ok(x) => x,
                Err(e) => e.into_inner(),
            };
            s = s2;
            if t.timed_out() && s.generation == g {
                s.poisoned = Some("deadlock: not all ranks entered the collective".into());
                self.cv.notify_all();
            }
        }
        if s.generation == g {
            let w = s.poisoned.clone().unwrap_or_default();
            drop(s);
            panic!("collective abandoned: {w}");
        }
        s.round.clone()
    }
}

thread_local! {
    static ME: RefCell<Option<(Arc<Shared>, usize)>> = const { RefCell::new(None) };
}

/// Run `f` on `n` ranks; result: per rank the value or the panic message.
pub fn run<T: Send, F: Fn(environment::Universe) -> T + Sync>(n: usize, f: F) -> Vec<Result<T, String>> {
    let sh = Arc::new(Shared {
        size: n,
        st: Mutex::new(State { arrived: 0, generation: 0, posts: (0..n).map(|_| None).collect(), round: Arc::new(vec![]), poisoned: None }),
        cv: Condvar::new(),
    });
    std::thread::scope(|sc| {
        let hs: Vec<_> = (0..n)
            .map(|r| {
                let sh = sh.clone();
                let f = &f;
                sc.spawn(move || {
                    ME.with(|m| *m.borrow_mut() = Some((sh.clone(), r)));
                    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(initialize().unwrap())));
                    res.map_err(|p| {
                        let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| (*s).to_string())).unwrap_or_default();
                        sh.poison(&format!("rank {r} panicked: {m}"));
                        m
                    })
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("thread died".into()))).collect()
    })
}

pub fn initialize() -> Option<environment::Universe> {
    ME.with(|m| m.borrow().clone()).map(|(sh, rank)| environment::Universe { world: topology::SystemCommunicator { sh, rank } })
}

pub mod environment {
    #[derive(Debug)]
    pub struct Universe {
        pub(crate) world: super::topology::SystemCommunicator,
    }
    impl Universe {
        pub fn world(&self) -> super::topology::SystemCommunicator {
            self.world.clone()
        }
    }
}
pub mod raw {
    /// # Safety
    /// none needed in the stand-in
    pub unsafe trait AsRaw {}
    pub mod traits {
        pub use super::AsRaw;
    }
}
pub mod topology {
    use super::*;
    #[derive(Debug, Clone)]
    pub struct SystemCommunicator {
        pub(crate) sh: Arc<Shared>,
        pub(crate) rank: usize,
    }
    unsafe impl raw::AsRaw for SystemCommunicator {}
    #[derive(Debug, Clone)]
    pub struct Process {
        pub(crate) c: SystemCommunicator,
        pub(crate) root: i32,
    }
    pub trait Communicator {
        fn comm(&self) -> &SystemCommunicator;
        fn size(&self) -> Rank {
            self.comm().sh.size as Rank
        }
        fn rank(&self) -> Rank {
            self.comm().rank as Rank
        }
        fn process_at_rank(&self, r: Rank) -> Process {
            assert!(r >= 0 && (r as usize) < self.comm().sh.size, "no such rank");
            Process { c: self.comm().clone(), root: r }
        }
        fn this_process(&self) -> Process {
            self.process_at_rank(self.rank())
        }
    }
    impl Communicator for SystemCommunicator {
        fn comm(&self) -> &SystemCommunicator {
            self
        }
    }
    pub mod traits {
        pub use super::Communicator;
    }
}
pub mod datatype {
    use super::Count;
    use num_complex::Complex;
    /// # Safety
    /// plain data without padding
    pub unsafe trait Equivalence: Copy + 'static {}
    macro_rules! eq { ($($t:ty),*) => { $(unsafe impl Equivalence for $t {})* } }
    eq!(f32, f64, i8, i16, i32, i64, u8, u16, u32, u64, usize, isize, Complex<f32>, Complex<f64>);
    pub trait Buf {
        fn kind(&self) -> &'static str;
        fn elem(&self) -> usize;
        fn bytes(&self) -> &[u8];
        fn bytes_mut(&mut self) -> &mut [u8];
    }
    impl<T: Equivalence> Buf for T {
        fn kind(&self) -> &'static str {
            std::any::type_name::<T>()
        }
        fn elem(&self) -> usize {
            size_of::<T>()
        }
        fn bytes(&self) -> &[u8] {
            unsafe { std::slice::from_raw_parts((self as *const T).cast(), size_of::<T>()) }
        }
        fn bytes_mut(&mut self) -> &mut [u8] {
            unsafe { std::slice::from_raw_parts_mut((self as *mut T).cast(), size_of::<T>()) }
        }
    }
    impl<T: Equivalence> Buf for [T] {
        fn kind(&self) -> &'static str {
            std::any::type_name::<T>()
        }
        fn elem(&self) -> usize {
            size_of::<T>()
        }
        fn bytes(&self) -> &[u8] {
            unsafe { std::slice::from_raw_parts(self.as_ptr().cast(), size_of_val(self)) }
        }
        fn bytes_mut(&mut self) -> &mut [u8] {
            unsafe { std::slice::from_raw_parts_mut(self.as_mut_ptr().cast(), size_of_val(self)) }
        }
    }
    fn check(len: usize, counts: &[Count], displs: &[Count]) {
        assert!(counts.len() == displs.len(), "counts and displacements differ in number");
        for (c, d) in counts.iter().zip(displs) {
            assert!(*c >= 0 && *d >= 0 && (*c as usize + *d as usize) <= len, "block outside the buffer");
        }
    }
    pub struct Partition<'b, B: ?Sized, C, D> {
        pub(crate) buf: &'b B,
        pub(crate) counts: C,
        pub(crate) displs: D,
    }
    impl<'b, B: Buf + ?Sized, C: std::borrow::Borrow<[Count]>, D: std::borrow::Borrow<[Count]>> Partition<'b, B, C, D> {
        pub fn new(buf: &'b B, counts: C, displs: D) -> Self {
            check(buf.bytes().len() / buf.elem(), counts.borrow(), displs.borrow());
            Partition { buf, counts, displs }
        }
    }
    pub struct PartitionMut<'b, B: ?Sized, C, D> {
        pub(crate) buf: &'b mut B,
        pub(crate) counts: C,
        pub(crate) displs: D,
    }
    impl<'b, B: Buf + ?Sized, C: std::borrow::Borrow<[Count]>, D: std::borrow::Borrow<[Count]>> PartitionMut<'b, B, C, D> {
        pub fn new(buf: &'b mut B, counts: C, displs: D) -> Self {
            check(buf.bytes().len() / buf.elem(), counts.borrow(), displs.borrow());
            PartitionMut { buf, counts, displs }
        }
    }
    pub trait Part {
        fn p(&self) -> (&[u8], usize, &'static str, Vec<usize>, Vec<usize>);
    }
    pub trait PartMut {
        fn pm(&mut self) -> (&mut [u8], usize, &'static str, Vec<usize>, Vec<usize>);
    }
    fn us(x: &[Count]) -> Vec<usize> {
        x.iter().map(|v| *v as usize).collect()
    }
    impl<B: Buf + ?Sized, C: std::borrow::Borrow<[Count]>, D: std::borrow::Borrow<[Count]>> Part for Partition<'_, B, C, D> {
        fn p(&self) -> (&[u8], usize, &'static str, Vec<usize>, Vec<usize>) {
            (self.buf.bytes(), self.buf.elem(), self.buf.kind(), us(self.counts.borrow()), us(self.displs.borrow()))
        }
    }
    impl<B: Buf + ?Sized, C: std::borrow::Borrow<[Count]>, D: std::borrow::Borrow<[Count]>> PartMut for PartitionMut<'_, B, C, D> {
        fn pm(&mut self) -> (&mut [u8], usize, &'static str, Vec<usize>, Vec<usize>) {
            let (e, k) = (self.buf.elem(), self.buf.kind());
            (self.buf.bytes_mut(), e, k, us(self.counts.borrow()), us(self.displs.borrow()))
        }
    }
    pub mod traits {
        pub use super::{Buf, Equivalence, Part, PartMut};
    }
}
pub mod collective {
    use super::datatype::{Buf, Part, PartMut};
    use super::topology::{Communicator, Process, SystemCommunicator};
    use super::{Arc, Post};
    fn go(c: &SystemCommunicator, p: Post) -> Arc<Vec<Post>> {
        c.sh.meet(c.rank, p)
    }
    fn base<B: Buf + ?Sized>(op: &'static str, root: i32, b: &B) -> Post {
        Post { op, root, elem: b.elem(), kind: b.kind(), data: b.bytes().to_vec(), ..Post::default() }
    }
    fn equal(p: &[Post]) {
        assert!(p.iter().all(|x| x.data.len() == p[0].data.len()), "contributions differ in length");
    }
    pub trait CommunicatorCollectives: Communicator {
        fn barrier(&self) {
            go(self.comm(), Post { op: "barrier", ..Post::default() });
        }
        fn all_gather_into<S: Buf + ?Sized, R: Buf + ?Sized>(&self, s: &S, r: &mut R) {
            let p = go(self.comm(), base("all_gather", 0, s));
            equal(&p);
            let all: Vec<u8> = p.iter().flat_map(|x| x.data.clone()).collect();
            assert!(all.len() == r.bytes().len(), "receive buffer of wrong length");
            r.bytes_mut().copy_from_slice(&all);
        }
        fn all_gather_varcount_into<S: Buf + ?Sized, R: PartMut + ?Sized>(&self, s: &S, r: &mut R) {
            let p = go(self.comm(), base("all_gather_varcount", 0, s));
            let (buf, e, _, c, d) = r.pm();
            place(buf, e, &c, &d, p.iter().map(|x| &x.data[..]).collect());
        }
        fn all_to_all_into<S: Buf + ?Sized, R: Buf + ?Sized>(&self, s: &S, r: &mut R) {
            let p = go(self.comm(), base("all_to_all", 0, s));
            equal(&p);
            let n = p.len();
            let k = p[0].data.len() / n;
            let me = self.comm().rank;
            let all: Vec<u8> = p.iter().flat_map(|x| x.data[me * k..(me + 1) * k].to_vec()).collect();
            assert!(all.len() == r.bytes().len(), "receive buffer of wrong length");
            r.bytes_mut().copy_from_slice(&all);
        }
        fn all_to_all_varcount_into<S: Part + ?Sized, R: PartMut + ?Sized>(&self, s: &S, r: &mut R) {
            let (b, e, k, c, d) = s.p();
            let post = Post { op: "all_to_all_varcount", elem: e, kind: k, data: b.to_vec(), counts: c, displs: d, ..Post::default() };
            let p = go(self.comm(), post);
            let me = self.comm().rank;
            let parts: Vec<&[u8]> = p
                .iter()
                .map(|x| {
                    assert!(x.counts.len() == p.len(), "{} counts for {} ranks", x.counts.len(), p.len());
                    &x.data[x.displs[me] * e..(x.displs[me] + x.counts[me]) * e]
                })
                .collect();
            let (buf, _, _, c, d) = r.pm();
            place(buf, e, &c, &d, parts);
        }
    }
    impl CommunicatorCollectives for SystemCommunicator {}
    fn place(buf: &mut [u8], e: usize, c: &[usize], d: &[usize], parts: Vec<&[u8]>) {
        assert!(c.len() == parts.len(), "{} receive counts for {} ranks", c.len(), parts.len());
        let mut owner = vec![false; buf.len()];
        for (i, x) in parts.iter().enumerate() {
            assert!(x.len() == c[i] * e, "rank {i} sends {} elements, {} expected", x.len() / e, c[i]);
            for o in &mut owner[d[i] * e..(d[i] + c[i]) * e] {
                assert!(!*o, "receive blocks overlap");
                *o = true;
            }
            buf[d[i] * e..(d[i] + c[i]) * e].copy_from_slice(x);
        }
    }
    pub trait Root {
        fn pr(&self) -> &Process;
        fn root_rank(&self) -> i32 {
            self.pr().root
        }
        fn broadcast_into<B: Buf + ?Sized>(&self, b: &mut B) {
            let p = go(&self.pr().c, base("broadcast", self.pr().root, b));
            let x = &p[self.pr().root as usize].data;
            assert!(x.len() == b.bytes().len(), "broadcast lengths differ");
            b.bytes_mut().copy_from_slice(x);
        }
        fn gather_into<S: Buf + ?Sized>(&self, s: &S) {
            assert!(self.pr().c.rank() != self.pr().root, "root must call the root variant");
            go(&self.pr().c, base("gather", self.pr().root, s));
        }
        fn gather_into_root<S: Buf + ?Sized, R: Buf + ?Sized>(&self, s: &S, r: &mut R) {
            assert!(self.pr().c.rank() == self.pr().root, "only root may call the root variant");
            let p = go(&self.pr().c, base("gather", self.pr().root, s));
            equal(&p);
            let all: Vec<u8> = p.iter().flat_map(|x| x.data.clone()).collect();
            assert!(all.len() == r.bytes().len(), "receive buffer of wrong length");
            r.bytes_mut().copy_from_slice(&all);
        }
        fn gather_varcount_into<S: Buf + ?Sized>(&self, s: &S) {
            assert!(self.pr().c.rank() != self.pr().root, "root must call the root variant");
            go(&self.pr().c, base("gather_varcount", self.pr().root, s));
        }
        fn gather_varcount_into_root<S: Buf + ?Sized, R: PartMut + ?Sized>(&self, s: &S, r: &mut R) {
            assert!(self.pr().c.rank() == self.pr().root, "only root may call the root variant");
            let p = go(&self.pr().c, base("gather_varcount", self.pr().root, s));
            let (buf, e, _, c, d) = r.pm();
            place(buf, e, &c, &d, p.iter().map(|x| &x.data[..]).collect());
        }
        fn scatter_varcount_into<R: Buf + ?Sized>(&self, r: &mut R) {
            assert!(self.pr().c.rank() != self.pr().root, "root must call the root variant");
            let post = Post { op: "scatter_varcount", root: self.pr().root, elem: r.elem(), kind: r.kind(), recv_len: r.bytes().len(), ..Post::default() };
            let p = go(&self.pr().c, post);
            take(&p, self.pr(), r);
        }
        fn scatter_varcount_into_root<S: Part + ?Sized, R: Buf + ?Sized>(&self, s: &S, r: &mut R) {
            assert!(self.pr().c.rank() == self.pr().root, "only root may call the root variant");
            let (b, e, k, c, d) = s.p();
            let post = Post { op: "scatter_varcount", root: self.pr().root, elem: e, kind: k, data: b.to_vec(), counts: c, displs: d, ..Post::default() };
            let p = go(&self.pr().c, post);
            take(&p, self.pr(), r);
        }
    }
    fn take<R: Buf + ?Sized>(p: &[Post], pr: &Process, r: &mut R) {
        let x = &p[pr.root as usize];
        let (me, e) = (pr.c.rank, x.elem);
        assert!(x.counts.len() == p.len(), "{} counts for {} ranks", x.counts.len(), p.len());
        assert!(x.counts[me] * e == r.bytes().len(), "rank {me} is sent {} elements, expects {}", x.counts[me], r.bytes().len() / e);
        r.bytes_mut().copy_from_slice(&x.data[x.displs[me] * e..(x.displs[me] + x.counts[me]) * e]);
    }
    impl Root for Process {
        fn pr(&self) -> &Process {
            self
        }
    }
    pub mod traits {
        pub use super::{CommunicatorCollectives, Root};
    }
}
pub mod traits {
    pub use crate::collective::traits::*;
    pub use crate::datatype::traits::*;
    pub use crate::raw::traits::*;
    pub use crate::topology::traits::*;
}
