//! Bookkeeping shared by all run-time contract checks.
use std::io::{Seek, SeekFrom, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Deterministic data. `pat` selects the shape of the data (0 = dense), `unit` its magnitude.
pub struct Rng(pub u64, pub u8, pub f64, pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    fn dense(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64 * 2.0 - 1.0
    }
    /// one entry; `flip` alternates between the parts of a complex entry
    pub fn f(&mut self) -> f64 {
        self.3 = self.3.wrapping_add(1);
        let d = self.dense();
        let r = self.next() >> 20;
        let v = match self.1 {
            1 if r % 2 == 0 => 0.,
            2 => (r % 5) as f64 - 2.,
            3 if r % 8 != 0 => 0.,
            4 if self.3 % 2 == 0 => 0.,
            5 if self.3 % 2 == 1 => 0.,
            6 => 1.,
            7 => d.abs() + 0.25,
            8 if r % 3 == 0 => -0.,
            _ => d,
        };
        v * self.2
    }
    pub fn vec(&mut self, n: usize) -> Vec<f64> {
        let (start, kind) = (self.below(n), self.below(4));
        let odd = self.3;
        let v = (0..n)
            .map(|i| {
                let x = self.f();
                match (self.1, kind) {
                    // whole parts of the vector are zero
                    (1 | 8, 0) if i < start => 0.,
                    (1 | 8, 1) if i >= start => 0.,
                    (3, 0 | 1) => if i == start { x + self.2 } else { 0. },
                    _ => x,
                }
            })
            .collect();
        if self.1 == 4 || self.1 == 5 {
            // one of two consecutive vectors (the parts of a complex one) is zero
            self.3 = odd + 1;
            let on = (odd % 2 == 0) == (self.1 == 4);
            return (0..n).map(|_| if on { self.dense() * self.2 } else { 0. }).collect();
        }
        v
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
}

pub struct Ctx {
    pub rng: Rng,
    pub thorough: bool,
    pub hints: Vec<usize>,
    pub evals: u64,
    pub cases: u64,
    pub samples: Vec<String>,
    pub failures: Vec<(String, String)>,
    /// search for a failing input at sizes the standard run does not reach, until this time
    pub search: Option<std::time::Instant>,
    /// also run the cases on data of very small and very large magnitude
    pub scaled: bool,
    /// how many of the patterns a case of the quick run uses
    pub patterns: usize,
    cap: usize,
    cur: String,
    file: Option<std::fs::File>,
}

pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o
}

impl Ctx {
    pub fn new(seed: u64, thorough: bool, hints: Vec<usize>, cur_file: Option<String>) -> Self {
        Ctx {
            rng: Rng(seed.wrapping_mul(0x1234_5678_9ABC_DEF1) ^ 0xABCD, 0, 1., 0),
            scaled: false,
            patterns: 8,
            thorough,
            hints,
            evals: 0,
            cases: 0,
            samples: vec![],
            failures: vec![],
            search: None,
            cap: 0,
            cur: String::new(),
            file: cur_file.map(|p| std::fs::File::create(p).unwrap()),
        }
    }
    /// Run one case, first on dense data and then on other patterns (zeros, unit vectors, small
    /// integers, vanishing parts of complex numbers, ...); an unexpected panic is a failure.
    pub fn case<F: Fn(&mut Self) -> Result<(), String>>(&mut self, name: String, f: F) {
        const PATS: [u8; 8] = [1, 3, 2, 4, 5, 6, 7, 8];
        const UNITS: [i32; 4] = [-80, 60, -40, 200];
        self.rng.1 = 0;
        self.rng.2 = 1.;
        let before = self.rng.0;
        if !self.one(name.clone(), &f) || self.rng.0 == before {
            return; // failed, or no data involved
        }
        let k = self.cases as usize;
        let pats: Vec<u8> = if self.search.is_none() && (self.thorough || self.patterns == 8) { PATS.to_vec() } else { (0..if self.search.is_some() { 1 } else { self.patterns }).map(|i| PATS[(k + i) % 8]).collect() };
        for p in pats {
            self.rng.1 = p;
            if !self.one(format!("{name} pattern={p}"), &f) {
                break;
            }
        }
        self.rng.1 = 0;
        if self.scaled {
            for e in if self.thorough { UNITS.to_vec() } else { vec![UNITS[k % 2], UNITS[2 + k % 2]] } {
                self.rng.2 = 2f64.powi(e);
                if !self.one(format!("{name} magnitude=2^{e}"), &f) {
                    break;
                }
            }
            self.rng.2 = 1.;
        }
    }
    fn one<F: Fn(&mut Self) -> Result<(), String>>(&mut self, name: String, f: &F) -> bool {
        if self.failures.len() >= 8 {
            return false;
        }
        if self.search.map_or(false, |t| std::time::Instant::now() > t || !self.failures.is_empty()) {
            return false;
        }
        self.cases += 1;
        if self.cases % 97 == 1 && self.samples.len() < 6 {
            self.samples.push(name.clone());
        }
        if let Some(fl) = &mut self.file {
            let _ = fl.seek(SeekFrom::Start(0));
            let _ = fl.write_all(format!("{:<200}\n", name).as_bytes());
        }
        self.cur = name.clone();
        let r = catch_unwind(AssertUnwindSafe(|| f(self)));
        match r {
            Ok(Ok(())) => true,
            Ok(Err(e)) => {
                self.failures.push((name, e));
                false
            }
            Err(p) => {
                let m = panic_msg(&p);
                self.failures.push((name, format!("panicked: {m}")));
                false
            }
        }
    }
    /// A linear operation commutes with a change of the magnitude of its argument (powers of two
    /// are exact in floating point, so that no rounding enters).
    pub fn linear(&mut self, what: &str, n: usize, f: &dyn Fn(&[f64]) -> Vec<f64>) -> Result<(), String> {
        let x = self.rng.vec(n);
        let y = f(&x);
        let big = y.iter().fold(0f64, |a, b| a.max(b.abs()));
        for e in [-200i32, -60, -30, 40, 200] {
            let s = 2f64.powi(e);
            let z = f(&x.iter().map(|a| a * s).collect::<Vec<_>>());
            self.evals += y.len() as u64;
            for i in 0..y.len() {
                if !((z[i] - s * y[i]).abs() <= 1e-12 * s * big) {
                    return Err(format!("{what}: the operation at x times 2^{e} gives {:e} at {i}, 2^{e} times its value at x is {:e}", z[i], s * y[i]));
                }
            }
        }
        Ok(())
    }
    pub fn close(&mut self, what: &str, got: f64, want: f64, scale: f64, tol: f64) -> Result<(), String> {
        self.evals += 1;
        let t = tol * (1.0 + scale.abs());
        if (got - want).abs() <= t {
            Ok(())
        } else {
            Err(format!("{what}: got {got:e} expected {want:e} (tolerance {t:e})"))
        }
    }
    pub fn start_search(&mut self, seconds: u64, cap: usize) {
        self.search = Some(std::time::Instant::now() + std::time::Duration::from_secs(seconds));
        self.cap = cap;
    }
    /// sizes near the thresholds at which narrow integers, blocked loops and tables change behaviour
    pub fn sweep(&self, from: usize) -> Vec<usize> {
        let mut v: Vec<usize> = (from..=72).collect();
        for k in 6..=17u32 {
            let b = 1usize << k;
            v.extend([b - 2, b - 1, b, b + 1, b + 2, b + 3]);
        }
        v.extend([81, 90, 100, 110, 150, 182, 200, 300, 400, 500, 600, 700, 800, 900, 1000, 1001, 1002, 1200, 1291, 1292, 1500]);
        v.extend([1626, 1627, 2000, 2001, 2500, 3000, 4000, 5000, 8000, 10000, 10001, 20000, 30000, 46342, 50000, 65537, 70000, 100001]);
        v.extend(self.hints.iter().copied());
        v.retain(|x| *x >= from && *x <= self.cap);
        v.sort_unstable();
        v.dedup();
        v
    }
    pub fn sizes(&self, min: usize, full: usize, extra: &[usize]) -> Vec<usize> {
        if self.search.is_some() {
            return self.sweep(min.max(14));
        }
        let mut v: Vec<usize> = (min..=full).collect();
        v.extend(extra.iter().copied().filter(|x| *x >= min));
        v.extend(self.hints.iter().copied().filter(|x| *x >= min && *x <= 2000));
        v.sort_unstable();
        v.dedup();
        v
    }
}

pub fn panic_msg(p: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = p.downcast_ref::<&str>() {
        (*s).to_string()
    } else {
        "?".into()
    }
}

/// true when the call panics
pub fn panics<F: FnOnce()>(f: F) -> bool {
    catch_unwind(AssertUnwindSafe(f)).is_err()
}

impl Ctx {
    /// print the JSON report and leave with 1 when something failed
    pub fn report(&self, prop: &str) -> ! {
        let f: Vec<String> = self
            .failures
            .iter()
            .map(|(n, d)| format!("{{\"case\":\"{}\",\"detail\":\"{}\"}}", esc(n), esc(d)))
            .collect();
        let s: Vec<String> = self.samples.iter().map(|n| format!("\"{}\"", esc(n))).collect();
        println!(
            "{{\"property\":\"{}\",\"cases\":{},\"evaluations\":{},\"samples\":[{}],\"failures\":[{}]}}",
            prop, self.cases, self.evals, s.join(","), f.join(",")
        );
        std::process::exit(i32::from(!self.failures.is_empty()));
    }
}
