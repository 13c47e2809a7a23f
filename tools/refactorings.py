"""Behaviour-preserving edits of /repo/src used to test that the engine stays quiet.

    python3 tools/refactorings.py [regex] [--compile] [--engine]

Every entry: (name, properties, file, [(old, new), ...]).  Each edit is applied to a scratch copy,
compiled with cargo check and (--engine) the engine is run on the listed properties.
"""
H = "src/chebyshev/stencils/helpers.rs"
O = "src/chebyshev/ortho.rs"
ST = "src/chebyshev/stencils.rs"
CO = "src/chebyshev/compo.rs"
R2 = "src/fourier/r2c.rs"
C2 = "src/fourier/c2c.rs"
M = "src/internal_macros.rs"
TR = "src/traits.rs"
S2 = "src/space/space2.rs"
S3 = "src/space/space3.rs"
TD = "src/chebyshev/linalg/tdma.rs"
PD = "src/chebyshev/linalg/pdma.rs"
PD2 = "src/chebyshev/linalg/pdma2.rs"
U = "src/utils.rs"
DI = "src/space_mpi/decomp2d/distribute.rs"
DM = "src/space_mpi/decomp2d/mod.rs"
MS = "src/space_mpi/space2.rs"
DH = "src/space_mpi/decomp_handler.rs"

DF = "src/space_mpi/decomp2d/functions.rs"

EDITS = [
# ---------------------------------------------------------------- helpers.rs
("h-diag-index-loop", ["C02"], H, [(
"""        for (i, v) in tdma_diag.iter_mut().enumerate() {
            *v = diag[i] * diag[i] + low2[i] * low2[i];
        }
        for (i, v) in tdma_off2.iter_mut().enumerate() {
            *v = diag[i + 2] * low2[i];
        }
""",
"""        for i in 0..m {
            let (d, l) = (diag[i], low2[i]);
            tdma_diag[i] = d * d + l * l;
            if i + 2 < m {
                tdma_off2[i] = l * diag[i + 2];
            }
        }
""")]),
("h-diag-collect", ["C02"], H, [(
"""        let mut tdma_diag = vec![A::zero(); m];
        let mut tdma_off2 = vec![A::zero(); m - 2];
        for (i, v) in tdma_diag.iter_mut().enumerate() {
            *v = diag[i] * diag[i] + low2[i] * low2[i];
        }
        for (i, v) in tdma_off2.iter_mut().enumerate() {
            *v = diag[i + 2] * low2[i];
        }
""",
"""        let tdma_diag: Vec<A> = diag
            .iter()
            .zip(low2.iter())
            .map(|(d, l)| *d * *d + *l * *l)
            .collect();
        let tdma_off2: Vec<A> = (0..m - 2).map(|i| diag[i + 2] * low2[i]).collect();
""")]),
("h-toarray-index", ["C01"], H, [(
"""        for (i, (d, l)) in self.diag.iter().zip(self.low2.iter()).enumerate() {
            mat[[i, i]] = *d;
            mat[[i + 2, i]] = *l;
        }
""",
"""        for i in 0..m {
            mat[[i + 2, i]] = self.low2[i];
            mat[[i, i]] = self.diag[i];
        }
""")]),
("h-toarray-fill", ["C01"], H, [(
"""        for (i, (d, l)) in self.diag.iter().zip(self.low2.iter()).enumerate() {
            mat[[i, i]] = *d;
            mat[[i + 2, i]] = *l;
        }
        mat
""",
"""        Self::fill_diagonal(&mut mat, &self.diag, 0);
        Self::fill_diagonal(&mut mat, &self.low2, 2);
        mat
"""), (
"""    fn get_tdma_diagonals(""",
"""    fn fill_diagonal(mat: &mut Array2<A>, values: &[A], offset: usize) {
        for (i, v) in values.iter().enumerate() {
            mat[[i + offset, i]] = *v;
        }
    }

    fn get_tdma_diagonals(""")]),
("h-pinv-while", ["C04"], H, [(
"""                for j in (0..i - 1).rev().step_by(2) {
                    pinv[[i, j]] = -A::one() * (pinv[[i, j + 2]] * self.low2[j]) / self.diag[j];
                }
""",
"""                let mut j = i;
                while j >= 2 {
                    j -= 2;
                    pinv[[i, j]] = -A::one() * (pinv[[i, j + 2]] * self.low2[j]) / self.diag[j];
                }
""")]),
("h-pinv-running", ["C04"], H, [(
"""                for j in (0..i - 1).rev().step_by(2) {
                    pinv[[i, j]] = -A::one() * (pinv[[i, j + 2]] * self.low2[j]) / self.diag[j];
                }
""",
"""                let mut last = pinv[[i, i]];
                for j in (0..i - 1).rev().step_by(2) {
                    last = -(last * self.low2[j]) / self.diag[j];
                    pinv[[i, j]] = last;
                }
""")]),
("h-pinv-early", ["C04"], H, [(
"""            // Lower triangular part
            if i >= 2 {
                for j in (0..i - 1).rev().step_by(2) {
                    pinv[[i, j]] = -A::one() * (pinv[[i, j + 2]] * self.low2[j]) / self.diag[j];
                }
            }
""",
"""            if i < 2 {
                continue;
            }
            // Lower triangular part
            for j in (0..=i - 2).rev().step_by(2) {
                let above = pinv[[i, j + 2]];
                pinv[[i, j]] = -(above * self.low2[j]) / self.diag[j];
            }
""")]),
("h-pinv-row", ["C04"], H, [(
"""        for i in 0..m {
            // Diagonal
            pinv[[i, i]] = A::one() / self.diag[i];
            // Lower triangular part
            if i >= 2 {
                for j in (0..i - 1).rev().step_by(2) {
                    pinv[[i, j]] = -A::one() * (pinv[[i, j + 2]] * self.low2[j]) / self.diag[j];
                }
            }
        }
        pinv
""",
"""        for i in 0..m {
            self.pinv_row(&mut pinv, i);
        }
        pinv
"""), (
"""    pub(super) fn dot_inplace<T>(&self, v: &[T], u: &mut [T])
    where
        T: Mul<Output = T>
            + Add<Output = T>
            + Add<A, Output = T>
            + Mul<A, Output = T>
""",
"""    fn pinv_row(&self, pinv: &mut Array2<A>, i: usize) {
        pinv[[i, i]] = A::one() / self.diag[i];
        if i >= 2 {
            for j in (0..i - 1).rev().step_by(2) {
                pinv[[i, j]] = -A::one() * (pinv[[i, j + 2]] * self.low2[j]) / self.diag[j];
            }
        }
    }

    pub(super) fn dot_inplace<T>(&self, v: &[T], u: &mut [T])
    where
        T: Mul<Output = T>
            + Add<Output = T>
            + Add<A, Output = T>
            + Mul<A, Output = T>
""")]),
("h-dot-checked", ["C01", "C21"], H, [(
"""        unsafe {
            *u.get_unchecked_mut(0) = *v.get_unchecked(0) * *self.diag.get_unchecked(0);
            *u.get_unchecked_mut(1) = *v.get_unchecked(1) * *self.diag.get_unchecked(1);
            for i in 2..n - 2 {
                *u.get_unchecked_mut(i) = *v.get_unchecked(i) * *self.diag.get_unchecked(i)
                    + *v.get_unchecked(i - 2) * *self.low2.get_unchecked(i - 2);
            }
            *u.get_unchecked_mut(n - 2) = *v.get_unchecked(n - 4) * *self.low2.get_unchecked(n - 4);
            *u.get_unchecked_mut(n - 1) = *v.get_unchecked(n - 3) * *self.low2.get_unchecked(n - 3);
        }
""",
"""        u[0] = v[0] * self.diag[0];
        u[1] = v[1] * self.diag[1];
        for i in 2..n - 2 {
            u[i] = v[i] * self.diag[i] + v[i - 2] * self.low2[i - 2];
        }
        u[n - 2] = v[n - 4] * self.low2[n - 4];
        u[n - 1] = v[n - 3] * self.low2[n - 3];
""")]),
("h-dot-shifted", ["C01", "C21"], H, [(
"""            for i in 2..n - 2 {
                *u.get_unchecked_mut(i) = *v.get_unchecked(i) * *self.diag.get_unchecked(i)
                    + *v.get_unchecked(i - 2) * *self.low2.get_unchecked(i - 2);
            }
            *u.get_unchecked_mut(n - 2) = *v.get_unchecked(n - 4) * *self.low2.get_unchecked(n - 4);
            *u.get_unchecked_mut(n - 1) = *v.get_unchecked(n - 3) * *self.low2.get_unchecked(n - 3);
""",
"""            *u.get_unchecked_mut(n - 1) = *v.get_unchecked(n - 3) * *self.low2.get_unchecked(n - 3);
            *u.get_unchecked_mut(n - 2) = *v.get_unchecked(n - 4) * *self.low2.get_unchecked(n - 4);
            for k in 0..n - 4 {
                let lower = *v.get_unchecked(k) * *self.low2.get_unchecked(k);
                *u.get_unchecked_mut(k + 2) =
                    *v.get_unchecked(k + 2) * *self.diag.get_unchecked(k + 2) + lower;
            }
""")]),
("h-dot-scatter", ["C01"], H, [(
"""        unsafe {
            *u.get_unchecked_mut(0) = *v.get_unchecked(0) * *self.diag.get_unchecked(0);
            *u.get_unchecked_mut(1) = *v.get_unchecked(1) * *self.diag.get_unchecked(1);
            for i in 2..n - 2 {
                *u.get_unchecked_mut(i) = *v.get_unchecked(i) * *self.diag.get_unchecked(i)
                    + *v.get_unchecked(i - 2) * *self.low2.get_unchecked(i - 2);
            }
            *u.get_unchecked_mut(n - 2) = *v.get_unchecked(n - 4) * *self.low2.get_unchecked(n - 4);
            *u.get_unchecked_mut(n - 1) = *v.get_unchecked(n - 3) * *self.low2.get_unchecked(n - 3);
        }
""",
"""        for ui in u.iter_mut() {
            *ui = T::zero();
        }
        for i in 0..n - 2 {
            u[i] = u[i] + v[i] * self.diag[i];
            u[i + 2] = u[i + 2] + v[i] * self.low2[i];
        }
""")]),
("h-solve-zip", ["C02"], H, [(
"""        unsafe {
            for i in 0..v.len() {
                *v.get_unchecked_mut(i) = *u.get_unchecked(i) * *self.diag.get_unchecked(i)
                    + *u.get_unchecked(i + 2) * *self.low2.get_unchecked(i);
            }
        }
""",
"""        for (i, (vi, (d, l))) in v
            .iter_mut()
            .zip(self.diag.iter().zip(self.low2.iter()))
            .enumerate()
        {
            *vi = u[i] * *d + u[i + 2] * *l;
        }
""")]),
("h-3diag-pinv-merged", ["C04"], H, [(
"""            if i >= 1 {
                let j = i - 1;
                pinv[[i, j]] = -A::one() * (pinv[[i, j + 1]] * self.low1[j]) / self.diag[j];
            }
            if i >= 2 {
                for j in (0..i - 1).rev() {
                    pinv[[i, j]] = -A::one()
                        * (pinv[[i, j + 2]] * self.low2[j] + pinv[[i, j + 1]] * self.low1[j])
                        / self.diag[j];
                }
            }
""",
"""            for j in (0..i).rev() {
                let mut sum = pinv[[i, j + 1]] * self.low1[j];
                if j + 2 <= i {
                    sum = sum + pinv[[i, j + 2]] * self.low2[j];
                }
                pinv[[i, j]] = -sum / self.diag[j];
            }
""")]),
("h-3diag2-toarray", ["C01"], H, [(
"""        for (i, ((d, l1), l2)) in self
            .diag
            .iter()
            .zip(self.low2.iter())
            .zip(self.low4.iter())
            .enumerate()
        {
            mat[[i, i]] = *d;
            mat[[i + 2, i]] = *l1;
            mat[[i + 4, i]] = *l2;
        }
""",
"""        for (offset, band) in [(0, &self.diag), (2, &self.low2), (4, &self.low4)] {
            for (i, value) in band.iter().enumerate() {
                mat[[i + offset, i]] = *value;
            }
        }
""")]),
# ---------------------------------------------------------------- linalg
("t-split-last", ["C02", "C21"], TD, [(
"""        for i in 2..n {
            *g.get_unchecked_mut(i) = (*rhs.get_unchecked(i)
                - *g.get_unchecked(i - 2) * *l2.get_unchecked(i - 2))
                / (*d0.get_unchecked(i) - *l2.get_unchecked(i - 2) * *w.get_unchecked(i - 2));
        }
""",
"""        for i in 2..n {
            let pivot = *d0.get_unchecked(i) - *l2.get_unchecked(i - 2) * *w.get_unchecked(i - 2);
            let num = *rhs.get_unchecked(i) - *g.get_unchecked(i - 2) * *l2.get_unchecked(i - 2);
            *g.get_unchecked_mut(i) = num / pivot;
        }
""")]),
("t-fused", ["C02", "C21"], TD, [(
"""        for i in 2..n - 2 {
            *w.get_unchecked_mut(i) = *u2.get_unchecked(i)
                / (*d0.get_unchecked(i) - *l2.get_unchecked(i - 2) * *w.get_unchecked(i - 2));
        }
        for i in 2..n {
            *g.get_unchecked_mut(i) = (*rhs.get_unchecked(i)
                - *g.get_unchecked(i - 2) * *l2.get_unchecked(i - 2))
                / (*d0.get_unchecked(i) - *l2.get_unchecked(i - 2) * *w.get_unchecked(i - 2));
        }
""",
"""        for i in 2..n {
            let pivot = *d0.get_unchecked(i) - *l2.get_unchecked(i - 2) * *w.get_unchecked(i - 2);
            if i < n - 2 {
                *w.get_unchecked_mut(i) = *u2.get_unchecked(i) / pivot;
            }
            *g.get_unchecked_mut(i) = (*rhs.get_unchecked(i)
                - *g.get_unchecked(i - 2) * *l2.get_unchecked(i - 2))
                / pivot;
        }
""")]),
("p-back-while", ["C02", "C21"], PD, [(
"""        for i in (0..n - 2).rev() {
            *rhs.get_unchecked_mut(i) = *ze.get_unchecked(i)
                - *rhs.get_unchecked(i + 1) * *al.get_unchecked(i)
                - *rhs.get_unchecked(i + 2) * *be.get_unchecked(i);
        }
""",
"""        let mut i = n - 2;
        while i > 0 {
            i -= 1;
            *rhs.get_unchecked_mut(i) = *ze.get_unchecked(i)
                - *rhs.get_unchecked(i + 1) * *al.get_unchecked(i)
                - *rhs.get_unchecked(i + 2) * *be.get_unchecked(i);
        }
""")]),
("p-back-mirror", ["C02"], PD, [(
"""        for i in (0..n - 2).rev() {
            *rhs.get_unchecked_mut(i) = *ze.get_unchecked(i)
                - *rhs.get_unchecked(i + 1) * *al.get_unchecked(i)
                - *rhs.get_unchecked(i + 2) * *be.get_unchecked(i);
        }
""",
"""        for k in 0..n - 2 {
            let i = n - 3 - k;
            *rhs.get_unchecked_mut(i) = *ze.get_unchecked(i)
                - *rhs.get_unchecked(i + 1) * *al.get_unchecked(i)
                - *rhs.get_unchecked(i + 2) * *be.get_unchecked(i);
        }
""")]),
("p-reorder", ["C02", "C21"], PD, [(
"""        *mu.get_unchecked_mut(0) = *d0.get_unchecked(0);
        *al.get_unchecked_mut(0) = *u1.get_unchecked(0) / *mu.get_unchecked(0);
        *be.get_unchecked_mut(0) = *u2.get_unchecked(0) / *mu.get_unchecked(0);
        *ze.get_unchecked_mut(0) = *rhs.get_unchecked(0) / *mu.get_unchecked(0);

        *ga.get_unchecked_mut(1) = *l1.get_unchecked(0);
""",
"""        let first = *d0.get_unchecked(0);
        *ga.get_unchecked_mut(1) = *l1.get_unchecked(0);
        *mu.get_unchecked_mut(0) = first;
        *ze.get_unchecked_mut(0) = *rhs.get_unchecked(0) / first;
        *be.get_unchecked_mut(0) = *u2.get_unchecked(0) / first;
        *al.get_unchecked_mut(0) = *u1.get_unchecked(0) / first;
""")]),
("p2-locals", ["C02", "C21"], PD2, [(
"""        for i in 4..n - 4 {
            *ga.get_unchecked_mut(i) =
                *l2.get_unchecked(i - 2) - *al.get_unchecked(i - 4) * *l4.get_unchecked(i - 4);
            *mu.get_unchecked_mut(i) = *d0.get_unchecked(i)
                - *be.get_unchecked(i - 4) * *l4.get_unchecked(i - 4)
                - *al.get_unchecked(i - 2) * *ga.get_unchecked(i);
""",
"""        for i in 4..n - 4 {
            let l4_i = *l4.get_unchecked(i - 4);
            let ga_i = *l2.get_unchecked(i - 2) - *al.get_unchecked(i - 4) * l4_i;
            let mu_i = *d0.get_unchecked(i)
                - *be.get_unchecked(i - 4) * l4_i
                - *al.get_unchecked(i - 2) * ga_i;
            *ga.get_unchecked_mut(i) = ga_i;
            *mu.get_unchecked_mut(i) = mu_i;
""")]),
# ---------------------------------------------------------------- stencils / compo
("s-neumann-map", ["C03", "C01"], ST, [(
"""        let mut low2 = vec![A::zero(); m];
        for (k, v) in low2.iter_mut().enumerate() {
            let k_ = A::from_f64(k.pow(2) as f64).unwrap();
            let k2_ = A::from_f64((k + 2).pow(2) as f64).unwrap();
            *v = -A::one() * k_ / k2_;
        }
""",
"""        let low2: Vec<A> = (0..m)
            .map(|k| {
                let k_ = A::from_f64((k * k) as f64).unwrap();
                let k2_ = A::from_f64(((k + 2) * (k + 2)) as f64).unwrap();
                -k_ / k2_
            })
            .collect();
""")]),
("s-bih-helper", ["C03"], ST, [(
"""            let k = ki as f64;
            let d2 = -2. * (k + 2.) / (k + 3.);
            let d4 = (k + 1.) / (k + 3.);
            *v2 = A::from_f64(d2).unwrap();
            *v4 = A::from_f64(d4).unwrap();
""",
"""            let (d2, d4) = biharmonic_a_coefficients(ki as f64);
            *v4 = A::from_f64(d4).unwrap();
            *v2 = A::from_f64(d2).unwrap();
"""), (
"""impl<A: FloatNum> BiHarmonicA<A> {
""",
"""fn biharmonic_a_coefficients(k: f64) -> (f64, f64) {
    let denom = k + 3.;
    (-2. * (k + 2.) / denom, (k + 1.) / denom)
}

impl<A: FloatNum> BiHarmonicA<A> {
""")]),
("s-dn-hoist", ["C03"], ST, [(
"""            *v1 = A::from_f64(
                (-1. * kf64.powi(2) + (kf64 + 2.).powi(2))
                    / ((kf64 + 1.).powi(2) + (kf64 + 2.).powi(2)),
            )
            .unwrap();
            *v2 = A::from_f64(
                (-1. * kf64.powi(2) - (kf64 + 1.).powi(2))
                    / ((kf64 + 1.).powi(2) + (kf64 + 2.).powi(2)),
            )
            .unwrap();
""",
"""            let k0 = kf64 * kf64;
            let k1 = (kf64 + 1.) * (kf64 + 1.);
            let k2 = (kf64 + 2.) * (kf64 + 2.);
            let denominator = k1 + k2;
            *v1 = A::from_f64((k2 - k0) / denominator).unwrap();
            *v2 = A::from_f64(-(k0 + k1) / denominator).unwrap();
""")]),
("c-ctor-var", ["C20", "C13"], CO, [(
"""        let stencil = Dirichlet::new(n);
        Self {
            n,
            m: Dirichlet::<A>::get_m(n),
            stencil: ChebyshevStencils::Dirichlet(stencil),
            ortho: Chebyshev::<A>::new(n),
        }
""",
"""        let ortho = Chebyshev::<A>::new(n);
        let m = Dirichlet::<A>::get_m(n);
        let stencil = ChebyshevStencils::Dirichlet(Dirichlet::new(n));
        Self {
            n,
            m,
            ortho,
            stencil,
        }
""")]),
("c-ctor-helper", ["C20"], CO, [(
"""        let stencil = Dirichlet::new(n);
        Self {
            n,
            m: Dirichlet::<A>::get_m(n),
            stencil: ChebyshevStencils::Dirichlet(stencil),
            ortho: Chebyshev::<A>::new(n),
        }
""",
"""        Self::with_stencil(
            n,
            Dirichlet::<A>::get_m(n),
            ChebyshevStencils::Dirichlet(Dirichlet::new(n)),
        )
"""), (
"""impl<A: FloatNum> ChebyshevComposite<A> {
""",
"""impl<A: FloatNum> ChebyshevComposite<A> {
    fn with_stencil(n: usize, m: usize, stencil: ChebyshevStencils<A>) -> Self {
        Self {
            n,
            m,
            ortho: Chebyshev::<A>::new(n),
            stencil,
        }
    }

""")]),
("c-gradient-inplace", ["C07", "C21"], CO, [(
"""        let mut scratch: Vec<T> = vec![T::zero(); self.len_orth()];
        self.to_ortho_slice(indata, &mut scratch);
        self.ortho.gradient_slice(&scratch, outdata, n_times);
""",
"""        let len = self.len_orth();
        let mut ortho_coeffs = vec![T::zero(); len];
        self.stencil.dot_inplace(indata, &mut ortho_coeffs[..]);
        self.ortho.gradient_slice(&ortho_coeffs, outdata, n_times);
""")]),
("c-kind-matches", ["C20", "C19"], CO, [(
"""        match self.stencil {
            ChebyshevStencils::Dirichlet(_) => BaseKind::ChebDirichlet,
            ChebyshevStencils::Neumann(_) => BaseKind::ChebNeumann,
""",
"""        match &self.stencil {
            ChebyshevStencils::Neumann(_) => BaseKind::ChebNeumann,
            ChebyshevStencils::Dirichlet(_) => BaseKind::ChebDirichlet,
""")]),
# ---------------------------------------------------------------- ortho
("o-copy-from-slice", ["C02", "C07", "C16", "C21"], O, [(
"""        assert!(outdata.len() == self.m);
        // Copy over
        for (y, x) in outdata.iter_mut().zip(indata.iter()) {
            *y = *x;
        }
""",
"""        assert!(outdata.len() == self.m);
        // Copy over
        let len = outdata.len().min(indata.len());
        outdata[..len].copy_from_slice(&indata[..len]);
""")]),
("o-grad-safe", ["C07", "C21"], O, [(
"""            // Forward
            unsafe {
                *outdata.get_unchecked_mut(0) = *outdata.get_unchecked(1);
                for i in 1..self.m - 1 {
                    *outdata.get_unchecked_mut(i) =
                        two * T::from_usize(i + 1).unwrap() * *outdata.get_unchecked(i + 1);
                }
                *outdata.get_unchecked_mut(self.m - 1) = T::zero();
                // Reverse
                for i in (1..self.m - 2).rev() {
                    *outdata.get_unchecked_mut(i) =
                        *outdata.get_unchecked(i) + *outdata.get_unchecked(i + 2);
                }
                *outdata.get_unchecked_mut(0) =
                    *outdata.get_unchecked(0) + *outdata.get_unchecked(2) / two;
            }
""",
"""            // Forward
            outdata[0] = outdata[1];
            for i in 1..self.m - 1 {
                outdata[i] = two * T::from_usize(i + 1).unwrap() * outdata[i + 1];
            }
            outdata[self.m - 1] = T::zero();
            // Reverse
            for i in (1..self.m - 2).rev() {
                outdata[i] = outdata[i] + outdata[i + 2];
            }
            outdata[0] = outdata[0] + outdata[2] / two;
""")]),
("o-grad-helper", ["C07", "C21"], O, [(
"""        // Differentiate
        let two = T::one() + T::one();
        for _ in 0..n_times {
            // Forward
            unsafe {
""",
"""        // Differentiate
        for _ in 0..n_times {
            Self::differentiate_once(outdata, self.m);
        }
    }
}

impl<A: FloatNum> Chebyshev<A> {
    fn differentiate_once<T: ScalarNum>(outdata: &mut [T], m: usize) {
        let two = T::one() + T::one();
        {
            // Forward
            unsafe {
"""), (
"""                for i in 1..self.m - 1 {
                    *outdata.get_unchecked_mut(i) =
                        two""",
"""                for i in 1..m - 1 {
                    *outdata.get_unchecked_mut(i) =
                        two"""), (
"""                *outdata.get_unchecked_mut(self.m - 1) = T::zero();
                // Reverse
                for i in (1..self.m - 2).rev() {
""",
"""                *outdata.get_unchecked_mut(m - 1) = T::zero();
                // Reverse
                for i in (1..m - 2).rev() {
""")]),
("o-grad-while", ["C07"], O, [(
"""        for _ in 0..n_times {
            // Forward
            unsafe {
""",
"""        let mut done = 0;
        while done < n_times {
            done += 1;
            // Forward
            unsafe {
""")]),
("o-dmat-helper", ["C05"], O, [(
"""                for q in p + 1..n {
                    if (p + q) % 2 != 0 {
                        dmat[[p, q]] = (q * 2) as f64;
                    }
                }
""",
"""                for q in (p + 1..n).step_by(2) {
                    dmat[[p, q]] = 2. * q as f64;
                }
""")]),
("o-dmat-match", ["C05"], O, [(
"""        if deriv == 1 {
            for p in 0..n {
                for q in p + 1..n {
                    if (p + q) % 2 != 0 {
                        dmat[[p, q]] = (q * 2) as f64;
                    }
                }
            }
        } else if deriv == 2 {
            for p in 0..n {
                for q in p + 2..n {
                    if (p + q) % 2 == 0 {
                        dmat[[p, q]] = (q * (q * q - p * p)) as f64;
                    }
                }
            }
        } else if deriv == 3 {
""",
"""        if deriv < 3 && deriv > 0 {
            for p in 0..n {
                for q in p + deriv..n {
                    if (q - p) % 2 != deriv % 2 {
                        continue;
                    }
                    dmat[[p, q]] = match deriv {
                        1 => (2 * q) as f64,
                        _ => (q * (q - p) * (q + p)) as f64,
                    };
                }
            }
        } else if deriv == 3 {
""")]),
("o-dmat-row0", ["C05"], O, [(
"""        for d in dmat.slice_mut(s![0, ..]).iter_mut() {
            *d *= 0.5;
        }
        dmat.mapv(|elem| A::from_f64(elem).unwrap())
""",
"""        for q in 0..n {
            dmat[[0, q]] *= 0.5;
        }
        dmat.mapv(|elem| A::from_f64(elem).unwrap())
""")]),
("o-dmat-row", ["C05"], O, [(
"""        for d in dmat.slice_mut(s![0, ..]).iter_mut() {
            *d *= 0.5;
        }
        dmat.mapv(|elem| A::from_f64(elem).unwrap())
""",
"""        dmat.row_mut(0).mapv_inplace(|d| d / 2.);
        dmat.mapv(|elem| A::from_f64(elem).unwrap())
""")]),
("o-pinv-fuse", ["C06"], O, [(
"""            pinv[[1, 0]] = 1.;
            for i in 2..n {
                pinv[[i, i - 1]] = 1. / (2. * i as f64); // diag - 1
            }
            for i in 1..n.saturating_sub(2) {
                pinv[[i, i + 1]] = -1. / (2. * i as f64); // diag + 1
            }
""",
"""            pinv[[1, 0]] = 1.;
            for i in 1..n {
                let c = 0.5 / i as f64;
                if i > 1 {
                    pinv[[i, i - 1]] = c; // diag - 1
                }
                if i + 2 < n {
                    pinv[[i, i + 1]] = -c; // diag + 1
                }
            }
""")]),
("o-pinv-closure", ["C06"], O, [(
"""            for i in 3..n {
                pinv[[i, i - 2]] = 1. / (4 * i * (i - 1)) as f64; // diag - 2
            }
""",
"""            let lower = |i: usize| 0.25 / ((i - 1) * i) as f64;
            for i in 3..n {
                pinv[[i, i - 2]] = lower(i); // diag - 2
            }
""")]),
("o-eye-build", ["C06"], O, [(
"""        let pinv_eye = Array2::<f64>::eye(n).slice(s![deriv.., ..]).to_owned();
        pinv_eye.mapv(|elem| A::from_f64(elem).unwrap())
""",
"""        let mut pinv_eye = Array2::<A>::zeros((n - deriv, n));
        for i in 0..n - deriv {
            pinv_eye[[i, i + deriv]] = A::one();
        }
        pinv_eye
""")]),
("o-nodes-loop", ["C13"], O, [(
"""        (0..n)
            .map(|k| {
                let arg = A::from_f64(PI * (m - 2. * k as f64) / (2. * m)).unwrap();
                -A::one() * arg.sin()
            })
            .collect::<Vec<A>>()
""",
"""        let mut nodes = Vec::with_capacity(n);
        for k in 0..n {
            let arg = A::from_f64(PI * (m - 2. * k as f64) / (2. * m)).unwrap();
            nodes.push(-arg.sin());
        }
        nodes
""")]),
("o-forward-index", ["C08", "C16", "C09"], O, [(
"""        for (y, x) in outdata.iter_mut().zip(indata.iter().rev()) {
            *y = *x * cor;
        }
""",
"""        let last = indata.len() - 1;
        for i in 0..indata.len() {
            outdata[i] = cor * indata[last - i];
        }
""")]),
("o-backward-sign", ["C08", "C09"], O, [(
"""        for (i, (y, x)) in outdata.iter_mut().zip(indata.iter()).enumerate() {
            if i % 2 == 0 {
                *y = *x;
            } else {
                *y = *x * -A::one();
            }
        }
""",
"""        let mut sign = A::one();
        for (y, x) in outdata.iter_mut().zip(indata.iter()) {
            *y = *x * sign;
            sign = -sign;
        }
""")]),
("o-backward-steps", ["C08", "C09"], O, [(
"""        for (i, (y, x)) in outdata.iter_mut().zip(indata.iter()).enumerate() {
            if i % 2 == 0 {
                *y = *x;
            } else {
                *y = *x * -A::one();
            }
        }
""",
"""        outdata.copy_from_slice(indata);
        for y in outdata.iter_mut().skip(1).step_by(2) {
            *y = -*y;
        }
""")]),
("o-stencil-eye", ["C04"], O, [(
"""    fn stencil_inv(&self) -> Array2<Self::NumType> {
        Array2::<A>::eye(self.len_spec())
    }
""",
"""    fn stencil_inv(&self) -> Array2<Self::NumType> {
        self.stencil()
    }
""")]),
# ---------------------------------------------------------------- fourier
("r-diffmat-index", ["C10", "C11"], R2, [(
"""        for (l, k) in mat.diag_mut().iter_mut().zip(wavenum.iter()) {
            *l = k.powi(deriv.try_into().unwrap());
        }
        mat
""",
"""        let exponent: i32 = deriv.try_into().unwrap();
        for (i, k) in wavenum.iter().enumerate() {
            mat[[i, i]] = k.powi(exponent);
        }
        mat
""")]),
("r-grad-kn", ["C10"], R2, [(
"""        for _ in 0..n_times {
            for (k, y) in outdata.iter_mut().enumerate() {
                let ki: Complex<A> = Complex::<A>::new(A::zero(), A::from_usize(k).unwrap());
                *y = *y * ki;
            }
        }
""",
"""        for (k, y) in outdata.iter_mut().enumerate() {
            let ki: Complex<A> = Complex::<A>::new(A::zero(), A::from_usize(k).unwrap());
            for _ in 0..n_times {
                *y = *y * ki;
            }
        }
""")]),
("r-grad-wavenumber", ["C10"], R2, [(
"""            for (k, y) in outdata.iter_mut().enumerate() {
                let ki: Complex<A> = Complex::<A>::new(A::zero(), A::from_usize(k).unwrap());
                *y = *y * ki;
            }
""",
"""            for (y, k) in outdata.iter_mut().zip(Self::wavenumber(self.n)) {
                *y = *y * k;
            }
""")]),
("r-backward-tovec", ["C12"], R2, [(
"""        let mut indata_mut = vec![Self::Spectral::zero(); indata.len()];
        let cor = A::one() / A::from_usize(self.len_phys()).unwrap();
        for (a, b) in indata_mut.iter_mut().zip(indata.iter()) {
            a.re = cor * b.re;
            a.im = cor * b.im;
        }
""",
"""        let cor = A::one() / A::from_usize(self.len_phys()).unwrap();
        let mut indata_mut: Vec<Self::Spectral> = indata.iter().map(|b| *b * cor).collect();
""")]),
("r-forward-tovec", ["C12"], R2, [(
"""        let mut indata_mut = vec![Self::Physical::zero(); indata.len()];
        for (a, b) in indata_mut.iter_mut().zip(indata.iter()) {
            *a = *b;
        }
""",
"""        let mut indata_mut = indata.to_vec();
""")]),
("r-lap-map", ["C10", "C11"], R2, [(
"""        let wavenum = Self::wavenumber(self.len_phys());
        let mut lap = Array2::<A>::zeros((self.m, self.m));
        for (l, k) in lap.diag_mut().iter_mut().zip(wavenum.iter()) {
            *l = -k.im * k.im;
        }
        lap
""",
"""        let mut lap = Array2::<A>::zeros((self.m, self.m));
        for i in 0..self.m {
            let k = A::from_usize(i).unwrap();
            lap[[i, i]] = -(k * k);
        }
        lap
""")]),
("r-pinv-loop", ["C11"], R2, [(
"""        for p in pinv.slice_mut(ndarray::s![1.., 1..]).diag_mut().iter_mut() {
            *p = Self::NumType::one() / *p;
        }
        (pinv, peye)
""",
"""        for i in 1..self.m {
            pinv[[i, i]] = Self::NumType::one() / pinv[[i, i]];
        }
        (pinv, peye)
""")]),
("r-pinv-skip", ["C11"], R2, [(
"""        for p in d_pinv.slice_mut(s![1.., 1..]).diag_mut().iter_mut() {
            *p = A::one() / *p;
        }
""",
"""        for p in d_pinv.diag_mut().iter_mut().skip(1) {
            *p = A::one() / *p;
        }
""")]),
("z-wavenumber-branch", ["C10", "C11"], C2, [(
"""        let n2 = (n - 1) / 2 + 1;
        let mut k: Vec<Complex<A>> = vec![Complex::<A>::zero(); n];
        for (i, ki) in k.iter_mut().take(n2).enumerate() {
            ki.im = A::from(i).unwrap();
        }
        for (i, ki) in k.iter_mut().rev().take(n / 2).enumerate() {
            ki.im = A::from(-1. * (i + 1) as f64).unwrap();
        }
        k
""",
"""        let positive = (n + 1) / 2;
        (0..n)
            .map(|i| {
                let k = if i < positive {
                    i as f64
                } else {
                    i as f64 - n as f64
                };
                Complex::new(A::zero(), A::from_f64(k).unwrap())
            })
            .collect()
""")]),
("z-grad-helper", ["C10"], C2, [(
"""        let n = self.len_spec();
        let n2 = (n - 1) / 2 + 1;
        for _ in 0..n_times {
            for (k, y) in outdata.iter_mut().take(n2).enumerate() {
                let ki: Complex<A> = Complex::<A>::new(A::zero(), A::from_usize(k).unwrap());
                *y = *y * ki;
            }
            for (k, y) in outdata.iter_mut().rev().take(n / 2).enumerate() {
                let ki: Complex<A> = Complex::<A>::new(A::zero(), -A::from_usize(k + 1).unwrap());
                *y = *y * ki;
            }
        }
""",
"""        let wavenumber = Self::wavenumber(self.len_spec());
        for _ in 0..n_times {
            for (y, k) in outdata.iter_mut().zip(wavenumber.iter()) {
                *y = *y * *k;
            }
        }
""")]),
("z-grad-split", ["C10"], C2, [(
"""            for (k, y) in outdata.iter_mut().take(n2).enumerate() {
                let ki: Complex<A> = Complex::<A>::new(A::zero(), A::from_usize(k).unwrap());
                *y = *y * ki;
            }
            for (k, y) in outdata.iter_mut().rev().take(n / 2).enumerate() {
                let ki: Complex<A> = Complex::<A>::new(A::zero(), -A::from_usize(k + 1).unwrap());
                *y = *y * ki;
            }
""",
"""            let (positive, negative) = outdata.split_at_mut(n2);
            for (k, y) in positive.iter_mut().enumerate() {
                *y = *y * Complex::<A>::new(A::zero(), A::from_usize(k).unwrap());
            }
            for (k, y) in negative.iter_mut().rev().enumerate() {
                *y = *y * Complex::<A>::new(A::zero(), -A::from_usize(k + 1).unwrap());
            }
""")]),
("z-backward-scale", ["C12", "C14"], C2, [(
"""        for (a, b) in outdata.iter_mut().zip(indata.iter()) {
            a.re = cor * b.re;
            a.im = cor * b.im;
        }
        self.plan_bwd.process(outdata);
""",
"""        outdata.copy_from_slice(indata);
        for a in outdata.iter_mut() {
            *a = a.scale(cor);
        }
        self.plan_bwd.process(outdata);
""")]),
("z-backward-after", ["C12"], C2, [(
"""        for (a, b) in outdata.iter_mut().zip(indata.iter()) {
            a.re = cor * b.re;
            a.im = cor * b.im;
        }
        self.plan_bwd.process(outdata);
""",
"""        for (a, b) in outdata.iter_mut().zip(indata.iter()) {
            *a = *b;
        }
        self.plan_bwd.process(outdata);
        for a in outdata.iter_mut() {
            *a = *a * cor;
        }
""")]),
("z-nodes-step", ["C13"], C2, [(
"""        (0..n)
            .map(|j| A::from_f64(2. * PI * j as f64 / n64).unwrap())
            .collect::<Vec<A>>()
""",
"""        let mut x = vec![A::zero(); n];
        for (j, xj) in x.iter_mut().enumerate() {
            *xj = A::from_f64(2. * PI / n64 * j as f64).unwrap();
        }
        x
""")]),
# ---------------------------------------------------------------- lanes / spaces
("m-serial-scratch", ["C14", "C16"], M, [(
"""                let mut scratch: Vec<$t2> = vec![<$t2>::zero(); outdata.shape()[axis]];
                Zip::from(indata.lanes(Axis(axis)))
                    .and(outdata.lanes_mut(Axis(axis)))
                    .for_each(|x, mut y| {
                        self.$f(&x.to_vec(), &mut scratch);
                        for (yi, si) in y.iter_mut().zip(scratch.iter()) {
                            *yi = *si;
                        }
                    });
""",
"""                let len = self.$l2();
                let mut buffer: Vec<$t2> = vec![<$t2>::zero(); len];
                Zip::from(indata.lanes(Axis(axis)))
                    .and(outdata.lanes_mut(Axis(axis)))
                    .for_each(|lane_in, mut lane_out| {
                        let values = lane_in.to_vec();
                        self.$f(&values, &mut buffer);
                        for i in 0..len {
                            lane_out[i] = buffer[i];
                        }
                    });
""")]),
("m-serial-for", ["C14", "C16"], M, [(
"""                Zip::from(indata.lanes(Axis(axis)))
                    .and(outdata.lanes_mut(Axis(axis)))
                    .for_each(|x, mut y| {
                        self.$f(x.as_slice().unwrap(), y.as_slice_mut().unwrap());
                    });
""",
"""                for (k, (a, b)) in indata.shape().iter().zip(outdata.shape()).enumerate() {
                    assert!(k == axis || a == b);
                }
                for (x, mut y) in indata
                    .lanes(Axis(axis))
                    .into_iter()
                    .zip(outdata.lanes_mut(Axis(axis)).into_iter())
                {
                    self.$f(x.as_slice().unwrap(), y.as_slice_mut().unwrap());
                }
""")]),
("m-serial-assign", ["C14"], M, [(
"""                let mut scratch: Vec<$t2> = vec![<$t2>::zero(); outdata.shape()[axis]];
                Zip::from(indata.lanes(Axis(axis)))
                    .and(outdata.lanes_mut(Axis(axis)))
                    .for_each(|x, mut y| {
                        self.$f(&x.to_vec(), &mut scratch);
                        for (yi, si) in y.iter_mut().zip(scratch.iter()) {
                            *yi = *si;
                        }
                    });
""",
"""                let mut scratch: Vec<$t2> = vec![<$t2>::zero(); outdata.shape()[axis]];
                Zip::from(indata.lanes(Axis(axis)))
                    .and(outdata.lanes_mut(Axis(axis)))
                    .for_each(|x, mut y| {
                        self.$f(&x.to_vec(), &mut scratch);
                        y.assign(&ndarray::ArrayView1::from(&scratch));
                    });
""")]),
("m-par-order", ["C15"], M, [(
"""            let outer_axis = indata.ndim() - 1;
            if axis == outer_axis {
                // Data is contiguous in memory
                Zip::from(indata.lanes(Axis(axis)))
                    .and(outdata.lanes_mut(Axis(axis)))
                    .par_for_each(|x, mut y| {
                        self.$f(x.as_slice().unwrap(), y.as_slice_mut().unwrap());
                    });
            } else {
                // Data is *not* contiguous in memory.
                let scratch_len = outdata.shape()[axis];
                Zip::from(indata.lanes(Axis(axis)))
                    .and(outdata.lanes_mut(Axis(axis)))
                    .par_for_each(|x, mut y| {
                        let mut scratch: Vec<$t2> = vec![<$t2>::zero(); scratch_len];
                        self.$f(&x.to_vec(), &mut scratch);
                        for (yi, si) in y.iter_mut().zip(scratch.iter()) {
                            *yi = *si;
                        }
                    });
            }
""",
"""            let contiguous = axis + 1 == indata.ndim();
            let lanes = Zip::from(indata.lanes(Axis(axis))).and(outdata.lanes_mut(Axis(axis)));
            lanes.par_for_each(|x, mut y| {
                if contiguous {
                    self.$f(x.as_slice().unwrap(), y.as_slice_mut().unwrap());
                } else {
                    let mut scratch: Vec<$t2> = vec![<$t2>::zero(); y.len()];
                    self.$f(&x.to_vec(), &mut scratch);
                    for (yi, si) in y.iter_mut().zip(scratch.into_iter()) {
                        *yi = si;
                    }
                }
            });
""")]),
("g-grad-lanes", ["C14", "C15"], TR, [(
"""            Zip::from(indata.rows())
                .and(outdata.rows_mut())
                .for_each(|x, mut y| {
""",
"""            Zip::from(indata.lanes(Axis(axis)))
                .and(outdata.lanes_mut(Axis(axis)))
                .for_each(|x, mut y| {
""")]),
("g-resize", ["C14", "C17"], U, [(
"""    // Get dim
    let mut dim = input.raw_dim();

    // Replace position in dim
    dim[axis] = size;

    // Return
    ndarray::Array::<T, D>::zeros(dim)
""",
"""    let mut dim = input.raw_dim();
    dim.slice_mut()[axis] = size;
    ndarray::Array::zeros(dim)
""")]),
("g-check-match", ["C16"], U, [(
"""    // Arrays size
    let m = input.shape()[axis];

    assert!(
        input.shape()[axis] == size,
        "Size mismatch in {}, got {} expected {} along axis {}",
        function_name,
        size,
        m,
        axis
    );
""",
"""    let m = input.len_of(ndarray::Axis(axis));
    if m == size {
        return;
    }
    panic!(
        "Size mismatch in {}, got {} expected {} along axis {}",
        function_name, size, m, axis
    );
""")]),
("x-space2-scale", ["C18"], S2, [(
"""                let buffer = self.base0.gradient(input, deriv[0], 0);
                let mut output = self.base1.gradient(&buffer, deriv[1], 1);
                if let Some(s) = scale {
                    let sc: T = (s[0].powi(deriv[0] as i32) * s[1].powi(deriv[1] as i32)).into();
                    for x in output.iter_mut() {
                        *x /= sc;
                    }
                }
                output
""",
"""                let mut output =
                    self.base1
                        .gradient(&self.base0.gradient(input, deriv[0], 0), deriv[1], 1);
                match scale {
                    None => output,
                    Some([s0, s1]) => {
                        let factor = s1.powi(deriv[1] as i32) * s0.powi(deriv[0] as i32);
                        let sc: T = factor.into();
                        output.mapv_inplace(|x| x / sc);
                        output
                    }
                }
""")]),
("x-space2-swap", ["C18"], S2, [(
"""                let buffer = self.base0.gradient(input, deriv[0], 0);
                let mut output = self.base1.gradient(&buffer, deriv[1], 1);
""",
"""                let buffer = self.base1.gradient(input, deriv[1], 1);
                let mut output = self.base0.gradient(&buffer, deriv[0], 0);
""")]),
("x-space3-fold", ["C18"], S3, [(
"""                    let sc: T = (s[0].powi(deriv[0] as i32)
                        * s[1].powi(deriv[1] as i32)
                        * s[2].powi(deriv[2] as i32))
                    .into();
                    for x in output.iter_mut() {
                        *x /= sc;
                    }
                }
                output
            }
            /// Take gradient. Optional: Rescale result by a constant.
            ///
            /// # Arguments
            ///
            /// * `input` - *ndarray* with num type of spectral space
            /// * `deriv` - [usize; N], derivative along each axis
""",
"""                    let mut factor = A::one();
                    for (si, d) in s.iter().zip(deriv.iter()) {
                        factor = factor * si.powi(*d as i32);
                    }
                    let sc: T = factor.into();
                    for x in output.iter_mut() {
                        *x /= sc;
                    }
                }
                output
            }
            /// Take gradient. Optional: Rescale result by a constant.
            ///
            /// # Arguments
            ///
            /// * `input` - *ndarray* with num type of spectral space
            /// * `deriv` - [usize; N], derivative along each axis
""")]),
("x-space2-match", ["C19"], S2, [(
"""            fn laplacian(&self, axis: usize) -> Array2<A> {
                if axis == 0 {
                    self.base0.laplacian()
                } else {
                    self.base1.laplacian()
                }
            }
""",
"""            fn laplacian(&self, axis: usize) -> Array2<A> {
                match axis {
                    0 => self.base0.laplacian(),
                    _ => self.base1.laplacian(),
                }
            }
""")]),
("x-space2-early", ["C19"], S2, [(
"""            fn coords_axis(&self, axis: usize) -> Array1<A> {
                if axis == 0 {
                    self.base0.coords().into()
                } else {
                    self.base1.coords().into()
                }
            }
""",
"""            fn coords_axis(&self, axis: usize) -> Array1<A> {
                if axis != 0 {
                    return Array1::from_vec(self.base1.coords());
                }
                let x = self.base0.coords();
                Array1::from(x)
            }
""")]),
("x-space2-toortho", ["C17"], S2, [(
"""                let buffer = self.base0.to_ortho(input, 0);
                self.base1.to_ortho_inplace(&buffer, output, 1);
            }

            /// Transformation from orthonormal and to composite space (inplace).
""",
"""                let buffer = self.base1.to_ortho(input, 1);
                self.base0.to_ortho_inplace(&buffer, output, 0);
            }

            /// Transformation from orthonormal and to composite space (inplace).
""")]),
# ---------------------------------------------------------------- space_mpi
("d-dist-one-loop", ["C22"], DI, [(
"""        for i in 1..nl {
            st[i] = st[i - 1] + size;
            sz[i] = size;
            en[i] = en[i - 1] + size;
        }
        // Distribute  N+1 points on the last processors
        let size = size + 1;
        for i in nl..nprocs {
            st[i] = en[i - 1] + 1;
            sz[i] = size;
            en[i] = en[i - 1] + size;
        }
""",
"""        for i in 1..nprocs {
            let len = if i < nl { size } else { size + 1 };
            st[i] = en[i - 1] + 1;
            en[i] = st[i] + len - 1;
            sz[i] = len;
        }
""")]),
("d-dist-push", ["C22"], DI, [(
"""        let mut st = vec![0; nprocs];
        let mut en = vec![0; nprocs];
        let mut sz = vec![0; nprocs];
        // Try to distribute N points
        st[0] = 0;
        sz[0] = size;
        en[0] = size - 1;
        // Distribute the rest if necessary
        let nu = n_global - size * nprocs;
""",
"""        let mut st = Vec::with_capacity(nprocs);
        let mut en = Vec::with_capacity(nprocs);
        let mut sz = Vec::with_capacity(nprocs);
        // Distribute the rest if necessary
        let nu = n_global % nprocs;
"""), (
"""        // Distribute N points on the first processors
        for i in 1..nl {
            st[i] = st[i - 1] + size;
            sz[i] = size;
            en[i] = en[i - 1] + size;
        }
        // Distribute  N+1 points on the last processors
        let size = size + 1;
        for i in nl..nprocs {
            st[i] = en[i - 1] + 1;
            sz[i] = size;
            en[i] = en[i - 1] + size;
        }
        // Very last processor
        en[nprocs - 1] = n_global - 1;
        sz[nprocs - 1] = en[nprocs - 1] - st[nprocs - 1] + 1;
""",
"""        let mut first = 0;
        for i in 0..nprocs {
            let len = size + usize::from(i >= nl);
            st.push(first);
            sz.push(len);
            en.push(first + len - 1);
            first += len;
        }
""")]),
("d-dist-formula", ["C22"], DI, [(
"""        for i in 1..nl {
            st[i] = st[i - 1] + size;
            sz[i] = size;
            en[i] = en[i - 1] + size;
        }
        // Distribute  N+1 points on the last processors
        let size = size + 1;
        for i in nl..nprocs {
            st[i] = en[i - 1] + 1;
            sz[i] = size;
            en[i] = en[i - 1] + size;
        }
""",
"""        let first = |i: usize| i * size + i.saturating_sub(nl);
        for i in 0..nprocs {
            st[i] = first(i);
            en[i] = first(i + 1) - 1;
            sz[i] = first(i + 1) - first(i);
        }
""")]),
("d-new-index", ["C22"], DI, [(
"""            for (i, j) in st_procs.iter_mut().zip(st_split.iter()) {
                i[axis] = *j;
            }
            for (i, j) in en_procs.iter_mut().zip(en_split.iter()) {
                i[axis] = *j;
            }
            for (i, j) in sz_procs.iter_mut().zip(sz_split.iter()) {
                i[axis] = *j;
            }
""",
"""            for proc in 0..nprocs {
                st_procs[proc][axis] = st_split[proc];
                en_procs[proc][axis] = en_split[proc];
                sz_procs[proc][axis] = sz_split[proc];
            }
""")]),
("d-new-filter", ["C22"], DI, [(
"""        for axis in 0..N {
            if axis == axis_contig {
                continue;
            }
            // Distribute""",
"""        for axis in (0..N).filter(|&a| a != axis_contig) {
            // Distribute""")]),
("d-length-fold", ["C22", "C23"], DI, [("self.sz.iter().product()", "self.sz.iter().fold(1, |len, n| len * n)")]),
("d-counts-loop", ["C23"], DI, [(
"""        let displs: Vec<Count> = counts
            .iter()
            .scan(0, |acc, &x| {
                let tmp = *acc;
                *acc += x;
                Some(tmp)
            })
            .collect();
        (counts, displs)
    }
}
""",
"""        let mut displs: Vec<Count> = Vec::with_capacity(counts.len());
        let mut acc = 0;
        for &x in counts.iter() {
            displs.push(acc);
            acc += x;
        }
        (counts, displs)
    }
}
"""), (
"""        let displs: Vec<Count> = counts
            .iter()
            .scan(0, |acc, &x| {
                let tmp = *acc;
                *acc += x;
                Some(tmp)
            })
            .collect();
        (counts, displs)
    }

    /// Return processor's""",
"""        let mut displs: Vec<Count> = vec![0; counts.len()];
        for i in 1..counts.len() {
            displs[i] = displs[i - 1] + counts[i - 1];
        }
        (counts, displs)
    }

    /// Return processor's""")]),
("d-counts-helper", ["C23"], DI, [(
"""        let displs: Vec<Count> = counts
            .iter()
            .scan(0, |acc, &x| {
                let tmp = *acc;
                *acc += x;
                Some(tmp)
            })
            .collect();
        (counts, displs)
    }
}
""",
"""        let displs = displacements(&counts);
        (counts, displs)
    }
}

/// Start of each segment
fn displacements(counts: &[Count]) -> Vec<Count> {
    counts
        .iter()
        .scan(0, |acc, &x| {
            let tmp = *acc;
            *acc += x;
            Some(tmp)
        })
        .collect()
}
""")]),
("d-counts-gather", ["C23"], DI, [(
"""            .map(|x| (x.iter().product::<usize>()) as i32)
""", """            .map(|x| {
                let mut len = 1;
                for n in x.iter() {
                    len *= n;
                }
                len as Count
            })
""")]),
("d-split-copy", ["C23"], DI, [(
"""        pencil.assign(&global.slice(s![self.st[0]..=self.en[0], self.st[1]..=self.en[1]]));
""",
"""        let part = global.slice(s![self.st[0]..=self.en[0], self.st[1]..=self.en[1]]);
        assert!(pencil.shape() == part.shape());
        for (p, g) in pencil.iter_mut().zip(part.iter()) {
            *p = *g;
        }
""")]),
("d-split-half-open", ["C23"], DI, [(
"""        global
            .slice(s![self.st[0]..=self.en[0], self.st[1]..=self.en[1]])
            .to_owned()
""",
"""        let (i, j) = (self.st[0], self.st[1]);
        global
            .slice(s![i..i + self.sz[0], j..j + self.sz[1]])
            .to_owned()
""")]),
("d-merge-slice", ["C23"], DM, [(
"""            for i in 0..self.y_pencil.sz[0] {
                for j in j1..=j2 {
                    data[[i, j]] = buf[pos];
                    pos += 1;
                }
            }
""",
"""            let nj = j2 + 1 - j1;
            for i in 0..self.y_pencil.sz[0] {
                for j in 0..nj {
                    data[[i, j1 + j]] = buf[pos + i * nj + j];
                }
            }
            pos += self.y_pencil.sz[0] * nj;
""")]),
("d-merge-chunks", ["C23"], DM, [(
"""            for j in 0..self.x_pencil.sz[1] {
                for i in i1..=i2 {
                    data[[i, j]] = buf[pos];
                    pos += 1;
                }
            }
""",
"""            let len = i2 - i1 + 1;
            for j in 0..self.x_pencil.sz[1] {
                for (k, b) in buf[pos..pos + len].iter().enumerate() {
                    data[[i1 + k, j]] = *b;
                }
                pos += len;
            }
""")]),
("d-merge-zip", ["C23"], DM, [(
"""        let mut pos = 0;
        for proc in 0..self.nprocs as usize {
            let j1 = self.x_pencil.st_procs[proc][1];
            let j2 = self.x_pencil.en_procs[proc][1];
            for i""",
"""        let mut pos = 0;
        for (st, en) in self.x_pencil.st_procs.iter().zip(self.x_pencil.en_procs.iter()) {
            let (j1, j2) = (st[1], en[1]);
            for i""")]),
("d-split-yx-loops", ["C23"], DM, [(
"""        let mut data_view = data.view();
        data_view.swap_axes(0, 1);
        for (d, b) in data_view.iter().zip(buf.iter_mut()) {
            *b = *d;
        }
""",
"""        let (ni, nj) = data.dim();
        for j in 0..nj {
            for i in 0..ni {
                buf[j * ni + i] = data[[i, j]];
            }
        }
""")]),
("d-split-yx-t", ["C23"], DM, [(
"""        let mut data_view = data.view();
        data_view.swap_axes(0, 1);
        for (d, b) in data_view.iter().zip(buf.iter_mut()) {
            *b = *d;
        }
""",
"""        for (b, d) in buf.iter_mut().zip(data.t().iter()) {
            *b = *d;
        }
""")]),
("d-pack-helper", ["C23"], DM, [(
"""        let mut send = vec![T::zero(); self.x_pencil.length()];
        let mut snd_view = snd.view();
        snd_view.swap_axes(0, 1);
        for (s, m) in send.iter_mut().zip(snd_view.iter()) {
            *s = *m;
        }
        // gather
""",
"""        let send = pack_transposed(snd);
        // gather
"""), (
"""/// # Panics
/// Panics if array shape does not conform with pencil distribution
fn check_shape<""",
"""/// Elements of an array, first axis running fastest
fn pack_transposed<S, T>(data: &ArrayBase<S, Ix2>) -> Vec<T>
where
    S: Data<Elem = T>,
    T: Copy,
{
    data.t().iter().copied().collect()
}

/// # Panics
/// Panics if array shape does not conform with pencil distribution
fn check_shape<""")]),
("d-gather-assert", ["C23"], DM, [(
"""        // gather
        if self.nrank == root_rank {
            panic!("Rank must not be root!");
        } else {
            root_process.gather_varcount_into(&send[..]);
        }
""",
"""        // gather
        assert!(self.nrank != root_rank, "Rank must not be root!");
        root_process.gather_varcount_into(&send[..]);
"""), (
"""        let root_rank = 0;
        if self.nrank == root_rank {
            let mut recv = Array2::<T>::zeros(self.n_global);
            self.gather_x_inplace_root(snd, &mut recv);
            recv
        } else {
            panic!("Rank must be root!");
        }
""",
"""        if self.nrank != 0 {
            panic!("Rank must be root!");
        }
        let mut recv = Array2::<T>::zeros(self.n_global);
        self.gather_x_inplace_root(snd, &mut recv);
        recv
""")]),
("d-gather-order", ["C23"], DM, [(
"""        let root_rank = 0;
        let root_process = self.world.process_at_rank(root_rank);

        // send buffer
        check_shape(snd, self.x_pencil.sz);
        let mut send = vec![T::zero(); self.x_pencil.length()];
        let mut snd_view = snd.view();
        snd_view.swap_axes(0, 1);
        for (s, m) in send.iter_mut().zip(snd_view.iter()) {
            *s = *m;
        }
        // gather on root
        if self.nrank == root_rank {
            let recv_length = self.n_global.iter().product::<usize>();
            let mut recv = vec![T::zero(); recv_length];
""",
"""        check_shape(snd, self.x_pencil.sz);
        check_shape(rcv, self.n_global);
        let root_rank = 0;
        let root_process = self.world.process_at_rank(root_rank);

        // send buffer
        let mut send = vec![T::zero(); self.x_pencil.length()];
        let nx = self.x_pencil.sz[0];
        for ((i, j), v) in snd.indexed_iter() {
            send[j * nx + i] = *v;
        }
        // gather on root
        if self.nrank == root_rank {
            let recv_length = self.n_global[0] * self.n_global[1];
            let mut recv = vec![T::zero(); recv_length];
""")]),
("d-scatter-indexed", ["C23"], DM, [(
"""        // copy receive buffer into array
        // *todo*: prevent copy by referencing?
        rcv.swap_axes(0, 1);
        for (s, m) in rcv.iter_mut().zip(recv.iter()) {
            *s = *m;
        }
        rcv.swap_axes(0, 1);
    }

    /// Scatter data from x-pencil
    ///
    /// Call this routine from root,
""",
"""        // copy receive buffer into array
        // *todo*: prevent copy by referencing?
        let nx = self.x_pencil.sz[0];
        for ((i, j), v) in rcv.indexed_iter_mut() {
            *v = recv[j * nx + i];
        }
    }

    /// Scatter data from x-pencil
    ///
    /// Call this routine from root,
""")]),
("d-scatter-reversed", ["C23"], DM, [(
"""        // copy receive buffer into array
        // *todo*: prevent copy by referencing?
        rcv.swap_axes(0, 1);
        for (s, m) in rcv.iter_mut().zip(recv.iter()) {
            *s = *m;
        }
        rcv.swap_axes(0, 1);
    }

    /// Scatter data from x-pencil
    ///
    /// Call this routine from root,
""",
"""        // copy receive buffer into array
        // *todo*: prevent copy by referencing?
        let mut view = rcv.view_mut().reversed_axes();
        for (s, m) in view.iter_mut().zip(recv) {
            *s = m;
        }
    }

    /// Scatter data from x-pencil
    ///
    /// Call this routine from root,
""")]),
("d-check-assert", ["C23"], DM, [(
"""    if data.shape() != shape {
        panic!(
            "Shape mismatch, got {:?} expected {:?}.",
            data.shape(),
            shape
        );
    }
}
""",
"""    assert_eq!(data.shape(), shape, "Shape mismatch");
}
""")]),
("d-check-axes", ["C23"], DM, [(
"""    if data.shape() != shape {
        panic!(
            "Shape mismatch, got {:?} expected {:?}.",
            data.shape(),
            shape
        );
    }
}
""",
"""    for (got, expected) in data.shape().iter().zip(shape.iter()) {
        assert!(got == expected, "Shape mismatch, got {} expected {}.", got, expected);
    }
}
""")]),
("d-transpose-helper", ["C23"], DM, [(
"""        let (send_counts, send_displs) = self.x_pencil.get_counts_all_to_all(&self.y_pencil);
        let (recv_counts, recv_displs) = self.y_pencil.get_counts_all_to_all(&self.x_pencil);
        {
            let send_buffer = Partition::new(&send[..], &send_counts[..], &send_displs[..]);
            let mut recv_buffer =
                PartitionMut::new(&mut recv[..], &recv_counts[..], &recv_displs[..]);
            self.world
                .all_to_all_varcount_into(&send_buffer, &mut recv_buffer);
        }

        // copy receive buffer into array
        // *todo*: prevent copy by referencing?
        self.merge_xy(rcv, &recv);
    }
""",
"""        self.exchange(&self.x_pencil, &self.y_pencil, &send, &mut recv);
        self.merge_xy(rcv, &recv);
    }

    /// Redistribute from one pencil to another
    fn exchange<T: Equivalence>(
        &self,
        from: &Distribution<2>,
        to: &Distribution<2>,
        send: &[T],
        recv: &mut [T],
    ) {
        let send_layout = from.get_counts_all_to_all(to);
        let recv_layout = to.get_counts_all_to_all(from);
        let send_buffer = Partition::new(send, &send_layout.0[..], &send_layout.1[..]);
        let mut recv_buffer = PartitionMut::new(recv, &recv_layout.0[..], &recv_layout.1[..]);
        self.world
            .all_to_all_varcount_into(&send_buffer, &mut recv_buffer);
    }
""")]),
("d-handler-contains", ["C24"], DH, [(
"""        self.map_shape_global.entry(shape_global).or_insert({
            let lookup_val = self.decomp.keys().len();
            self.decomp.insert(lookup_val, decomp);
            lookup_val
        });
""",
"""        if !self.map_shape_global.contains_key(&shape_global) {
            let lookup_val = self.decomp.len();
            self.map_shape_global.insert(shape_global, lookup_val);
            self.decomp.insert(lookup_val, decomp);
        }
""")]),
("d-handler-match", ["C24"], DH, [(
"""        let lookup_val = self.map_shape_global.get(shape).unwrap();
        self.decomp.get(lookup_val).unwrap()
""",
"""        match self.map_shape_global.get(shape) {
            Some(lookup_val) => &self.decomp[lookup_val],
            None => panic!("no decomposition for shape {:?}", shape),
        }
""")]),
("d-handler-expect", ["C24"], DH, [(
"""        let lookup_val = self.map_shape_global.get(shape).unwrap();
        self.decomp.get(lookup_val).unwrap()
""",
"""        self.map_shape_global
            .get(shape)
            .and_then(|lookup_val| self.decomp.get(lookup_val))
            .expect("no decomposition for this shape")
""")]),
("d-space-new-loop", ["C24"], MS, [(
"""        decomp_handler.insert(Decomp2d::new(
            universe,
            [base0.len_phys(), base1.len_phys()],
        ));
        if base0.len_spec() != base0.len_phys() {
            decomp_handler.insert(Decomp2d::new(
                universe,
                [base0.len_spec(), base1.len_phys()],
            ));
        }
        if base1.len_spec() != base1.len_phys() {
            decomp_handler.insert(Decomp2d::new(
                universe,
                [base0.len_phys(), base1.len_spec()],
            ));
        }
        if base0.len_spec() != base0.len_phys() && base1.len_spec() != base1.len_phys() {
            decomp_handler.insert(Decomp2d::new(
                universe,
                [base0.len_spec(), base1.len_spec()],
            ));
        }
""",
"""        let (phys, spec) = (
            [base0.len_phys(), base1.len_phys()],
            [base0.len_spec(), base1.len_spec()],
        );
        for shape in &[phys, [spec[0], phys[1]], [phys[0], spec[1]], spec] {
            decomp_handler.insert(Decomp2d::new(universe, *shape));
        }
""")]),
("d-space-new-flags", ["C24"], MS, [(
"""        if base0.len_spec() != base0.len_phys() {
            decomp_handler.insert(Decomp2d::new(
                universe,
                [base0.len_spec(), base1.len_phys()],
            ));
        }
        if base1.len_spec() != base1.len_phys() {
            decomp_handler.insert(Decomp2d::new(
                universe,
                [base0.len_phys(), base1.len_spec()],
            ));
        }
        if base0.len_spec() != base0.len_phys() && base1.len_spec() != base1.len_phys() {
""",
"""        let differs = [
            base0.len_spec() != base0.len_phys(),
            base1.len_spec() != base1.len_phys(),
        ];
        let mut add = |shape| decomp_handler.insert(Decomp2d::new(universe, shape));
        if differs[0] {
            add([base0.len_spec(), base1.len_phys()]);
        }
        if differs[1] {
            add([base0.len_phys(), base1.len_spec()]);
        }
        if differs.iter().all(|d| *d) {
""")]),
("d-space-via-inplace", ["C24"], MS, [(
"""                // axis 1
                let buffer = self.base1.forward(input, 1);
                let dcp = self
                    .get_decomp_from_global_shape(&[self.base0.len_phys(), self.base1.len_spec()]);
                let mut buffer_xpen = Array2::zeros(dcp.x_pencil.sz);
                // axis 0
                dcp.transpose_y_to_x(&buffer, &mut buffer_xpen);
                self.base0.forward(&buffer_xpen, 0)
            }
""",
"""                let mut output = self.ndarray_spectral_x_pen();
                self.forward_inplace_mpi(input, &mut output);
                output
            }
"""), (
"""                // axis 0
                let buffer = self.base0.backward(input, 0);
                let dcp = self
                    .get_decomp_from_global_shape(&[self.base0.len_phys(), self.base1.len_spec()]);
                let mut buffer_ypen = Array2::zeros(dcp.y_pencil.sz);
                // axis 1
                dcp.transpose_x_to_y(&buffer, &mut buffer_ypen);
                self.base1.backward(&buffer_ypen, 1)
            }
""",
"""                let mut output = self.ndarray_physical_y_pen();
                self.backward_inplace_mpi(input, &mut output);
                output
            }
""")]),
("d-space-gradient-scale", ["C24"], MS, [(
"""                    let mut output = Array2::zeros(dcp.x_pencil.sz);
                    dcp.transpose_y_to_x(&work, &mut output);

                    // rescale (optional)
                    if let Some(s) = scale {
                        let sc: Self::Spectral =
                            (s[0].powi(deriv[0] as i32) * s[1].powi(deriv[1] as i32)).into();
                        for x in output.iter_mut() {
                            *x /= sc;
                        }
                    }
                    output
""",
"""                    let mut work = work;
                    // rescale (optional)
                    if let Some([s0, s1]) = scale {
                        let sc: Self::Spectral =
                            (s1.powi(deriv[1] as i32) * s0.powi(deriv[0] as i32)).into();
                        work.map_inplace(|x| *x /= sc);
                    }
                    let mut output = Array2::zeros(dcp.get_x_pencil_shape());
                    dcp.transpose_y_to_x(&work, &mut output);
                    output
""")]),
("d-space-shapes", ["C24"], MS, [(
"""                let shape = self.shape_physical_x_pen();
                Array2::zeros(shape)
""",
"""                let shape = self.shape_physical();
                let dcp = self.decomp_handler.get_decomp_from_global_shape(&shape);
                Array2::zeros(dcp.get_x_pencil_shape())
"""), (
"""                let world = self.get_universe().world();
                world.rank() as usize
""",
"""                self.decomp_handler.universe.world().rank() as usize
""")]),
("d-space-to-ortho-order", ["C24"], MS, [(
"""                let work = {
                    let dcp = self.get_decomp_from_global_shape(&[
                        self.base0.len_orth(),
                        self.base1.len_spec(),
                    ]);
                    let mut buffer_ypen = Array2::zeros(dcp.y_pencil.sz);
                    dcp.transpose_x_to_y(&self.base0.to_ortho(input, 0), &mut buffer_ypen);
                    self.base1.to_ortho(&buffer_ypen, 1)
                };

                // transform back to x pencil
                {
                    let dcp = self.get_decomp_from_global_shape(&[
                        self.base0.len_orth(),
                        self.base1.len_orth(),
                    ]);
                    let mut buffer_xpen = Array2::zeros(dcp.x_pencil.sz);
                    dcp.transpose_y_to_x(&work, &mut buffer_xpen);
                    buffer_xpen
                }
""",
"""                let dcp = self.get_decomp_from_global_shape(&self.shape_spectral());
                let mut buffer_ypen = Array2::zeros(dcp.y_pencil.sz);
                dcp.transpose_x_to_y(input, &mut buffer_ypen);
                let work = self.base1.to_ortho(&buffer_ypen, 1);

                // transform back to x pencil
                let dcp = self.get_decomp_from_global_shape(&[
                    self.base0.len_spec(),
                    self.base1.len_orth(),
                ]);
                let mut buffer_xpen = Array2::zeros(dcp.x_pencil.sz);
                dcp.transpose_y_to_x(&work, &mut buffer_xpen);
                self.base0.to_ortho(&buffer_xpen, 0)
""")]),
# ------------------------------------------------------- third batch: other styles
("h-dot-zip3", ["C01", "C21"], H, [(
"""        unsafe {
            *u.get_unchecked_mut(0) = *v.get_unchecked(0) * *self.diag.get_unchecked(0);
            *u.get_unchecked_mut(1) = *v.get_unchecked(1) * *self.diag.get_unchecked(1);
            for i in 2..n - 2 {
                *u.get_unchecked_mut(i) = *v.get_unchecked(i) * *self.diag.get_unchecked(i)
                    + *v.get_unchecked(i - 2) * *self.low2.get_unchecked(i - 2);
            }
            *u.get_unchecked_mut(n - 2) = *v.get_unchecked(n - 4) * *self.low2.get_unchecked(n - 4);
            *u.get_unchecked_mut(n - 1) = *v.get_unchecked(n - 3) * *self.low2.get_unchecked(n - 3);
        }
""",
"""        for ((x, y), d) in u.iter_mut().zip(v.iter()).zip(self.diag.iter()) {
            *x = *y * *d;
        }
        u[n - 2] = T::zero();
        u[n - 1] = T::zero();
        for ((x, y), l) in u[2..].iter_mut().zip(v).zip(&self.low2) {
            *x = *x + *y * *l;
        }
""")]),
("h-solve-windows", ["C02"], H, [(
"""        unsafe {
            for i in 0..v.len() {
                *v.get_unchecked_mut(i) = *u.get_unchecked(i) * *self.diag.get_unchecked(i)
                    + *u.get_unchecked(i + 2) * *self.low2.get_unchecked(i);
            }
        }
""",
"""        for (i, w) in u.windows(3).enumerate() {
            v[i] = w[0] * self.diag[i] + w[2] * self.low2[i];
        }
""")]),
("h-pinv-parity", ["C04"], H, [(
"""            if i >= 2 {
                for j in (0..i - 1).rev().step_by(2) {
                    pinv[[i, j]] = -A::one() * (pinv[[i, j + 2]] * self.low2[j]) / self.diag[j];
                }
            }
        }
        pinv
""",
"""            for j in (0..i.saturating_sub(1)).rev().filter(|j| (i - j) % 2 == 0) {
                let above = pinv[[i, j + 2]];
                pinv[[i, j]] = -above * self.low2[j] / self.diag[j];
            }
        }
        pinv
""")]),
("h-row-helper", ["C04", "C21"], H, [(
"""    /// Return Pseudoinverse of stencil
    /// ```text
    /// Sinv @ S = I
    /// ```
    /// Hase a lower triangular structure
    pub(super) fn pinv(&self) -> Array2<A> {
        let m = self.diag.len();
        let n = m + 2;
        let mut pinv = Array2::<A>::zeros((m, n));
        for i in 0..m {
            // Diagonal
            pinv[[i, i]] = A::one() / self.diag[i];
            // Lower triangular part
            if i >= 2 {
                for j in (0..i - 1).rev().step_by(2) {
                    pinv[[i, j]] = -A::one() * (pinv[[i, j + 2]] * self.low2[j]) / self.diag[j];
                }
            }
        }
        pinv
    }
""",
"""    /// One row of the pseudoinverse
    fn pinv_row(&self, i: usize, row: &mut [A]) {
        row[i] = A::one() / self.diag[i];
        if i < 2 {
            return;
        }
        for j in (0..i - 1).rev().step_by(2) {
            row[j] = -A::one() * (row[j + 2] * self.low2[j]) / self.diag[j];
        }
    }

    /// Return Pseudoinverse of stencil
    /// ```text
    /// Sinv @ S = I
    /// ```
    /// Hase a lower triangular structure
    pub(super) fn pinv(&self) -> Array2<A> {
        let m = self.diag.len();
        let mut pinv = Array2::<A>::zeros((m, m + 2));
        for i in 0..m {
            let mut row = vec![A::zero(); m + 2];
            self.pinv_row(i, &mut row);
            for (p, r) in pinv.row_mut(i).iter_mut().zip(row) {
                *p = r;
            }
        }
        pinv
    }
""")]),
("h-offdiag-windows", ["C02"], H, [(
"""        for (i, v) in off2.iter_mut().enumerate() {
            *v = diag[i + 2] * low2[i];
        }
        (main, off1, off2)
""",
"""        off2.iter_mut()
            .zip(diag.iter().skip(2))
            .zip(low2.iter())
            .for_each(|((v, d), l)| *v = *d * *l);
        (main, off1, off2)
""")]),
("t-elim-denominator", ["C02", "C21"], TD, [(
"""        for i in 2..n - 2 {
            *w.get_unchecked_mut(i) = *u2.get_unchecked(i)
                / (*d0.get_unchecked(i) - *l2.get_unchecked(i - 2) * *w.get_unchecked(i - 2));
        }
        for i in 2..n {
            *g.get_unchecked_mut(i) = (*rhs.get_unchecked(i)
                - *g.get_unchecked(i - 2) * *l2.get_unchecked(i - 2))
                / (*d0.get_unchecked(i) - *l2.get_unchecked(i - 2) * *w.get_unchecked(i - 2));
        }

        // Back substitution
        *rhs.get_unchecked_mut(n - 1) = *g.get_unchecked(n - 1);
        *rhs.get_unchecked_mut(n - 2) = *g.get_unchecked(n - 2);
        for i in (1..n - 1).rev() {
            *rhs.get_unchecked_mut(i - 1) =
                *g.get_unchecked(i - 1) - *rhs.get_unchecked(i + 1) * *w.get_unchecked(i - 1);
        }
""",
"""        for i in 2..n {
            let l = *l2.get_unchecked(i - 2);
            let pivot = *d0.get_unchecked(i) - l * *w.get_unchecked(i - 2);
            if i < n - 2 {
                *w.get_unchecked_mut(i) = *u2.get_unchecked(i) / pivot;
            }
            *g.get_unchecked_mut(i) = (*rhs.get_unchecked(i) - *g.get_unchecked(i - 2) * l) / pivot;
        }

        // Back substitution
        *rhs.get_unchecked_mut(n - 1) = *g.get_unchecked(n - 1);
        *rhs.get_unchecked_mut(n - 2) = *g.get_unchecked(n - 2);
        for i in (0..n - 2).rev() {
            *rhs.get_unchecked_mut(i) =
                *g.get_unchecked(i) - *rhs.get_unchecked(i + 2) * *w.get_unchecked(i);
        }
""")]),
("t-rev-step", ["C02"], TD, [(
"""        for i in (1..n - 1).rev() {
            *rhs.get_unchecked_mut(i - 1) =
                *g.get_unchecked(i - 1) - *rhs.get_unchecked(i + 1) * *w.get_unchecked(i - 1);
        }
    }
}

/// Tridiagonal matrix solver
///     Ax = rhs
/// where A is banded with diagonals in offsets -2, 0, 2
///
/// l2: sub-diagonal (-2)
/// d0: main-diagonal
/// u2: sub-diagonal (+2)
#[allow(clippy::many_single_char_names, dead_code)]
""",
"""        for (k, wk) in w.iter().enumerate().rev() {
            *rhs.get_unchecked_mut(k) = *g.get_unchecked(k) - *rhs.get_unchecked(k + 2) * *wk;
        }
    }
}

/// Tridiagonal matrix solver
///     Ax = rhs
/// where A is banded with diagonals in offsets -2, 0, 2
///
/// l2: sub-diagonal (-2)
/// d0: main-diagonal
/// u2: sub-diagonal (+2)
#[allow(clippy::many_single_char_names, dead_code)]
""")]),
("t-inplace-g", ["C02"], TD, [(
"""        // Back substitution
        *rhs.get_unchecked_mut(n - 1) = *g.get_unchecked(n - 1);
        *rhs.get_unchecked_mut(n - 2) = *g.get_unchecked(n - 2);
        for i in (1..n - 1).rev() {
            *rhs.get_unchecked_mut(i - 1) =
                *g.get_unchecked(i - 1) - *rhs.get_unchecked(i + 1) * *w.get_unchecked(i - 1);
        }
    }
}

/// Tridiagonal matrix solver
///     Ax = rhs
/// where A is banded with diagonals in offsets -2, 0, 2
///
/// l2: sub-diagonal (-2)
/// d0: main-diagonal
/// u2: sub-diagonal (+2)
#[allow(clippy::many_single_char_names, dead_code)]
""",
"""        // Back substitution
        rhs.copy_from_slice(&g);
        for i in (0..n - 2).rev() {
            let next = rhs[i + 2];
            rhs[i] = rhs[i] - next * w[i];
        }
    }
}

/// Tridiagonal matrix solver
///     Ax = rhs
/// where A is banded with diagonals in offsets -2, 0, 2
///
/// l2: sub-diagonal (-2)
/// d0: main-diagonal
/// u2: sub-diagonal (+2)
#[allow(clippy::many_single_char_names, dead_code)]
""")]),
("o-grad-recurrence", ["C07", "C21"], O, [(
"""            unsafe {
                *outdata.get_unchecked_mut(0) = *outdata.get_unchecked(1);
                for i in 1..self.m - 1 {
                    *outdata.get_unchecked_mut(i) =
                        two * T::from_usize(i + 1).unwrap() * *outdata.get_unchecked(i + 1);
                }
                *outdata.get_unchecked_mut(self.m - 1) = T::zero();
                // Reverse
                for i in (1..self.m - 2).rev() {
                    *outdata.get_unchecked_mut(i) =
                        *outdata.get_unchecked(i) + *outdata.get_unchecked(i + 2);
                }
                *outdata.get_unchecked_mut(0) =
                    *outdata.get_unchecked(0) + *outdata.get_unchecked(2) / two;
            }
""",
"""            outdata[0] = outdata[1];
            for i in 2..self.m {
                outdata[i - 1] = two * T::from_usize(i).unwrap() * outdata[i];
            }
            outdata[self.m - 1] = T::zero();
            // Reverse
            for i in (3..self.m).rev() {
                let above = outdata[i];
                outdata[i - 2] = outdata[i - 2] + above;
            }
            outdata[0] = outdata[0] + outdata[2] / two;
""")]),
("o-grad-short-match", ["C07", "C21"], O, [(
"""        if self.m < 3 {
            for _ in 0..n_times {
                if self.m == 2 {
                    outdata[0] = outdata[1];
                }
                outdata[self.m - 1] = T::zero();
            }
            return;
        }
""",
"""        match self.m {
            1 => {
                if n_times > 0 {
                    outdata[0] = T::zero();
                }
                return;
            }
            2 => {
                for _ in 0..n_times {
                    outdata[0] = outdata[1];
                    outdata[1] = T::zero();
                }
                return;
            }
            _ => {}
        }
""")]),
("o-grad-early-zero", ["C07", "C21"], O, [(
"""        // Polynomials of degree less than two, too short for the recurrence below
""",
"""        if n_times == 0 {
            return;
        }
        // Polynomials of degree less than two, too short for the recurrence below
""")]),
("o-forward-swap", ["C08"], O, [(
"""        for (y, x) in outdata.iter_mut().zip(indata.iter().rev()) {
            *y = *x * cor;
        }
""",
"""        outdata.copy_from_slice(indata);
        outdata.reverse();
        outdata.iter_mut().for_each(|y| *y *= cor);
""")]),
("o-backward-chunks", ["C08"], O, [(
"""        for (i, (y, x)) in outdata.iter_mut().zip(indata.iter()).enumerate() {
            if i % 2 == 0 {
                *y = *x;
            } else {
                *y = *x * -A::one();
            }
        }
""",
"""        let mut sign = A::one();
        for (y, x) in outdata.iter_mut().zip(indata.iter()) {
            *y = *x * sign;
            sign = -sign;
        }
""")]),
("o-nodes-cos", ["C08", "C12"], O, [(
"""        let m = (n - 1) as f64;
        (0..n)
            .map(|k| {
                let arg = A::from_f64(PI * (m - 2. * k as f64) / (2. * m)).unwrap();
                -A::one() * arg.sin()
            })
            .collect::<Vec<A>>()
""",
"""        let m = (n - 1) as f64;
        let step = PI / (2. * m);
        let mut nodes = Vec::with_capacity(n);
        for k in 0..n {
            let arg = A::from_f64(step * (2. * k as f64 - m)).unwrap();
            nodes.push(arg.sin());
        }
        nodes
""")]),
("o-dmat-column", ["C05"], O, [(
"""            for p in 0..n {
                for q in p + 2..n {
                    if (p + q) % 2 == 0 {
                        dmat[[p, q]] = (q * (q * q - p * p)) as f64;
                    }
                }
            }
""",
"""            for q in 2..n {
                for p in (q % 2..q - 1).step_by(2) {
                    dmat[[p, q]] = (q * (q * q - p * p)) as f64;
                }
            }
""")]),
("o-dmat-indexed", ["C05"], O, [(
"""            for p in 0..n {
                for q in p + 2..n {
                    if (p + q) % 2 == 0 {
                        dmat[[p, q]] = (q * (q * q - p * p)) as f64;
                    }
                }
            }
""",
"""            for ((p, q), d) in dmat.indexed_iter_mut() {
                if q > p && (q - p) % 2 == 0 {
                    *d = (q * (q - p) * (q + p)) as f64;
                }
            }
""")]),
("o-dmat-product", ["C05"], O, [(
"""        for d in dmat.slice_mut(s![0, ..]).iter_mut() {
            *d *= 0.5;
        }
        dmat.mapv(|elem| A::from_f64(elem).unwrap())
""",
"""        dmat.row_mut(0).mapv_inplace(|d| d / 2.);
        dmat.mapv(|elem| A::from(elem).unwrap())
""")]),
("o-pinv-skip", ["C06"], O, [(
"""            for i in 2..n {
                pinv[[i, i - 1]] = 1. / (2. * i as f64); // diag - 1
            }
            for i in 1..n.saturating_sub(2) {
                pinv[[i, i + 1]] = -1. / (2. * i as f64); // diag + 1
            }
""",
"""            for i in 1..n {
                let v = 0.5 / i as f64;
                if i > 1 {
                    pinv[[i, i - 1]] = v; // diag - 1
                }
                if i + 2 < n {
                    pinv[[i, i + 1]] = -v; // diag + 1
                }
            }
""")]),
("o-pinv-table", ["C06"], O, [(
"""            // diag + 1
            for i in 3..n.saturating_sub(4) {
                let d = 8 * (i - 1) * (i + 2) * i;
                pinv[[i, i + 1]] = 3. / d as f64;
            }
            // diag + 3
            for i in 3..n.saturating_sub(6) {
                let d = 8 * i * (i + 1) * (i + 2);
                pinv[[i, i + 3]] = -1. / d as f64;
            }
""",
"""            for i in 3..n.saturating_sub(4) {
                let x = i as f64;
                // diag + 1
                pinv[[i, i + 1]] = 3. / (8. * (x - 1.) * x * (x + 2.));
                // diag + 3
                if i < n - 6 {
                    pinv[[i, i + 3]] = -1. / (8. * x * (x + 1.) * (x + 2.));
                }
            }
""")]),
("z-grad-precomputed", ["C10", "C21"], C2, [(
"""        let n = self.len_spec();
        let n2 = (n - 1) / 2 + 1;
        for _ in 0..n_times {
            for (k, y) in outdata.iter_mut().take(n2).enumerate() {
                let ki: Complex<A> = Complex::<A>::new(A::zero(), A::from_usize(k).unwrap());
                *y = *y * ki;
            }
            for (k, y) in outdata.iter_mut().rev().take(n / 2).enumerate() {
                let ki: Complex<A> = Complex::<A>::new(A::zero(), -A::from_usize(k + 1).unwrap());
                *y = *y * ki;
            }
        }
""",
"""        let wavenum = Self::wavenumber(self.n);
        for (y, k) in outdata.iter_mut().zip(wavenum) {
            for _ in 0..n_times {
                *y = *y * k;
            }
        }
""")]),
("z-diffmat-index", ["C10"], C2, [(
"""        for (l, k) in mat.diag_mut().iter_mut().zip(wavenum.iter()) {
            *l = k.powi(deriv.try_into().unwrap());
        }
        mat
""",
"""        let power: i32 = deriv.try_into().unwrap();
        for (i, k) in wavenum.into_iter().enumerate() {
            mat[[i, i]] = k.powi(power);
        }
        mat
""")]),
("z-pinv-loop", ["C11"], C2, [(
"""        let mut d_pinv = self.laplacian();
        for p in d_pinv.slice_mut(s![1.., 1..]).diag_mut().iter_mut() {
            *p = A::one() / *p;
        }
""",
"""        let mut d_pinv = self.laplacian();
        for i in 1..self.m {
            d_pinv[[i, i]] = d_pinv[[i, i]].recip();
        }
""")]),
("r-nodes-step", ["C12"], R2, [(
"""        let n64 = n as f64;
        (0..n)
            .map(|j| A::from_f64(2. * PI * j as f64 / n64).unwrap())
            .collect::<Vec<A>>()
""",
"""        let mut x = vec![A::zero(); n];
        let step = 2. * PI / n as f64;
        for (j, v) in x.iter_mut().enumerate().skip(1) {
            *v = A::from_f64(step * j as f64).unwrap();
        }
        x
""")]),
("c-gradient-by-value", ["C16", "C21"], CO, [(
"""        let mut scratch: Vec<T> = vec![T::zero(); self.len_orth()];
        self.to_ortho_slice(indata, &mut scratch);
        self.ortho.gradient_slice(&scratch, outdata, n_times);
""",
"""        if n_times == 0 {
            self.to_ortho_slice(indata, outdata);
            return;
        }
        let mut scratch: Vec<T> = vec![T::zero(); self.len_orth()];
        self.to_ortho_slice(indata, &mut scratch);
        self.ortho.gradient_slice(&scratch, outdata, n_times);
""")]),
("c-new-helper", ["C01", "C20"], CO, [(
"""    pub fn biharmonic_b(n: usize) -> Self {
        let stencil = BiHarmonicB::new(n);
        Self {
            n,
            m: BiHarmonicB::<A>::get_m(n),
            stencil: ChebyshevStencils::BiHarmonicB(stencil),
            ortho: Chebyshev::<A>::new(n),
        }
    }
""",
"""    pub fn biharmonic_b(n: usize) -> Self {
        Self::from_stencil(
            n,
            BiHarmonicB::<A>::get_m(n),
            ChebyshevStencils::BiHarmonicB(BiHarmonicB::new(n)),
        )
    }

    /// Common part of the constructors
    fn from_stencil(n: usize, m: usize, stencil: ChebyshevStencils<A>) -> Self {
        let ortho = Chebyshev::<A>::new(n);
        Self { n, m, stencil, ortho }
    }
""")]),
("m-as-slice-let", ["C14", "C15"], M, [(
"""                Zip::from(indata.lanes(Axis(axis)))
                    .and(outdata.lanes_mut(Axis(axis)))
                    .for_each(|x, mut y| {
                        self.$f(&x.to_vec(), &mut scratch);
                        for (yi, si) in y.iter_mut().zip(scratch.iter()) {
                            *yi = *si;
                        }
                    });
""",
"""                Zip::from(indata.lanes(Axis(axis)))
                    .and(outdata.lanes_mut(Axis(axis)))
                    .for_each(|x, mut y| {
                        if let Some(xs) = x.as_slice() {
                            self.$f(xs, &mut scratch);
                        } else {
                            self.$f(&x.to_vec(), &mut scratch);
                        }
                        for (yi, si) in y.iter_mut().zip(scratch.iter()) {
                            *yi = *si;
                        }
                    });
""")]),
("m-early-return", ["C14"], M, [(
"""            let outer_axis = indata.ndim() - 1;
            if axis == outer_axis {
                // Data is contiguous in memory
                Zip::from(indata.lanes(Axis(axis)))
                    .and(outdata.lanes_mut(Axis(axis)))
                    .for_each(|x, mut y| {
                        self.$f(x.as_slice().unwrap(), y.as_slice_mut().unwrap());
                    });
            } else {
                // Data is *not* contiguous in memory.
                let mut scratch: Vec<$t2> = vec![<$t2>::zero(); outdata.shape()[axis]];
                Zip::from(indata.lanes(Axis(axis)))
                    .and(outdata.lanes_mut(Axis(axis)))
                    .for_each(|x, mut y| {
                        self.$f(&x.to_vec(), &mut scratch);
                        for (yi, si) in y.iter_mut().zip(scratch.iter()) {
                            *yi = *si;
                        }
                    });
            }
""",
"""            let contiguous = axis + 1 == indata.ndim();
            if contiguous {
                // Data is contiguous in memory
                Zip::from(indata.lanes(Axis(axis)))
                    .and(outdata.lanes_mut(Axis(axis)))
                    .for_each(|x, mut y| {
                        self.$f(x.as_slice().unwrap(), y.as_slice_mut().unwrap());
                    });
                return;
            }
            // Data is *not* contiguous in memory.
            let len = outdata.len_of(Axis(axis));
            let mut line: Vec<$t2> = vec![<$t2>::zero(); len];
            Zip::from(indata.lanes(Axis(axis)))
                .and(outdata.lanes_mut(Axis(axis)))
                .for_each(|x, mut y| {
                    self.$f(&x.to_vec(), &mut line);
                    y.iter_mut().zip(&line).for_each(|(yi, si)| *yi = *si);
                });
""")]),
("u-check-eq", ["C21", "C14"], U, [(
"""    // Arrays size
    let m = input.shape()[axis];

    assert!(
        input.shape()[axis] == size,
        "Size mismatch in {}, got {} expected {} along axis {}",
        function_name,
        size,
        m,
        axis
    );
}

// ///""",
"""    // Arrays size
    let m = input.len_of(ndarray::Axis(axis));
    if m != size {
        panic!(
            "Size mismatch in {}, got {} expected {} along axis {}",
            function_name, size, m, axis
        );
    }
}

// ///""")]),

("d-sum-loop", ["C25"], DF, [(
"""    let mut a = vec![T::zero(); size];
    world.all_gather_into(data, &mut a[..]);
    *result = a.iter().copied().sum();
""",
"""    let mut values = vec![T::zero(); size];
    world.all_gather_into(data, &mut values[..]);
    let mut total = T::zero();
    for &x in &values {
        total = total + x;
    }
    *result = total;
""")]),
("d-sum-fold", ["C25"], DF, [(
"""    if world.rank() == root_rank {
        let mut a = vec![T::zero(); size];
        root_process.gather_into_root(data, &mut a[..]);
        *result = a.iter().copied().sum();
    } else {
        root_process.gather_into(data);
    }
""",
"""    if world.rank() != root_rank {
        root_process.gather_into(data);
        return;
    }
    let mut a = vec![T::zero(); size];
    root_process.gather_into_root(data, &mut a[..]);
    *result = a.into_iter().fold(T::zero(), |acc, x| acc + x);
""")]),
("d-broadcast-inline", ["C25"], DF, [(
"""    let world = universe.world();
    let root_rank = 0;
    let root_process = world.process_at_rank(root_rank);
    root_process.broadcast_into(data);
""",
"""    universe.world().process_at_rank(0).broadcast_into(data);
""")]),
("d-split-as-slice", ["C23"], DM, [(
"""        for (d, b) in data.iter().zip(buf.iter_mut()) {
            *b = *d;
        }
    }
""",
"""        if let Some(values) = data.as_slice() {
            buf.copy_from_slice(values);
        } else {
            for (d, b) in data.iter().zip(buf.iter_mut()) {
                *b = *d;
            }
        }
    }
""")]),
("d-merge-iter", ["C23"], DM, [(
"""        let mut pos = 0;
        for proc in 0..self.nprocs as usize {
            let j1 = self.x_pencil.st_procs[proc][1];
            let j2 = self.x_pencil.en_procs[proc][1];
            for i in 0..self.y_pencil.sz[0] {
                for j in j1..=j2 {
                    data[[i, j]] = buf[pos];
                    pos += 1;
                }
            }
        }
""",
"""        let mut values = buf.iter();
        for (st, en) in self.x_pencil.st_procs.iter().zip(&self.x_pencil.en_procs) {
            for i in 0..self.y_pencil.sz[0] {
                for j in st[1]..=en[1] {
                    data[[i, j]] = *values.next().unwrap();
                }
            }
        }
""")]),
("d-merge-offset", ["C23"], DM, [(
"""        let mut pos = 0;
        for proc in 0..self.nprocs as usize {
            let i1 = self.y_pencil.st_procs[proc][0];
            let i2 = self.y_pencil.en_procs[proc][0];
            for j in 0..self.x_pencil.sz[1] {
                for i in i1..=i2 {
                    data[[i, j]] = buf[pos];
                    pos += 1;
                }
            }
        }
""",
"""        let mut offset = 0;
        for proc in 0..self.nprocs as usize {
            let i1 = self.y_pencil.st_procs[proc][0];
            let len = self.y_pencil.en_procs[proc][0] + 1 - i1;
            for j in 0..self.x_pencil.sz[1] {
                for k in 0..len {
                    data[[i1 + k, j]] = buf[offset + j * len + k];
                }
            }
            offset += len * self.x_pencil.sz[1];
        }
""")]),
("d-gather-collect", ["C23"], DM, [(
"""        // send buffer
        check_shape(snd, self.y_pencil.sz);
        let mut send = vec![T::zero(); self.y_pencil.length()];
        for (s, m) in send.iter_mut().zip(snd.iter()) {
            *s = *m;
        }
        // gather
        if self.nrank == root_rank {
            panic!("Rank must not be root!");
        } else {
            root_process.gather_varcount_into(&send[..]);
        }
""",
"""        check_shape(snd, self.y_pencil.sz);
        assert!(self.nrank != root_rank, "Rank must not be root!");
        let send: Vec<T> = snd.iter().copied().collect();
        root_process.gather_varcount_into(&send[..]);
""")]),
("x-coords-match", ["C19", "C21"], S2, [(
"""                if axis == 0 {
                    self.base0.coords().into()
                } else {
                    self.base1.coords().into()
                }
""",
"""                let points = match axis {
                    0 => self.base0.coords(),
                    _ => self.base1.coords(),
                };
                Array1::from(points)
""")]),
("x-grad-scale-map", ["C18"], S2, [(
"""                let buffer = self.base0.gradient(input, deriv[0], 0);
                let mut output = self.base1.gradient(&buffer, deriv[1], 1);
                if let Some(s) = scale {
                    let sc: T = (s[0].powi(deriv[0] as i32) * s[1].powi(deriv[1] as i32)).into();
                    for x in output.iter_mut() {
                        *x /= sc;
                    }
                }
                output
""",
"""                let along0 = self.base0.gradient(input, deriv[0], 0);
                let output = self.base1.gradient(&along0, deriv[1], 1);
                match scale {
                    None => output,
                    Some([s0, s1]) => {
                        let sc: T = (s0.powi(deriv[0] as i32) * s1.powi(deriv[1] as i32)).into();
                        output.mapv(|x| x / sc)
                    }
                }
""")]),
("x-toortho-inplace", ["C17"], S2, [(
"""                let buffer = self.base0.to_ortho(input, 0);
                self.base1.to_ortho_inplace(&buffer, output, 1);
            }

            /// Transformation from orthonormal and to composite space (inplace).""",
"""                let half = self.base1.to_ortho(input, 1);
                self.base0.to_ortho_inplace(&half, output, 0);
            }

            /// Transformation from orthogonal space""")]),
# ---------------------------------------------------------------- other hands
("w-grad-temp", ["C07", "C21", "C16"], O, [(
"""            // Forward
            unsafe {
                *outdata.get_unchecked_mut(0) = *outdata.get_unchecked(1);
                for i in 1..self.m - 1 {
                    *outdata.get_unchecked_mut(i) =
                        two * T::from_usize(i + 1).unwrap() * *outdata.get_unchecked(i + 1);
                }
                *outdata.get_unchecked_mut(self.m - 1) = T::zero();
                // Reverse
                for i in (1..self.m - 2).rev() {
                    *outdata.get_unchecked_mut(i) =
                        *outdata.get_unchecked(i) + *outdata.get_unchecked(i + 2);
                }
                *outdata.get_unchecked_mut(0) =
                    *outdata.get_unchecked(0) + *outdata.get_unchecked(2) / two;
            }
""",
"""            let old = outdata.to_vec();
            outdata[self.m - 1] = T::zero();
            outdata[self.m - 2] = two * T::from_usize(self.m - 1).unwrap() * old[self.m - 1];
            for i in (1..self.m - 2).rev() {
                outdata[i] = outdata[i + 2] + two * T::from_usize(i + 1).unwrap() * old[i + 1];
            }
            outdata[0] = old[1] + outdata[2] / two;
""")]),
("w-grad-carry", ["C07", "C21"], O, [(
"""                // Reverse
                for i in (1..self.m - 2).rev() {
                    *outdata.get_unchecked_mut(i) =
                        *outdata.get_unchecked(i) + *outdata.get_unchecked(i + 2);
                }
                *outdata.get_unchecked_mut(0) =
                    *outdata.get_unchecked(0) + *outdata.get_unchecked(2) / two;
            }
""",
"""            }
            // Reverse
            let mut i = self.m - 2;
            while i > 1 {
                i -= 1;
                outdata[i] = outdata[i] + outdata[i + 2];
            }
            outdata[0] = outdata[0] + outdata[2] / two;
""")]),
("w-grad-loop-break", ["C07", "C21"], O, [(
"""        for _ in 0..n_times {
            // Forward
""",
"""        let mut left = n_times;
        loop {
            if left == 0 {
                break;
            }
            left -= 1;
            // Forward
""")]),
("w-forward-index-from-end", ["C08", "C16"], O, [(
"""        for (y, x) in outdata.iter_mut().zip(indata.iter().rev()) {
            *y = *x * cor;
        }
""",
"""        let n = self.n;
        for j in 0..n {
            outdata[n - 1 - j] = cor * indata[j];
        }
""")]),
("w-forward-fold-half", ["C08", "C09"], O, [(
"""        let half = A::from_f64(0.5).unwrap();
        outdata[0] *= half;
        outdata[self.n - 1] *= half;
""",
"""        let half = A::from_f64(0.5).unwrap();
        for &i in &[0, self.n - 1] {
            outdata[i] *= half;
        }
""")]),
("w-backward-sign-state", ["C08", "C09"], O, [(
"""        for (i, (y, x)) in outdata.iter_mut().zip(indata.iter()).enumerate() {
            if i % 2 == 0 {
                *y = *x;
            } else {
                *y = *x * -A::one();
            }
        }
""",
"""        outdata.copy_from_slice(indata);
        for y in outdata.iter_mut().skip(1).step_by(2) {
            *y = -*y;
        }
""")]),
("w-backward-sign-bool", ["C08"], O, [(
"""        for (i, (y, x)) in outdata.iter_mut().zip(indata.iter()).enumerate() {
            if i % 2 == 0 {
                *y = *x;
            } else {
                *y = *x * -A::one();
            }
        }
""",
"""        let mut flip = false;
        for (y, x) in outdata.iter_mut().zip(indata) {
            *y = if flip { -*x } else { *x };
            flip = !flip;
        }
""")]),
("w-dmat-half-before", ["C05"], O, [(
"""        for d in dmat.slice_mut(s![0, ..]).iter_mut() {
            *d *= 0.5;
        }
        dmat.mapv(|elem| A::from_f64(elem).unwrap())
""",
"""        dmat.row_mut(0).mapv_inplace(|d| d / 2.);
        dmat.map(|elem| A::from_f64(*elem).unwrap())
""")]),
("w-dmat-step", ["C05"], O, [(
"""                for q in p + 2..n {
                    if (p + q) % 2 == 0 {
                        dmat[[p, q]] = (q * (q * q - p * p)) as f64;
                    }
                }
""",
"""                let mut q = p + 2;
                while q < n {
                    dmat[[p, q]] = (q * (q - p) * (q + p)) as f64;
                    q += 2;
                }
""")]),
("w-pinv-helper", ["C06", "C21"], O, [(
"""            pinv[[1, 0]] = 1.;
            for i in 2..n {
                pinv[[i, i - 1]] = 1. / (2. * i as f64); // diag - 1
            }
            for i in 1..n.saturating_sub(2) {
                pinv[[i, i + 1]] = -1. / (2. * i as f64); // diag + 1
            }
""",
"""            for i in 1..n {
                let d = if i == 1 { 1. } else { (2 * i) as f64 };
                pinv[[i, i - 1]] = 1. / d;
                if i + 2 < n {
                    pinv[[i, i + 1]] = -0.5 / i as f64;
                }
            }
            if n < 2 {
                panic!("size {} too small", n);
            }
""")]),
("w-pinv-eye-fn", ["C06"], O, [(
"""        let pinv_eye = Array2::<f64>::eye(n).slice(s![deriv.., ..]).to_owned();
        pinv_eye.mapv(|elem| A::from_f64(elem).unwrap())
""",
"""        let mut eye = Array2::<A>::zeros((n - deriv, n));
        for (i, mut row) in eye.outer_iter_mut().enumerate() {
            row[i + deriv] = A::one();
        }
        eye
""")]),
("w-tdma-locals", ["C02", "C21"], TD, [(
"""        for i in 2..n {
            *g.get_unchecked_mut(i) = (*rhs.get_unchecked(i)
                - *g.get_unchecked(i - 2) * *l2.get_unchecked(i - 2))
                / (*d0.get_unchecked(i) - *l2.get_unchecked(i - 2) * *w.get_unchecked(i - 2));
        }
""",
"""        for i in 2..n {
            let l = *l2.get_unchecked(i - 2);
            let pivot = *d0.get_unchecked(i) - l * *w.get_unchecked(i - 2);
            let known = *rhs.get_unchecked(i) - *g.get_unchecked(i - 2) * l;
            *g.get_unchecked_mut(i) = known / pivot;
        }
""")]),
("w-tdma-in-place-rhs", ["C02", "C21"], TD, [(
"""        *rhs.get_unchecked_mut(n - 1) = *g.get_unchecked(n - 1);
        *rhs.get_unchecked_mut(n - 2) = *g.get_unchecked(n - 2);
        for i in (1..n - 1).rev() {
            *rhs.get_unchecked_mut(i - 1) =
                *g.get_unchecked(i - 1) - *rhs.get_unchecked(i + 1) * *w.get_unchecked(i - 1);
        }
""",
"""        rhs.copy_from_slice(&g);
        for i in (0..n - 2).rev() {
            *rhs.get_unchecked_mut(i) =
                *rhs.get_unchecked(i) - *rhs.get_unchecked(i + 2) * *w.get_unchecked(i);
        }
""")]),
("w-solve-chain", ["C02", "C21"], H, [(
"""        // Multiply right hand side
        unsafe {
            for i in 0..v.len() {
                *v.get_unchecked_mut(i) = *u.get_unchecked(i) * *self.diag.get_unchecked(i)
                    + *u.get_unchecked(i + 2) * *self.low2.get_unchecked(i);
            }
        }
""",
"""        // Multiply right hand side
        for (((vi, &ui), &ui2), (&d, &l)) in v
            .iter_mut()
            .zip(u.iter())
            .zip(u[2..].iter())
            .zip(self.diag.iter().zip(self.low2.iter()))
        {
            *vi = ui2 * l + ui * d;
        }
""")]),
("w-dot-init-then-add", ["C01", "C21"], H, [(
"""        unsafe {
            *u.get_unchecked_mut(0) = *v.get_unchecked(0) * *self.diag.get_unchecked(0);
            *u.get_unchecked_mut(1) = *v.get_unchecked(1) * *self.diag.get_unchecked(1);
            for i in 2..n - 2 {
                *u.get_unchecked_mut(i) = *v.get_unchecked(i) * *self.diag.get_unchecked(i)
                    + *v.get_unchecked(i - 2) * *self.low2.get_unchecked(i - 2);
            }
            *u.get_unchecked_mut(n - 2) = *v.get_unchecked(n - 4) * *self.low2.get_unchecked(n - 4);
            *u.get_unchecked_mut(n - 1) = *v.get_unchecked(n - 3) * *self.low2.get_unchecked(n - 3);
        }
""",
"""        assert!(n > 3);
        let m = n - 2;
        for i in 0..n {
            let mut sum = T::zero();
            if i < m {
                sum = sum + v[i] * self.diag[i];
            }
            if i >= 2 {
                sum = sum + v[i - 2] * self.low2[i - 2];
            }
            u[i] = sum;
        }
""")]),
("w-diag-iter-struct", ["C01", "C02"], H, [(
"""        for (i, v) in tdma_diag.iter_mut().enumerate() {
            *v = diag[i] * diag[i] + low2[i] * low2[i];
        }
        for (i, v) in tdma_off2.iter_mut().enumerate() {
            *v = diag[i + 2] * low2[i];
        }
        (tdma_diag, tdma_off2)
""",
"""        let sq = |x: A| x * x;
        for i in 0..m {
            tdma_diag[i] = sq(diag[i]) + sq(low2[i]);
            if i + 2 < m {
                tdma_off2[i] = low2[i] * diag[i + 2];
            }
        }
        (tdma_diag, tdma_off2)
""")]),
("w-neumann-ratio", ["C01", "C03"], ST, [(
"""        for (k, v) in low2.iter_mut().enumerate() {
            let k_ = A::from_f64(k.pow(2) as f64).unwrap();
            let k2_ = A::from_f64((k + 2).pow(2) as f64).unwrap();
            *v = -A::one() * k_ / k2_;
        }
""",
"""        for k in 0..m {
            let ratio = k as f64 / (k + 2) as f64;
            low2[k] = -A::from_f64(ratio * ratio).unwrap();
        }
""")]),
("w-bih-pairs", ["C01", "C03"], ST, [(
"""        for (ki, (v2, v4)) in low2.iter_mut().zip(low4.iter_mut()).enumerate() {
            let k = ki as f64;
            let d2 = -2. * (k + 2.) / (k + 3.);
            let d4 = (k + 1.) / (k + 3.);
            *v2 = A::from_f64(d2).unwrap();
            *v4 = A::from_f64(d4).unwrap();
        }
""",
"""        let mut k = 0.;
        for i in 0..m {
            low2[i] = A::from_f64(-2. * (k + 2.) / (k + 3.)).unwrap();
            low4[i] = A::from_f64(1. - 2. / (k + 3.)).unwrap();
            k += 1.;
        }
""")]),
("w-r2c-grad-once", ["C10", "C16"], R2, [(
"""        for _ in 0..n_times {
            for (k, y) in outdata.iter_mut().enumerate() {
                let ki: Complex<A> = Complex::<A>::new(A::zero(), A::from_usize(k).unwrap());
                *y = *y * ki;
            }
        }
""",
"""        for (k, y) in outdata.iter_mut().enumerate() {
            let ki: Complex<A> = Complex::<A>::new(A::zero(), A::from_usize(k).unwrap());
            for _ in 0..n_times {
                *y = *y * ki;
            }
        }
""")]),
("w-r2c-diag-eye", ["C10", "C11"], R2, [(
"""        let mut mat = Array2::<Self::NumType>::zeros((self.len_spec(), self.len_spec()));
        let wavenum = Self::wavenumber(self.len_phys());
        for (l, k) in mat.diag_mut().iter_mut().zip(wavenum.iter()) {
            *l = k.powi(deriv.try_into().unwrap());
        }
        mat
""",
"""        let order: i32 = deriv.try_into().unwrap();
        let diag: ndarray::Array1<Self::NumType> = Self::wavenumber(self.len_phys())
            .into_iter()
            .map(|k| k.powi(order))
            .collect();
        Array2::from_diag(&diag)
""")]),
("w-r2c-lap-im2", ["C10", "C11"], R2, [(
"""        let wavenum = Self::wavenumber(self.len_phys());
        let mut lap = Array2::<A>::zeros((self.m, self.m));
        for (l, k) in lap.diag_mut().iter_mut().zip(wavenum.iter()) {
            *l = -k.im * k.im;
        }
        lap
""",
"""        let mut lap = Array2::<A>::zeros((self.m, self.m));
        for k in 0..self.m {
            let kf = A::from_usize(k).unwrap();
            lap[(k, k)] = -(kf * kf);
        }
        lap
""")]),
("w-r2c-backward-scale-out", ["C12", "C16"], R2, [(
"""        let cor = A::one() / A::from_usize(self.len_phys()).unwrap();
        for (a, b) in indata_mut.iter_mut().zip(indata.iter()) {
            a.re = cor * b.re;
            a.im = cor * b.im;
        }
""",
"""        let n = A::from_usize(self.len_phys()).unwrap();
        for (a, &b) in indata_mut.iter_mut().zip(indata.iter()) {
            *a = b / n;
        }
""")]),
("w-c2c-wavenumber-shift", ["C10", "C11"], C2, [(
"""        let n2 = (n - 1) / 2 + 1;
        let mut k: Vec<Complex<A>> = vec![Complex::<A>::zero(); n];
        for (i, ki) in k.iter_mut().take(n2).enumerate() {
            ki.im = A::from(i).unwrap();
        }
        for (i, ki) in k.iter_mut().rev().take(n / 2).enumerate() {
            ki.im = A::from(-1. * (i + 1) as f64).unwrap();
        }
        k
""",
"""        let half = (n - 1) / 2;
        (0..n)
            .map(|i| {
                let im = if i <= half {
                    i as f64
                } else {
                    i as f64 - n as f64
                };
                Complex::new(A::zero(), A::from_f64(im).unwrap())
            })
            .collect()
""")]),
("w-c2c-grad-split-at", ["C10", "C16"], C2, [(
"""            for (k, y) in outdata.iter_mut().take(n2).enumerate() {
                let ki: Complex<A> = Complex::<A>::new(A::zero(), A::from_usize(k).unwrap());
                *y = *y * ki;
            }
            for (k, y) in outdata.iter_mut().rev().take(n / 2).enumerate() {
                let ki: Complex<A> = Complex::<A>::new(A::zero(), -A::from_usize(k + 1).unwrap());
                *y = *y * ki;
            }
""",
"""            let (low, high) = outdata.split_at_mut(n2);
            for (k, y) in low.iter_mut().enumerate() {
                let ki: Complex<A> = Complex::<A>::new(A::zero(), A::from_usize(k).unwrap());
                *y = *y * ki;
            }
            let first = high.len();
            for (k, y) in high.iter_mut().enumerate() {
                let ki: Complex<A> =
                    Complex::<A>::new(A::zero(), -A::from_usize(first - k).unwrap());
                *y = *y * ki;
            }
""")]),
("w-compo-scratch-ext", ["C07", "C16"], CO, [(
"""        let mut scratch: Vec<T> = vec![T::zero(); self.len_orth()];
        self.to_ortho_slice(indata, &mut scratch);
        self.ortho.gradient_slice(&scratch, outdata, n_times);
""",
"""        let scratch = {
            let mut s: Vec<T> = Vec::with_capacity(self.len_orth());
            s.resize(self.len_orth(), T::zero());
            self.to_ortho_slice(indata, &mut s[..]);
            s
        };
        BaseGradient::gradient_slice(&self.ortho, &scratch, outdata, n_times);
""")]),
]


def main():
    import re, subprocess, sys, os, shutil, json
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    rx = re.compile(args[0] if args else ".")
    scratch = os.environ.get("SCRATCH", "/tmp/refac")
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    os.makedirs(scratch, exist_ok=True)
    copy = scratch + "/r"
    if not os.path.exists(copy):
        subprocess.run(["cp", "-a", "/repo", copy], check=True)
    for name, props, file, edits in EDITS:
        if not rx.search(name):
            continue
        subprocess.run(["git", "-C", copy, "checkout", "-q", "--", "."], check=True)
        path = f"{copy}/{file}"
        s = open(path).read()
        for old, new in edits:
            assert old in s, (name, old)
            s = s.replace(old, new, 1)
        open(path, "w").write(s)
        if "--compile" in sys.argv:
            p = subprocess.run(["cargo", "test", "--offline", "--lib", "-q"], cwd=copy,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            print(name, "ok" if p.returncode == 0 else "FAILS\n" + p.stdout[-1500:], flush=True)
        if "--mpi" in sys.argv:
            h = scratch + "/hm"
            shutil.copytree(here + "/harness_mpi", h, dirs_exist_ok=True)
            for f in ("Cargo.toml",):
                c = open(f"{h}/{f}").read().replace('"/repo"', f'"{copy}"').replace('"../../repo"', f'"{copy}"')
                open(f"{h}/{f}", "w").write(c)
            p = subprocess.run(["cargo", "build", "--offline", "-q", "--target-dir", scratch + "/hmt"], cwd=h,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode:
                print(name, "DOES NOT COMPILE\n" + p.stdout[-2500:], flush=True)
            else:
                for pid in props:
                    p = subprocess.run([scratch + "/hmt/debug/hm", pid, "--cur", scratch + "/cur"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                    try:
                        d = json.loads(p.stdout.strip().splitlines()[-1])
                        print(name, pid, "harness", d["cases"], "failures", d["failures"][:1], flush=True)
                    except Exception:
                        print(name, pid, "harness", p.returncode, p.stdout[-600:], flush=True)
        if "--engine" in sys.argv:
            for pid in props:
                out = f"{scratch}/{name}-{pid}.json"
                p = subprocess.run(["/opt/veriftools/pyvenv/bin/python3", here + "/engine/run.py", pid, "--repo", copy,
                                    "--tier", "quick", "--out", out],
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                try:
                    d = json.load(open(out))
                except Exception:
                    print(name, pid, "CRASH", p.stdout[-800:], flush=True)
                    continue
                print(name, pid, p.stdout.strip()[-90:], flush=True)
                for st in ("failed", "undecided"):
                    for o in d[st][:3]:
                        print("   ", st if o.get("complete", True) or st != "failed" else "incomplete", o["name"], "|", str(o["why"])[-300:], o.get("hints"), flush=True)
    subprocess.run(["git", "-C", copy, "checkout", "-q", "--", "."], check=True)


main()
