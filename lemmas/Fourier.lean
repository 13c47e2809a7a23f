import Mathlib.Analysis.SpecialFunctions.Complex.Log
import Mathlib.Algebra.BigOperators.Field
import Mathlib.Algebra.Ring.GeomSum
import Mathlib.Algebra.BigOperators.Intervals

namespace Funspace
open Finset Complex

/-! ### C12: discrete Fourier sums -/

/-- e^(2 pi i d / n) -/
noncomputable def E (n : ℕ) (d : ℤ) : ℂ := exp (2 * Real.pi * I * d / n)

theorem E_add (n : ℕ) (a b : ℤ) : E n (a + b) = E n a * E n b := by
  rw [E, E, E, ← exp_add]; congr 1; push_cast; ring

theorem E_conj (n : ℕ) (a : ℤ) : (starRingEnd ℂ) (E n a) = E n (-a) := by
  rw [E, E, ← exp_conj]; congr 1
  have t : (starRingEnd ℂ) 2 = 2 := map_ofNat _ 2
  simp [Complex.conj_ofReal, t]

theorem E_pow (n : ℕ) (a : ℤ) (k : ℕ) : E n a ^ k = E n (a * k) := by
  rw [E, E, ← exp_nat_mul]; congr 1; push_cast; ring

theorem E_eq_one_iff (n : ℕ) (hn : 1 ≤ n) (a : ℤ) : E n a = 1 ↔ (n : ℤ) ∣ a := by
  have n0 : (n : ℂ) ≠ 0 := by exact_mod_cast (by omega : n ≠ 0)
  rw [E, exp_eq_one_iff]
  constructor
  · rintro ⟨q, hq⟩
    refine ⟨q, ?_⟩
    have p : (2 * Real.pi * I : ℂ) ≠ 0 := two_pi_I_ne_zero
    have : (2 * Real.pi * I : ℂ) * a = (2 * Real.pi * I) * (n * q) := by
      field_simp at hq
      linear_combination (2 * Real.pi * I : ℂ) * hq
    have := mul_left_cancel₀ p this
    exact_mod_cast this
  · rintro ⟨q, rfl⟩
    refine ⟨q, ?_⟩
    push_cast; field_simp

theorem E_mul_n (n : ℕ) (hn : 1 ≤ n) (q : ℤ) : E n (n * q) = 1 := (E_eq_one_iff n hn _).mpr ⟨q, rfl⟩

theorem sum_E (n : ℕ) (hn : 1 ≤ n) (d : ℤ) : ∑ k ∈ range n, E n (d * k) = if (n : ℤ) ∣ d then (n : ℂ) else 0 := by
  simp only [← E_pow]
  by_cases h : (n : ℤ) ∣ d
  · rw [if_pos h, (E_eq_one_iff n hn d).mpr h]; simp
  · rw [if_neg h]
    have z : E n d - 1 ≠ 0 := fun e => h ((E_eq_one_iff n hn d).mp (sub_eq_zero.mp e))
    apply mul_left_cancel₀ z
    rw [mul_zero, mul_geom_sum, E_pow, mul_comm, E_mul_n n hn]; simp

/-- what `rustfft` computes forward and inverse (unnormalised) -/
noncomputable def fftm (n : ℕ) (v : ℕ → ℂ) (k : ℕ) : ℂ := ∑ j ∈ range n, v j * E n (-(j * k : ℤ))
noncomputable def fftp (n : ℕ) (c : ℕ → ℂ) (j : ℕ) : ℂ := ∑ k ∈ range n, c k * E n (j * k)

theorem dvd_lt (n j l : ℕ) (hj : j < n) (hl : l < n) : ((n : ℤ) ∣ (j : ℤ) - l) ↔ j = l := by
  constructor
  · rintro ⟨q, hq⟩
    have q0 : -1 < q := by
      by_contra h
      have : q ≤ -1 := by omega
      nlinarith
    have q1 : q < 1 := by
      by_contra h
      have : 1 ≤ q := by omega
      nlinarith
    have : q = 0 := by omega
    subst this; omega
  · rintro rfl; simp

/-- backward(forward v) = v  (backward divides by n) -/
theorem fftp_fftm (n : ℕ) (hn : 1 ≤ n) (v : ℕ → ℂ) (j : ℕ) (hj : j < n) :
    fftp n (fun k => 1 / n * fftm n v k) j = v j := by
  have n0 : (n : ℂ) ≠ 0 := by exact_mod_cast (by omega : n ≠ 0)
  simp only [fftp, fftm, mul_sum, sum_mul]
  rw [sum_comm]
  have inner : ∀ l ∈ range n, ∑ k ∈ range n, 1 / (n : ℂ) * (v l * E n (-(l * k : ℤ))) * E n (j * k)
      = if l = j then v l else 0 := by
    intro l hl
    have hl' := mem_range.mp hl
    have e : ∀ k : ℕ, 1 / (n : ℂ) * (v l * E n (-(l * k : ℤ))) * E n (j * k) = 1 / n * v l * E n ((j - l : ℤ) * k) := by
      intro k
      have : ((j - l : ℤ) * k : ℤ) = -(l * k : ℤ) + j * k := by ring
      rw [this, E_add]; ring
    simp only [e]
    rw [← mul_sum, sum_E n hn]
    simp only [dvd_lt n j l hj hl']
    by_cases h : l = j
    · subst h; simp; field_simp
    · have h' : ¬ j = l := fun q => h q.symm
      simp [h, h']
  rw [sum_congr rfl inner]
  simp [hj]

/-- forward(backward c) = c -/
theorem fftm_fftp (n : ℕ) (hn : 1 ≤ n) (c : ℕ → ℂ) (k : ℕ) (hk : k < n) :
    fftm n (fftp n (fun k => 1 / n * c k)) k = c k := by
  have n0 : (n : ℂ) ≠ 0 := by exact_mod_cast (by omega : n ≠ 0)
  simp only [fftp, fftm, sum_mul]
  rw [sum_comm]
  have inner : ∀ m ∈ range n, ∑ j ∈ range n, 1 / (n : ℂ) * c m * E n (j * m) * E n (-(j * k : ℤ))
      = if m = k then c m else 0 := by
    intro m hm
    have hm' := mem_range.mp hm
    have e : ∀ j : ℕ, 1 / (n : ℂ) * c m * E n (j * m) * E n (-(j * k : ℤ)) = 1 / n * c m * E n ((m - k : ℤ) * j) := by
      intro j
      have : ((m - k : ℤ) * j : ℤ) = j * m + -(j * k : ℤ) := by ring
      rw [this, E_add]; ring
    simp only [e]
    rw [← mul_sum, sum_E n hn]
    simp only [dvd_lt n m k hm' hk]
    by_cases h : m = k
    · simp [h]; field_simp
    · simp [h]
  rw [sum_congr rfl inner]
  simp [hk]

/-- a sum over all modes in terms of the modes up to n/2 -/
theorem fold (n : ℕ) (hn : 1 ≤ n) (f : ℕ → ℂ) :
    ∑ k ∈ range n, f k = f 0 + ∑ k ∈ Ico 1 ((n + 1) / 2), (f k + f (n - k)) + if n % 2 = 0 then f (n / 2) else 0 := by
  rw [sum_range_eq_add_Ico f hn, sum_add_distrib]
  have r : ∑ k ∈ Ico 1 ((n + 1) / 2), f (n - k) = ∑ k ∈ Ico (n + 1 - (n + 1) / 2) n, f k := by
    have := sum_Ico_reflect f 1 (m := (n + 1) / 2) (n := n) (by omega)
    rw [this]; congr 1
  rw [r]
  by_cases h : n % 2 = 0
  · rw [if_pos h]
    have e1 : (n + 1) / 2 = n / 2 := by omega
    have e2 : n + 1 - n / 2 = n / 2 + 1 := by omega
    have s1 : ∑ k ∈ Ico 1 n, f k = ∑ k ∈ Ico 1 (n / 2), f k + ∑ k ∈ Ico (n / 2) n, f k :=
      (sum_Ico_consecutive f (by omega) (by omega)).symm
    have s2 : ∑ k ∈ Ico (n / 2) n, f k = f (n / 2) + ∑ k ∈ Ico (n / 2 + 1) n, f k :=
      sum_eq_sum_Ico_succ_bot (by omega) f
    rw [s1, s2, e1, e2]; ring
  · rw [if_neg h]
    have e2 : n + 1 - (n + 1) / 2 = (n + 1) / 2 := by omega
    have s1 : ∑ k ∈ Ico 1 n, f k = ∑ k ∈ Ico 1 ((n + 1) / 2), f k + ∑ k ∈ Ico ((n + 1) / 2) n, f k :=
      (sum_Ico_consecutive f (by omega) (by omega)).symm
    rw [s1, e2]; ring

/-- what `realfft` computes: forward the modes up to n/2, inverse the sum over the Hermitian extension -/
noncomputable def rfft (n : ℕ) (v : ℕ → ℝ) (k : ℕ) : ℂ := fftm n (fun j => (v j : ℂ)) k

noncomputable def irfft (n : ℕ) (c : ℕ → ℂ) (j : ℕ) : ℝ :=
  (c 0).re + ∑ k ∈ Ico 1 ((n + 1) / 2), 2 * (c k * E n (j * k)).re + if n % 2 = 0 then (c (n / 2)).re * (-1) ^ j else 0

theorem E_mid (n : ℕ) (hn : 1 ≤ n) (h : n % 2 = 0) (j : ℕ) : E n (j * (n / 2 : ℕ)) = (-1) ^ j := by
  have n0 : (n : ℂ) ≠ 0 := by exact_mod_cast (by omega : n ≠ 0)
  obtain ⟨m, rfl⟩ : ∃ m, n = 2 * m := ⟨n / 2, by omega⟩
  have e : (2 * m) / 2 = m := by omega
  have m0 : (m : ℂ) ≠ 0 := by exact_mod_cast (by omega : m ≠ 0)
  rw [e, E]
  have : (2 * Real.pi * I * ((j * (m : ℕ) : ℤ) : ℂ) / ((2 * m : ℕ) : ℂ)) = j * (Real.pi * I) := by
    push_cast; field_simp
  rw [this, exp_nat_mul, exp_pi_mul_I]

/-- the inverse real transform is the sum over the Hermitian extension -/
theorem irfft_eq (n : ℕ) (hn : 1 ≤ n) (c C : ℕ → ℂ) (j : ℕ) (h0 : C 0 = (c 0).re)
    (hk : ∀ k, 1 ≤ k → k < (n + 1) / 2 → C k = c k ∧ C (n - k) = (starRingEnd ℂ) (c k))
    (hm : n % 2 = 0 → C (n / 2) = (c (n / 2)).re) : (irfft n c j : ℂ) = fftp n C j := by
  have mid : n % 2 = 0 → E n (j * ((n : ℤ) / 2)) = (-1) ^ j := by
    intro h; have := E_mid n hn h j; push_cast at this; exact this
  rw [fftp, fold n hn, irfft]
  push_cast
  congr 1
  · congr 1
    · rw [h0]; simp [E]
    · apply sum_congr rfl
      intro k hk'
      have := mem_Ico.mp hk'
      obtain ⟨a, b⟩ := hk k this.1 this.2
      have kn : k ≤ n := by omega
      have e : E n (j * (n - k : ℕ)) = (starRingEnd ℂ) (E n (j * k)) := by
        rw [E_conj]
        have : (j * (n - k : ℕ) : ℤ) = n * j + -(j * k : ℤ) := by push_cast [Nat.cast_sub kn]; ring
        rw [this, E_add, E_mul_n n hn, one_mul]
      rw [a, b, e, ← map_mul, add_conj]
      push_cast; ring
  · by_cases h : n % 2 = 0
    · rw [if_pos h, if_pos h, hm h, mid h]; push_cast; ring
    · rw [if_neg h, if_neg h]; simp

theorem rfft_conj (n : ℕ) (hn : 1 ≤ n) (v : ℕ → ℝ) (k : ℕ) (hk : k ≤ n) :
    rfft n v (n - k) = (starRingEnd ℂ) (rfft n v k) := by
  rw [rfft, rfft, fftm, fftm, map_sum]
  apply sum_congr rfl
  intro j _
  rw [map_mul, conj_ofReal, E_conj]
  congr 1
  have : (-(j * (n - k : ℕ) : ℤ)) = n * (-j) + -(-(j * k : ℤ)) := by push_cast [Nat.cast_sub hk]; ring
  rw [this, E_add, E_mul_n n hn, one_mul]

theorem rfft_real (n : ℕ) (v : ℕ → ℝ) (k : ℕ) (h : rfft n v k = (starRingEnd ℂ) (rfft n v k)) : ((rfft n v k).re : ℂ) = rfft n v k :=
  (conj_eq_iff_re.mp h.symm)

/-- backward(forward v) = v; the imaginary parts of the real modes may be dropped: they vanish -/
theorem irfft_rfft (n : ℕ) (hn : 1 ≤ n) (v : ℕ → ℝ) (j : ℕ) (hj : j < n) :
    irfft n (fun k => 1 / n * rfft n v k) j = v j := by
  have key : (irfft n (fun k => 1 / n * rfft n v k) j : ℂ) = v j := by
    rw [irfft_eq n hn (fun k => 1 / n * rfft n v k) (fun k => 1 / n * rfft n v k) j]
    · exact fftp_fftm n hn (fun j => (v j : ℂ)) j hj
    · have c0 := rfft_real n v 0 (by
        have := rfft_conj n hn v 0 (by omega)
        rw [← this, rfft, rfft, fftm, fftm]
        apply sum_congr rfl; intro i _; congr 1
        have : (-(i * (n - 0 : ℕ) : ℤ)) = n * (-i) + 0 := by rw [Nat.sub_zero]; ring
        rw [this, E_add, E_mul_n n hn]; simp)
      rw [show (1 / (n : ℂ)) = ((1 / n : ℝ) : ℂ) by push_cast; ring, re_ofReal_mul]; push_cast; rw [c0]
    · intro k h1 h2
      refine ⟨rfl, ?_⟩
      simp only [map_mul]
      rw [rfft_conj n hn v k (by omega)]
      congr 1
      simp
    · intro h
      have cm := rfft_real n v (n / 2) (by
        have := rfft_conj n hn v (n / 2) (by omega)
        rw [show n - n / 2 = n / 2 by omega] at this; exact this)
      rw [show (1 / (n : ℂ)) = ((1 / n : ℝ) : ℂ) by push_cast; ring, re_ofReal_mul]; push_cast; rw [cm]
  exact_mod_cast key

/-- forward(backward c) = c for coefficients whose real modes are real -/
theorem rfft_irfft (n : ℕ) (hn : 1 ≤ n) (c : ℕ → ℂ) (h0 : (c 0).im = 0) (hm : n % 2 = 0 → (c (n / 2)).im = 0)
    (k : ℕ) (hk : k ≤ n / 2) : rfft n (irfft n (fun k => 1 / n * c k)) k = c k := by
  let C : ℕ → ℂ := fun q => if 2 * q ≤ n then c q else (starRingEnd ℂ) (c (n - q))
  have e : ∀ j, (irfft n (fun k => 1 / n * c k) j : ℂ) = fftp n (fun q => 1 / n * C q) j := by
    intro j
    have re1 : ∀ z : ℂ, z.im = 0 → (((1 / (n : ℂ) * z).re : ℝ) : ℂ) = 1 / n * z := by
      intro z hz
      have : z = (z.re : ℂ) := Complex.ext rfl (by simpa using hz)
      rw [show (1 / (n : ℂ)) = ((1 / n : ℝ) : ℂ) by push_cast; ring, re_ofReal_mul]
      push_cast; rw [← this]
    apply irfft_eq n hn
    · simp only [C]; rw [if_pos (by omega), re1 _ h0]
    · intro q h1 h2
      constructor
      · simp only [C]; rw [if_pos (by omega)]
      · simp only [C]; rw [if_neg (by omega), show n - (n - q) = q by omega, map_mul]; congr 1; simp
    · intro h
      simp only [C]; rw [if_pos (by omega), re1 _ (hm h)]
  have r : rfft n (irfft n (fun k => 1 / n * c k)) k = fftm n (fftp n (fun q => 1 / n * C q)) k := by
    rw [rfft]; simp only [e]
  rw [r, fftm_fftp n hn C k (by omega)]
  simp only [C]; rw [if_pos (by omega)]

end Funspace

#print axioms Funspace.sum_E
#print axioms Funspace.fftp_fftm
#print axioms Funspace.fftm_fftp
#print axioms Funspace.irfft_eq
#print axioms Funspace.irfft_rfft
#print axioms Funspace.rfft_irfft
