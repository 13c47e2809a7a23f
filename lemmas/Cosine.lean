import Mathlib.Analysis.SpecialFunctions.Trigonometric.Chebyshev.RootsExtrema
import Mathlib.Algebra.BigOperators.Field

namespace Funspace
open Polynomial.Chebyshev Finset

/-! ### C08: the cosine transforms -/

/-- the sum the plan of `rustdct` computes (`process_dct1`), buffer x of length N + 1 -/
noncomputable def dct1 (N : ℕ) (x : ℕ → ℝ) (k : ℕ) : ℝ :=
  x 0 / 2 + (-1) ^ k * x N / 2 + ∑ j ∈ Ico 1 N, x j * Real.cos (Real.pi * j * k / N)

/-- halves at both ends -/
noncomputable def half (N j : ℕ) : ℝ := if j = 0 ∨ j = N then 1 / 2 else 1

theorem sum_half (N : ℕ) (hN : 1 ≤ N) (f : ℕ → ℝ) :
    ∑ j ∈ range (N + 1), half N j * f j = f 0 / 2 + f N / 2 + ∑ j ∈ Ico 1 N, f j := by
  obtain ⟨M, rfl⟩ : ∃ M, N = M + 1 := ⟨N - 1, by omega⟩
  rw [sum_range_succ, sum_range_succ', sum_Ico_eq_sum_range]
  have h0 : half (M + 1) 0 = 1 / 2 := by simp [half]
  have h1 : half (M + 1) (M + 1) = 1 / 2 := by simp [half]
  have : ∑ k ∈ range M, half (M + 1) (k + 1) * f (k + 1) = ∑ k ∈ range (M + 1 - 1), f (1 + k) := by
    apply sum_congr (by simp)
    intro k hk
    have : k < M := mem_range.mp hk
    have h : half (M + 1) (k + 1) = 1 := by
      simp only [half]; rw [if_neg]; omega
    rw [h, one_mul, add_comm]
  rw [h0, h1, this]; ring

theorem cos_pi_mul (k : ℕ) : Real.cos (Real.pi * k) = (-1) ^ k := by
  rw [mul_comm]; exact Real.cos_nat_mul_pi k

theorem dct1_eq (N : ℕ) (hN : 1 ≤ N) (x : ℕ → ℝ) (k : ℕ) :
    dct1 N x k = ∑ j ∈ range (N + 1), half N j * (x j * Real.cos (Real.pi * j * k / N)) := by
  rw [sum_half N hN, dct1]
  have n0 : (N : ℝ) ≠ 0 := by exact_mod_cast (by omega : N ≠ 0)
  have e : Real.pi * (N : ℝ) * k / N = Real.pi * k := by field_simp
  rw [e, cos_pi_mul]
  simp
  ring

/-- sum of cosines, ends halved -/
theorem cos_sum (N : ℕ) (hN : 1 ≤ N) (k : ℤ) :
    ∑ j ∈ range (N + 1), half N j * Real.cos (Real.pi * j * k / N) = if (2 * N : ℤ) ∣ k then (N : ℝ) else 0 := by
  have n0 : (N : ℝ) ≠ 0 := by exact_mod_cast (by omega : N ≠ 0)
  by_cases hk : (2 * N : ℤ) ∣ k
  · rw [if_pos hk]
    obtain ⟨q, rfl⟩ := hk
    have c : ∀ j : ℕ, Real.cos (Real.pi * j * ((2 * N * q : ℤ) : ℝ) / N) = 1 := by
      intro j
      have : Real.pi * j * ((2 * N * q : ℤ) : ℝ) / N = ((j * q : ℤ) : ℝ) * (2 * Real.pi) := by
        push_cast; field_simp
      rw [this]; exact Real.cos_int_mul_two_pi _
    simp only [c]
    rw [sum_half N hN (fun _ => 1)]
    simp
    rw [Nat.cast_sub hN]; push_cast; ring
  · rw [if_neg hk]
    set t : ℝ := Real.pi * k / N with ht
    have s0 : Real.sin (t / 2) ≠ 0 := by
      intro h
      obtain ⟨q, hq⟩ := Real.sin_eq_zero_iff.mp h
      apply hk
      refine ⟨q, ?_⟩
      have : (q : ℝ) * (2 * N) = k := by
        have p := Real.pi_ne_zero
        rw [ht] at hq
        field_simp at hq
        linarith
      have : (q * (2 * N) : ℤ) = k := by exact_mod_cast this
      linarith
    have sN : Real.sin (N * t) = 0 := by
      have : (N : ℝ) * t = k * Real.pi := by rw [ht]; field_simp
      rw [this]; exact Real.sin_int_mul_pi k
    have tel : ∀ M : ℕ, 2 * Real.sin (t / 2) * ∑ j ∈ range M, Real.cos (j * t)
        = Real.sin ((M - 1 / 2 : ℝ) * t) + Real.sin (t / 2) := by
      intro M
      induction M with
      | zero =>
        simp
        have : 2⁻¹ * t = t / 2 := by ring
        rw [this]; ring
      | succ M ih =>
        rw [sum_range_succ, mul_add, ih]
        have a1 : (((M + 1 : ℕ) : ℝ) - 1 / 2) * t = M * t + t / 2 := by push_cast; ring
        have a2 : ((M : ℝ) - 1 / 2) * t = M * t - t / 2 := by ring
        rw [a1, a2, Real.sin_add, Real.sin_sub]; ring
    have e : ∀ j : ℕ, Real.pi * j * k / N = j * t := by intro j; rw [ht]; ring
    simp only [e]
    have h2 : 2 * Real.sin (t / 2) ≠ 0 := mul_ne_zero two_ne_zero s0
    apply mul_left_cancel₀ h2
    rw [mul_zero, sum_half N hN (fun j => Real.cos (j * t))]
    have r := tel (N + 1)
    rw [sum_range_succ, sum_range_eq_add_Ico _ hN] at r
    have a : (((N + 1 : ℕ) : ℝ) - 1 / 2) * t = N * t + t / 2 := by push_cast; ring
    rw [a, Real.sin_add, sN] at r
    simp only [Nat.cast_zero, zero_mul, Real.cos_zero, zero_add] at r ⊢
    linear_combination r

theorem dvd_zero_or (N : ℕ) (hN : 1 ≤ N) (j l : ℕ) (hj : j ≤ N) (hl : l ≤ N) :
    ((if (2 * N : ℤ) ∣ ((j : ℤ) + l) then (N : ℝ) else 0) + if (2 * N : ℤ) ∣ ((j : ℤ) - l) then (N : ℝ) else 0)
      = if j = l then N / half N j else 0 := by
  have a : ((2 * N : ℤ) ∣ ((j : ℤ) + l)) ↔ (j = l ∧ (j = 0 ∨ j = N)) := by
    constructor
    · rintro ⟨q, hq⟩
      have q0 : 0 ≤ q := by
        by_contra h
        have : q ≤ -1 := by omega
        nlinarith
      have q1 : q ≤ 1 := by
        by_contra h
        have : 2 ≤ q := by omega
        nlinarith
      have : q = 0 ∨ q = 1 := by omega
      rcases this with rfl | rfl
      · constructor <;> omega
      · constructor <;> omega
    · rintro ⟨rfl, rfl | rfl⟩
      · simp
      · exact ⟨1, by ring⟩
  have b : ((2 * N : ℤ) ∣ ((j : ℤ) - l)) ↔ j = l := by
    constructor
    · rintro ⟨q, hq⟩
      have q0 : -1 < q := by
        by_contra h
        have : q ≤ -1 := by omega
        nlinarith
      have q1 : q < 1 := by
        by_contra h
        have : 1 ≤ q := by omega
        nlinarith
      have : q = 0 := by omega
      subst this; omega
    · rintro rfl; simp
  simp only [a, b, half]
  by_cases h : j = l
  · by_cases e : j = 0 ∨ j = N
    · simp [h]; rw [h] at e; simp [e]; ring
    · simp [h]; rw [h] at e; simp [e]
  · simp [h]

/-- orthogonality of the discrete cosines -/
theorem cos_orthogonal (N : ℕ) (hN : 1 ≤ N) (k l : ℕ) (hk : k ≤ N) (hl : l ≤ N) :
    ∑ j ∈ range (N + 1), half N j * (Real.cos (Real.pi * j * k / N) * Real.cos (Real.pi * j * l / N))
      = if k = l then N / (2 * half N k) else 0 := by
  have e : ∀ j : ℕ, half N j * (Real.cos (Real.pi * j * k / N) * Real.cos (Real.pi * j * l / N))
      = (half N j * Real.cos (Real.pi * j * ((k + l : ℤ) : ℝ) / N) + half N j * Real.cos (Real.pi * j * ((k - l : ℤ) : ℝ) / N)) / 2 := by
    intro j
    have a1 : Real.pi * j * ((k + l : ℤ) : ℝ) / N = Real.pi * j * k / N + Real.pi * j * l / N := by push_cast; ring
    have a2 : Real.pi * j * ((k - l : ℤ) : ℝ) / N = Real.pi * j * k / N - Real.pi * j * l / N := by push_cast; ring
    rw [a1, a2, Real.cos_add, Real.cos_sub]; ring
  simp only [e]
  rw [← sum_div, sum_add_distrib, cos_sum N hN, cos_sum N hN, dvd_zero_or N hN k l hk hl]
  by_cases h : k = l
  · simp [h]; ring
  · simp [h]

theorem half_symm (N j : ℕ) (hj : j ≤ N) : half N (N - j) = half N j := by
  simp only [half]
  by_cases h : j = 0 ∨ j = N
  · rw [if_pos h, if_pos]; omega
  · rw [if_neg h, if_neg]; omega

theorem half_ne (N j : ℕ) : half N j ≠ 0 := by
  simp only [half]; split <;> norm_num

/-- weight of a coefficient at the ends -/
theorem half_mul_ends (N j : ℕ) : half N j * (if j = 0 ∨ j = N then 2 else 1) = 1 := by
  simp only [half]; split <;> norm_num

/-- the transforms of this repository (contract C08), N + 1 points -/
noncomputable def fwd (N : ℕ) (v : ℕ → ℝ) (k : ℕ) : ℝ :=
  (if k = 0 ∨ k = N then 1 / 2 else 1) * dct1 N (fun j => 2 / N * v (N - j)) k

noncomputable def bwd (N : ℕ) (c : ℕ → ℝ) (i : ℕ) : ℝ :=
  dct1 N (fun k => (if k = 0 ∨ k = N then 2 else 1) * (-1) ^ k * c k) i

/-- backward evaluates the Chebyshev series at x_i = -cos(pi i / N) -/
theorem bwd_is_series (N : ℕ) (hN : 1 ≤ N) (c : ℕ → ℝ) (i : ℕ) :
    bwd N c i = ∑ k ∈ range (N + 1), c k * (T ℝ k).eval (-Real.cos (Real.pi * i / N)) := by
  rw [bwd, dct1_eq N hN]
  apply sum_congr rfl
  intro k _
  rw [T_eval_neg, T_real_cos]
  have h := half_mul_ends N k
  have e : Real.pi * k * i / N = ((k : ℤ) : ℝ) * (Real.pi * i / N) := by push_cast; ring
  have s : (((Int.negOnePow (k : ℤ) : ℤˣ) : ℤ) : ℝ) = (-1) ^ k := by simp [Int.negOnePow_def]
  rw [← e]
  have s2 : ∀ y : ℝ, (k : ℤ).negOnePow * y = (-1) ^ k * y := by intro y; rw [← s]
  rw [s2]
  linear_combination (((-1) ^ k * c k) * Real.cos (Real.pi * k * i / N)) * h

theorem cos_flip (N : ℕ) (hN : 1 ≤ N) (k i : ℕ) (hi : i ≤ N) :
    Real.cos (Real.pi * k * ((N - i : ℕ) : ℝ) / N) = (-1) ^ k * Real.cos (Real.pi * k * i / N) := by
  have n0 : (N : ℝ) ≠ 0 := by exact_mod_cast (by omega : N ≠ 0)
  have e : Real.pi * k * ((N - i : ℕ) : ℝ) / N = k * Real.pi - Real.pi * k * i / N := by
    rw [Nat.cast_sub hi]; field_simp
  rw [e, Real.cos_sub, Real.cos_nat_mul_pi, Real.sin_nat_mul_pi]; ring

theorem bwd_eq (N : ℕ) (hN : 1 ≤ N) (c : ℕ → ℝ) (i : ℕ) (hi : i ≤ N) :
    bwd N c (N - i) = ∑ k ∈ range (N + 1), c k * Real.cos (Real.pi * k * i / N) := by
  rw [bwd, dct1_eq N hN]
  apply sum_congr rfl
  intro k _
  have h := half_mul_ends N k
  rw [cos_flip N hN k i hi]
  have s : ((-1 : ℝ) ^ k) * (-1) ^ k = 1 := by rw [← pow_add, ← two_mul, pow_mul]; simp
  linear_combination (c k * Real.cos (Real.pi * k * i / N)) * ((-1) ^ k * (-1) ^ k) * h + (c k * Real.cos (Real.pi * k * i / N)) * s

theorem fwd_eq (N : ℕ) (hN : 1 ≤ N) (v : ℕ → ℝ) (k : ℕ) :
    fwd N v k = half N k * (2 / N) * ∑ j ∈ range (N + 1), half N j * (v (N - j) * Real.cos (Real.pi * j * k / N)) := by
  rw [fwd, dct1_eq N hN, mul_sum, mul_sum]
  apply sum_congr rfl
  intro j _
  simp only [half]; ring

/-- backward after forward gives the values back: the series interpolates them -/
theorem bwd_fwd (N : ℕ) (hN : 1 ≤ N) (v : ℕ → ℝ) (i : ℕ) (hi : i ≤ N) : bwd N (fwd N v) i = v i := by
  have n0 : (N : ℝ) ≠ 0 := by exact_mod_cast (by omega : N ≠ 0)
  obtain ⟨l, hl, rfl⟩ : ∃ l, l ≤ N ∧ i = N - l := ⟨N - i, by omega, by omega⟩
  rw [bwd_eq N hN _ l hl]
  simp only [fwd_eq N hN, mul_sum, sum_mul]
  rw [sum_comm]
  have inner : ∀ j ∈ range (N + 1), ∑ k ∈ range (N + 1),
      half N k * (2 / N) * (half N j * (v (N - j) * Real.cos (Real.pi * j * k / N))) * Real.cos (Real.pi * k * l / N)
      = if j = l then v (N - j) else 0 := by
    intro j hj
    have hj' : j ≤ N := by have := mem_range.mp hj; omega
    have o := cos_orthogonal N hN j l hj' hl
    have e : ∀ k : ℕ, half N k * (2 / N) * (half N j * (v (N - j) * Real.cos (Real.pi * j * k / N))) * Real.cos (Real.pi * k * l / N)
        = (2 / N * half N j * v (N - j)) * (half N k * (Real.cos (Real.pi * k * j / N) * Real.cos (Real.pi * k * l / N))) := by
      intro k
      have : Real.pi * j * k / N = Real.pi * k * j / N := by ring
      rw [this]; ring
    simp only [e]
    rw [← mul_sum, o]
    have h := half_ne N j
    by_cases c : j = l
    · simp only [c, if_true] at h ⊢; field_simp
    · simp [c]
  rw [sum_congr rfl inner]
  simp [hl]

/-- forward after backward gives the coefficients back -/
theorem fwd_bwd (N : ℕ) (hN : 1 ≤ N) (c : ℕ → ℝ) (k : ℕ) (hk : k ≤ N) : fwd N (bwd N c) k = c k := by
  have n0 : (N : ℝ) ≠ 0 := by exact_mod_cast (by omega : N ≠ 0)
  rw [fwd_eq N hN]
  have e : ∀ j ∈ range (N + 1), half N j * (bwd N c (N - j) * Real.cos (Real.pi * j * k / N))
      = ∑ m ∈ range (N + 1), c m * (half N j * (Real.cos (Real.pi * j * m / N) * Real.cos (Real.pi * j * k / N))) := by
    intro j hj
    have hj' : j ≤ N := by have := mem_range.mp hj; omega
    rw [bwd_eq N hN c j hj', sum_mul, mul_sum]
    apply sum_congr rfl
    intro m _
    have : Real.pi * m * j / N = Real.pi * j * m / N := by ring
    rw [this]; ring
  rw [sum_congr rfl e, sum_comm]
  have f : ∀ m ∈ range (N + 1), ∑ j ∈ range (N + 1), c m * (half N j * (Real.cos (Real.pi * j * m / N) * Real.cos (Real.pi * j * k / N)))
      = if m = k then c m * (N / (2 * half N m)) else 0 := by
    intro m hm
    have hm' : m ≤ N := by have := mem_range.mp hm; omega
    rw [← mul_sum, cos_orthogonal N hN m k hm' hk]
    by_cases q : m = k <;> simp [q]
  rw [sum_congr rfl f]
  have h := half_ne N k
  simp [hk]
  field_simp

end Funspace

#print axioms Funspace.cos_sum
#print axioms Funspace.cos_orthogonal
#print axioms Funspace.bwd_is_series
#print axioms Funspace.bwd_fwd
#print axioms Funspace.fwd_bwd
