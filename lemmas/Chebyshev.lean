import Mathlib.Analysis.SpecialFunctions.Trigonometric.Chebyshev.RootsExtrema

/-! Facts on Chebyshev polynomials the contracts of C03, C05 and C07 rest on. -/

namespace Funspace
open Polynomial Polynomial.Chebyshev

/-! ### C03: values of T_j, T_j', T_j'' at the end points -/

theorem T_right (j : ℕ) : (T ℝ j).eval 1 = 1 := T_eval_one ℝ j

theorem T_left (j : ℕ) : (T ℝ j).eval (-1) = (-1) ^ j := by
  rw [T_eval_neg_one]; simp [Int.negOnePow_def]

theorem dT_right (j : ℕ) : (derivative (T ℝ j)).eval 1 = (j : ℝ) ^ 2 := by
  rw [T_derivative_eq_U]; simp [U_eval_one]; ring

theorem dT_left (j : ℕ) : (derivative (T ℝ j)).eval (-1) = (-1) ^ (j + 1) * (j : ℝ) ^ 2 := by
  induction j using Nat.twoStepInduction with
  | zero => simp
  | one => simp
  | more j h0 h1 =>
    have e : T ℝ ((j + 2 : ℕ) : ℤ) = 2 * X * T ℝ ((j + 1 : ℕ) : ℤ) - T ℝ (j : ℤ) := by
      push_cast; exact T_add_two ℝ j
    have v := T_left (j + 1)
    rw [e]
    simp only [derivative_sub, derivative_mul, eval_sub, eval_add, eval_mul, h0, h1, v]
    simp
    ring

theorem ddT_right (j : ℕ) :
    (derivative (derivative (T ℝ j))).eval 1 = (j : ℝ) ^ 2 * ((j : ℝ) ^ 2 - 1) / 3 := by
  induction j using Nat.twoStepInduction with
  | zero => simp
  | one => simp
  | more j h0 h1 =>
    have e : T ℝ ((j + 2 : ℕ) : ℤ) = 2 * X * T ℝ ((j + 1 : ℕ) : ℤ) - T ℝ (j : ℤ) := by
      push_cast; exact T_add_two ℝ j
    have v := dT_right (j + 1)
    rw [e]
    simp only [derivative_sub, derivative_mul, derivative_add, eval_sub, eval_add, eval_mul, h0, h1, v]
    simp only [derivative_ofNat, derivative_X, derivative_zero, derivative_one, eval_zero, eval_one, eval_X, eval_ofNat, zero_mul, mul_zero, zero_add, add_zero, mul_one]
    simp
    ring

theorem ddT_left (j : ℕ) :
    (derivative (derivative (T ℝ j))).eval (-1) = (-1) ^ j * ((j : ℝ) ^ 2 * ((j : ℝ) ^ 2 - 1) / 3) := by
  induction j using Nat.twoStepInduction with
  | zero => simp
  | one => simp
  | more j h0 h1 =>
    have e : T ℝ ((j + 2 : ℕ) : ℤ) = 2 * X * T ℝ ((j + 1 : ℕ) : ℤ) - T ℝ (j : ℤ) := by
      push_cast; exact T_add_two ℝ j
    have v := dT_left (j + 1)
    rw [e]
    simp only [derivative_sub, derivative_mul, derivative_add, eval_sub, eval_add, eval_mul, h0, h1, v]
    simp only [derivative_ofNat, derivative_X, derivative_zero, derivative_one, eval_zero, eval_one, eval_X, eval_ofNat, zero_mul, mul_zero, zero_add, add_zero, mul_one]
    simp
    ring

/-- a linear functional that vanishes on every basis function sum_i S_ik T_i vanishes on every field -/
theorem field_vanishes (n m : ℕ) (S : ℕ → ℕ → ℝ) (v : ℕ → ℝ) (L : ℝ[X] →ₗ[ℝ] ℝ)
    (h : ∀ k, k < m → L (∑ i ∈ Finset.range n, C (S i k) * T ℝ i) = 0) :
    L (∑ i ∈ Finset.range n, C (∑ k ∈ Finset.range m, S i k * v k) * T ℝ i) = 0 := by
  have e : (∑ i ∈ Finset.range n, C (∑ k ∈ Finset.range m, S i k * v k) * T ℝ i)
      = ∑ k ∈ Finset.range m, v k • (∑ i ∈ Finset.range n, C (S i k) * T ℝ i) := by
    simp only [map_sum, Finset.sum_mul, Finset.smul_sum]
    rw [Finset.sum_comm]
    refine Finset.sum_congr rfl fun k _ => Finset.sum_congr rfl fun i _ => ?_
    rw [smul_eq_C_mul, Polynomial.C_mul]; ring
  rw [e, map_sum]
  apply Finset.sum_eq_zero
  intro k hk
  rw [map_smul, h k (Finset.mem_range.mp hk), smul_zero]

/-! ### C05, C07: the recurrence of the coefficients of the derivative -/

theorem two_T (p : ℕ) : 2 * T ℝ (p : ℤ) = U ℝ p - U ℝ (p - 2) := by
  have := two_mul_T_eq_U_sub_U ℝ ((p : ℤ) - 2)
  simpa using this

theorem derivative_series (n : ℕ) (a b : ℕ → ℝ) (hn : 1 ≤ n) (ha : a n = 0) (hb : b n = 0) (hb1 : b (n + 1) = 0)
    (h : ∀ p, p < n → (if p = 0 then 2 else 1) * b p - b (p + 2) = 2 * (p + 1 : ℕ) * a (p + 1)) :
    derivative (∑ k ∈ Finset.range n, C (a k) * T ℝ k) = ∑ k ∈ Finset.range n, C (b k) * T ℝ k := by
  have c2 : (Polynomial.C (2 : ℝ)) = 2 := map_ofNat _ 2
  have key : ∀ m, 1 ≤ m → ∑ p ∈ Finset.range m, C ((if p = 0 then 2 else 1) * b p - b (p + 2)) * U ℝ p
      = 2 * (∑ p ∈ Finset.range m, C (b p) * T ℝ p) - C (b m) * U ℝ ((m : ℤ) - 2) - C (b (m + 1)) * U ℝ ((m : ℤ) - 1) := by
    intro m hm
    induction m, hm using Nat.le_induction with
    | base => simp [U_neg_one, c2]
    | succ m hm ih =>
      rw [Finset.sum_range_succ, ih, Finset.sum_range_succ]
      have e := two_T m
      have m0 : m ≠ 0 := by omega
      have e1 : ((m + 1 : ℕ) : ℤ) - 2 = (m : ℤ) - 1 := by push_cast; ring
      have e2 : ((m + 1 : ℕ) : ℤ) - 1 = (m : ℤ) := by push_cast; ring
      rw [e1, e2]
      simp only [m0, if_false, one_mul, C_sub]
      linear_combination (-C (b m)) * e
  have two : (2 : ℝ[X]) ≠ 0 := two_ne_zero
  apply mul_left_cancel₀ two
  have k := key n hn
  rw [hb, hb1] at k
  simp only [C_0, zero_mul, sub_zero] at k
  rw [← k, derivative_sum, Finset.mul_sum]
  obtain ⟨m, rfl⟩ : ∃ m, n = m + 1 := ⟨n - 1, by omega⟩
  rw [Finset.sum_range_succ', Finset.sum_range_succ]
  have z : (if m = 0 then 2 else 1) * b m - b (m + 2) = 0 := by
    rw [h m (by omega), ha]; simp
  rw [z]
  simp only [C_0, zero_mul, add_zero, derivative_mul, derivative_C, zero_add, Nat.cast_zero, T_zero, derivative_one, mul_zero]
  apply Finset.sum_congr rfl
  intro p hp
  have hp' : p < m + 1 := by have := Finset.mem_range.mp hp; omega
  rw [h p hp', T_derivative_eq_U]
  push_cast
  simp [c2]
  ring

/-- the matrices of C05: column by column the recurrence, hence the k-th derivative for every k -/
theorem derivative_matrix (n : ℕ) (hn : 1 ≤ n) (D : ℕ → ℕ → ℕ → ℝ)
    (h0 : ∀ p q, p < n → D 0 p q = if p = q then 1 else 0) (hz : ∀ k p q, n ≤ p → D k p q = 0)
    (h : ∀ k p q, p < n → q < n → (if p = 0 then 2 else 1) * D (k + 1) p q - D (k + 1) (p + 2) q = 2 * (p + 1 : ℕ) * D k (p + 1) q)
    (k : ℕ) (v : ℕ → ℝ) :
    derivative^[k] (∑ q ∈ Finset.range n, C (v q) * T ℝ q)
      = ∑ p ∈ Finset.range n, C (∑ q ∈ Finset.range n, D k p q * v q) * T ℝ p := by
  induction k with
  | zero =>
    simp only [Function.iterate_zero, id]
    refine Finset.sum_congr rfl fun p hp => ?_
    have hp' := Finset.mem_range.mp hp
    congr 2
    rw [Finset.sum_eq_single p]
    · simp [h0 p p hp']
    · intro b _ hb; rw [h0 p b hp', if_neg (fun e => hb e.symm), zero_mul]
    · intro q; exact absurd hp q
  | succ k ih =>
    rw [Function.iterate_succ_apply', ih]
    apply derivative_series n _ _ hn
    · exact Finset.sum_eq_zero fun q _ => by rw [hz k n q le_rfl, zero_mul]
    · exact Finset.sum_eq_zero fun q _ => by rw [hz (k + 1) n q le_rfl, zero_mul]
    · exact Finset.sum_eq_zero fun q _ => by rw [hz (k + 1) (n + 1) q (by omega), zero_mul]
    · intro p hp
      rw [Finset.mul_sum, Finset.mul_sum, ← Finset.sum_sub_distrib]
      refine Finset.sum_congr rfl fun q hq => ?_
      have := h k p q hp (Finset.mem_range.mp hq)
      linear_combination v q * this

/-- the gradient of C07: repeated application of the recurrence -/
theorem derivative_iterate (n : ℕ) (hn : 1 ≤ n) (w : ℕ → ℕ → ℝ) (hz : ∀ k p, n ≤ p → w k p = 0)
    (h : ∀ k p, p < n → (if p = 0 then 2 else 1) * w (k + 1) p - w (k + 1) (p + 2) = 2 * (p + 1 : ℕ) * w k (p + 1)) (k : ℕ) :
    derivative^[k] (∑ q ∈ Finset.range n, C (w 0 q) * T ℝ q) = ∑ p ∈ Finset.range n, C (w k p) * T ℝ p := by
  induction k with
  | zero => rfl
  | succ k ih =>
    rw [Function.iterate_succ_apply', ih]
    exact derivative_series n _ _ hn (hz k n le_rfl) (hz (k + 1) n le_rfl) (hz (k + 1) (n + 1) (by omega)) (h k)

end Funspace

#print axioms Funspace.T_right
#print axioms Funspace.T_left
#print axioms Funspace.dT_right
#print axioms Funspace.dT_left
#print axioms Funspace.ddT_right
#print axioms Funspace.ddT_left
#print axioms Funspace.field_vanishes
#print axioms Funspace.derivative_series
#print axioms Funspace.derivative_matrix
#print axioms Funspace.derivative_iterate
