import Mathlib.Analysis.SpecialFunctions.Trigonometric.Basic

/-! Facts the contracts of C13 rest on. -/

namespace Funspace

theorem cos_decreasing : StrictAntiOn Real.cos (Set.Icc 0 Real.pi) := Real.strictAntiOn_cos

theorem sin_eq_cos (x : ℝ) : Real.sin x = Real.cos (Real.pi / 2 - x) := (Real.cos_pi_div_two_sub x).symm

theorem sin_odd (x : ℝ) : Real.sin (-x) = -Real.sin x := Real.sin_neg x

theorem points_increase (n i j : ℕ) (hn : 2 ≤ n) (hij : i < j) (hj : j < n) :
    -Real.cos (Real.pi * i / (n - 1)) < -Real.cos (Real.pi * j / (n - 1)) := by
  have d : (0 : ℝ) < (n : ℝ) - 1 := by
    have : (2 : ℝ) ≤ n := by exact_mod_cast hn
    linarith
  have hi' : (i : ℝ) < j := by exact_mod_cast hij
  have hj' : (j : ℝ) ≤ n - 1 := by
    have : (j : ℝ) + 1 ≤ n := by exact_mod_cast hj
    linarith
  have p := Real.pi_pos
  apply neg_lt_neg
  apply Real.strictAntiOn_cos
  · exact ⟨by positivity, by rw [div_le_iff₀ d]; nlinarith [(Nat.cast_nonneg i : (0:ℝ) ≤ i)]⟩
  · exact ⟨by positivity, by rw [div_le_iff₀ d]; nlinarith⟩
  · rw [div_lt_div_iff_of_pos_right d]
    exact mul_lt_mul_of_pos_left hi' p

end Funspace

#print axioms Funspace.cos_decreasing
#print axioms Funspace.sin_eq_cos
#print axioms Funspace.sin_odd
#print axioms Funspace.points_increase
