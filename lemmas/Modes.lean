import Mathlib.Analysis.SpecialFunctions.ExpDeriv
import Mathlib.Analysis.Calculus.IteratedDeriv.Lemmas
import Mathlib.Analysis.SpecialFunctions.Complex.Log

/-! Derivatives of Fourier modes (C11). -/

namespace Funspace
open Complex Finset

/-- a finite Fourier series on the real line, modes s with integer wave numbers w -/
noncomputable def series (s : Finset ℕ) (w : ℕ → ℤ) (c : ℕ → ℂ) (x : ℝ) : ℂ := ∑ k ∈ s, c k * exp (I * w k * x)

theorem series_deriv (s : Finset ℕ) (w : ℕ → ℤ) (c : ℕ → ℂ) :
    deriv (series s w c) = series s w (fun k => I * w k * c k) := by
  funext x
  apply HasDerivAt.deriv
  unfold series
  refine HasDerivAt.fun_sum (fun k _ => ?_)
  have h : HasDerivAt (fun y : ℝ => I * w k * (y : ℂ)) (I * w k * 1) x :=
    (Complex.ofRealCLM.hasDerivAt).const_mul (I * w k)
  have := (h.cexp).const_mul (c k)
  refine this.congr_deriv ?_
  ring

/-- multiplying every mode by (i k)^N differentiates N times -/
theorem series_iteratedDeriv (s : Finset ℕ) (w : ℕ → ℤ) (c : ℕ → ℂ) (N : ℕ) :
    iteratedDeriv N (series s w c) = series s w (fun k => (I * w k) ^ N * c k) := by
  induction N with
  | zero => simp
  | succ N ih =>
    rw [iteratedDeriv_succ, ih, series_deriv]
    congr 1; funext k; ring

/-- the aliases of a mode on the grid x_j = 2 pi j / n agree -/
theorem aliases (n : ℕ) (hn : 1 ≤ n) (w : ℤ) (j : ℕ) :
    exp (I * ((w + n : ℤ) : ℂ) * (2 * Real.pi * j / n : ℝ)) = exp (I * w * (2 * Real.pi * j / n : ℝ)) := by
  have n0 : (n : ℂ) ≠ 0 := by exact_mod_cast (by omega : n ≠ 0)
  have e : I * ((w + n : ℤ) : ℂ) * (2 * Real.pi * j / n : ℝ) = I * w * (2 * Real.pi * j / n : ℝ) + j * (2 * Real.pi * I) := by
    push_cast; field_simp
  rw [e, exp_add, exp_nat_mul_two_pi_mul_I, mul_one]

end Funspace

#print axioms Funspace.series_deriv
#print axioms Funspace.series_iteratedDeriv
#print axioms Funspace.aliases
