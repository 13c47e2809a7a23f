import Mathlib.LinearAlgebra.StdBasis
import Mathlib.Algebra.Order.BigOperators.Ring.Finset
import Mathlib.Data.Complex.BigOperators
import Mathlib.Tactic

/-! Facts of linear algebra the contracts of C09, C17, C18 and C24 rest on. -/

namespace Funspace

/-! ### C09: a matrix with unit diagonal and zeros above it has full column rank, so the projection of S c is c -/

theorem injective_of_unit_columns (n m : ℕ) (hm : m ≤ n) (S : ℕ → ℕ → ℝ) (h1 : ∀ k, k < m → S k k = 1)
    (h0 : ∀ i k, i < k → k < m → S i k = 0) (v : ℕ → ℝ)
    (hv : ∀ i, i < n → ∑ k ∈ Finset.range m, S i k * v k = 0) : ∀ k, k < m → v k = 0 := by
  intro k
  induction k using Nat.strong_induction_on with
  | _ k ih =>
    intro hk
    have e := hv k (by omega)
    rw [Finset.sum_eq_single k] at e
    · simpa [h1 k hk] using e
    · intro b hb hne
      have hb' := Finset.mem_range.mp hb
      rcases lt_or_gt_of_ne hne with h | h
      · rw [ih b h hb', mul_zero]
      · rw [h0 k b h hb', zero_mul]
    · intro h; exact absurd (Finset.mem_range.mpr hk) h

theorem projection_of_image (n m : ℕ) (hm : m ≤ n) (S : ℕ → ℕ → ℝ) (h1 : ∀ k, k < m → S k k = 1)
    (h0 : ∀ i k, i < k → k < m → S i k = 0) (c v : ℕ → ℝ)
    (h : ∀ j, j < m → ∑ i ∈ Finset.range n, S i j * (∑ k ∈ Finset.range m, S i k * v k)
        = ∑ i ∈ Finset.range n, S i j * (∑ k ∈ Finset.range m, S i k * c k)) : ∀ k, k < m → v k = c k := by
  have q : ∑ i ∈ Finset.range n, (∑ k ∈ Finset.range m, S i k * (v k - c k)) ^ 2 = 0 := by
    have e : ∀ i, (∑ k ∈ Finset.range m, S i k * (v k - c k)) ^ 2
        = ∑ j ∈ Finset.range m, (v j - c j) * (S i j * (∑ k ∈ Finset.range m, S i k * v k) - S i j * (∑ k ∈ Finset.range m, S i k * c k)) := by
      intro i
      have d : ∑ k ∈ Finset.range m, S i k * (v k - c k)
          = (∑ k ∈ Finset.range m, S i k * v k) - (∑ k ∈ Finset.range m, S i k * c k) := by
        rw [← Finset.sum_sub_distrib]; exact Finset.sum_congr rfl fun k _ => by ring
      rw [sq]
      nth_rewrite 2 [d]
      rw [Finset.sum_mul]
      exact Finset.sum_congr rfl fun j _ => by ring
    simp only [e]
    rw [Finset.sum_comm]
    apply Finset.sum_eq_zero
    intro j hj
    rw [← Finset.mul_sum, Finset.sum_sub_distrib, h j (Finset.mem_range.mp hj), sub_self, mul_zero]
  have z := (Finset.sum_eq_zero_iff_of_nonneg (fun i _ => sq_nonneg _)).mp q
  have r := injective_of_unit_columns n m hm S h1 h0 (fun k => v k - c k)
    (fun i hi => by simpa using z i (Finset.mem_range.mpr hi))
  intro k hk
  exact sub_eq_zero.mp (r k hk)

/-! ### C17, C18, C24: linear operations along different axes commute -/

/-- an operation `A` along one axis and an operation with the matrix `b` along another one; scalars K, lanes of values in M (before `A`) and
    in N (after `A`).  K = C, M = N = C: two complex operations.  K = R: `A` a real-linear operation such as the real transforms
    (M = R, N = C forward, M = C, N = R backward), `b` real (Chebyshev), acting on real and on complex lanes. -/
theorem axes_commute {K M N : Type*} [CommSemiring K] [AddCommMonoid M] [AddCommMonoid N] [Module K M] [Module K N]
    (n0 n1 m0 m1 : ℕ) (A : (Fin n0 → M) →ₗ[K] (Fin m0 → N)) (b : Fin m1 → Fin n1 → K)
    (v : Fin n0 → Fin n1 → M) (i : Fin m0) (j : Fin m1) :
    A (fun k => ∑ l, b j l • v k l) i = ∑ l, b j l • A (fun k => v k l) i := by
  have e : (fun k => ∑ l, b j l • v k l) = ∑ l, b j l • (fun k => v k l) := by
    funext k; simp [Finset.sum_apply]
  rw [e, map_sum]
  simp [Finset.sum_apply]

/-- every linear operation on lanes of scalars has a matrix -/
theorem has_matrix {K : Type*} [Field K] (n m : ℕ) (B : (Fin n → K) →ₗ[K] (Fin m → K)) :
    ∃ b : Fin m → Fin n → K, ∀ w j, B w j = ∑ l, b j l • w l := by
  refine ⟨fun j l => B (fun r => if l = r then 1 else 0) j, fun w j => ?_⟩
  have := congrFun (LinearMap.pi_apply_eq_sum_univ B w) j
  rw [this]
  simp [Finset.sum_apply, mul_comm]

/-- if `back` undoes `forth` along each axis, the tensor products are inverse to each other -/
theorem roundtrip {P Q R : Type*} (f0 : P → Q) (g0 : Q → P) (f1 : Q → R) (g1 : R → Q)
    (h0 : Function.LeftInverse g0 f0) (h1 : Function.LeftInverse g1 f1) : Function.LeftInverse (g0 ∘ g1) (f1 ∘ f0) :=
  fun x => by simp [Function.comp, h1 (f0 x), h0 x]

end Funspace

#print axioms Funspace.injective_of_unit_columns
#print axioms Funspace.projection_of_image
#print axioms Funspace.axes_commute
#print axioms Funspace.has_matrix
#print axioms Funspace.roundtrip
