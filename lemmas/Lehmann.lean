import Mathlib

open Matrix Finset

theorem lehmann_sum_rule {m : ℕ} (C : Matrix (Fin m) (Fin m) ℝ) (w : Fin m → ℝ)
    (h : C * Cᵀ + Cᵀ * C = 1) :
    ∑ i, ∑ j, (w i + w j) * (C i j) ^ 2 = ∑ i, w i := by
  have hd : ∀ i, (∑ j, C i j ^ 2) + (∑ j, C j i ^ 2) = 1 := by
    intro i
    have := congrFun (congrFun h i) i
    simp only [Matrix.add_apply, Matrix.mul_apply, Matrix.transpose_apply, Matrix.one_apply_eq] at this
    simpa [pow_two] using this
  have e : ∑ i, ∑ j, (w i + w j) * (C i j) ^ 2
      = ∑ i, w i * (∑ j, C i j ^ 2) + ∑ j, w j * (∑ i, C i j ^ 2) := by
    have h2 : ∑ j, w j * (∑ i, C i j ^ 2) = ∑ i, ∑ j, w j * C i j ^ 2 := by
      rw [Finset.sum_comm]; simp [Finset.mul_sum]
    rw [h2, ← Finset.sum_add_distrib]
    refine Finset.sum_congr rfl fun i _ => ?_
    rw [Finset.mul_sum, ← Finset.sum_add_distrib]
    exact Finset.sum_congr rfl fun j _ => by ring
  rw [e, ← Finset.sum_add_distrib]
  refine Finset.sum_congr rfl fun i _ => ?_
  rw [← mul_add, hd i, mul_one]

theorem pole_im_nonpos (q x eta l : ℝ) (hq : 0 ≤ q) (he : 0 < eta) :
    ((q : ℂ) / ((x : ℂ) + eta * Complex.I - l)).im ≤ 0 := by
  have : ((x : ℂ) + eta * Complex.I - l) = ⟨x - l, eta⟩ := by
    apply Complex.ext <;> simp
  rw [this, Complex.div_im]
  simp only [Complex.ofReal_im, Complex.ofReal_re, zero_mul, zero_div, zero_sub]
  have : 0 ≤ q * eta / Complex.normSq ⟨x - l, eta⟩ :=
    div_nonneg (mul_nonneg hq he.le) (Complex.normSq_nonneg _)
  linarith

theorem weight_nonneg (a E1 E2 beta Z : ℝ) (hZ : 0 < Z) :
    0 ≤ a ^ 2 * (Real.exp (-beta * E1) + Real.exp (-beta * E2)) / Z := by positivity
