import Mathlib

open Matrix Finset

/-- eigenvalues of a Markov generator (non-negative off the diagonal, columns adding up to zero) are no closer to one than zero is,
    and only zero is at distance one -/
theorem generator_spectrum {n : ℕ} (W : Matrix (Fin n) (Fin n) ℝ) (μ : ℂ)
    (hoff : ∀ i j, i ≠ j → 0 ≤ W i j) (hcol : ∀ j, ∑ i, W i j = 0)
    (hμ : Module.End.HasEigenvalue (Matrix.toLin' (W.map (algebraMap ℝ ℂ))) μ) :
    1 ≤ ‖μ - 1‖ ∧ (‖μ - 1‖ = 1 → μ = 0) := by
  have hT : Module.End.HasEigenvalue (Matrix.toLin' (W.map (algebraMap ℝ ℂ))ᵀ) μ := by
    rw [Module.End.hasEigenvalue_iff_isRoot_charpoly] at hμ ⊢
    rw [Matrix.charpoly_toLin'] at hμ ⊢
    rwa [Matrix.charpoly_transpose]
  obtain ⟨k, hk⟩ := eigenvalue_mem_ball hT
  have hR : ∑ j ∈ univ.erase k, ‖(W.map (algebraMap ℝ ℂ))ᵀ k j‖ = - W k k := by
    have h1 : ∀ j ∈ univ.erase k, ‖(W.map (algebraMap ℝ ℂ))ᵀ k j‖ = W j k := by
      intro j hj
      have := hoff j k (Finset.ne_of_mem_erase hj)
      simp [abs_of_nonneg this]
    rw [Finset.sum_congr rfl h1]
    have := Finset.add_sum_erase univ (fun i => W i k) (Finset.mem_univ k)
    have h2 := hcol k
    linarith
  rw [hR, Metric.mem_closedBall, dist_eq_norm] at hk
  have hd : (W.map (algebraMap ℝ ℂ))ᵀ k k = ((W k k : ℝ) : ℂ) := by simp
  rw [hd] at hk
  set r := - W k k with hr
  have hr0 : 0 ≤ r := le_trans (norm_nonneg _) hk
  have hk' : ‖μ + (r : ℂ)‖ ≤ r := by
    have : μ - ((W k k : ℝ) : ℂ) = μ + (r : ℂ) := by rw [hr]; push_cast; ring
    rwa [this] at hk
  have hsq : (μ.re + r) ^ 2 + μ.im ^ 2 ≤ r ^ 2 := by
    have h3 : ‖μ + (r : ℂ)‖ ^ 2 = (μ.re + r) ^ 2 + μ.im ^ 2 := by
      rw [← Complex.normSq_eq_norm_sq, Complex.normSq_apply]; simp; ring
    rw [← h3]; exact pow_le_pow_left₀ (norm_nonneg _) hk' 2
  have hone : ‖μ - 1‖ ^ 2 = (μ.re - 1) ^ 2 + μ.im ^ 2 := by
    rw [← Complex.normSq_eq_norm_sq, Complex.normSq_apply]; simp; ring
  have hre : μ.re ≤ 0 := by
    by_contra h
    push Not at h
    nlinarith [sq_nonneg μ.im, mul_nonneg hr0 h.le, mul_pos h h]
  constructor
  · have : 1 ≤ ‖μ - 1‖ ^ 2 := by rw [hone]; nlinarith [sq_nonneg μ.im]
    nlinarith [norm_nonneg (μ - 1)]
  · intro h
    rw [h] at hone
    have h0 : μ.re = 0 := by nlinarith [sq_nonneg μ.im]
    have h1 : μ.im = 0 := by
      have : μ.im ^ 2 = 0 := by rw [h0] at hone; linarith
      exact pow_eq_zero_iff (two_ne_zero) |>.mp this
    exact Complex.ext h0 h1

/-- zero is one of them -/
theorem generator_has_zero {n : ℕ} (W : Matrix (Fin (n + 1)) (Fin (n + 1)) ℝ) (hcol : ∀ j, ∑ i, W i j = 0) :
    ∃ v, v ≠ 0 ∧ W.mulVec v = 0 := by
  have hdet : W.det = 0 := by
    apply Matrix.exists_vecMul_eq_zero_iff.mp
    refine ⟨fun _ => 1, ?_, ?_⟩
    · intro hc; exact one_ne_zero (congrFun hc 0)
    · ext j; simp [Matrix.vecMul, dotProduct, hcol j]
  exact Matrix.exists_mulVec_eq_zero_iff.mpr hdet
