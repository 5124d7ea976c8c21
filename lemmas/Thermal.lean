import Mathlib

/-- the thermal weight z/(e^(βz)-1) is not negative (0/0 = 0 at z = 0; the code returns 1/β there) -/
theorem thermal_nonneg (b z : ℝ) (hb : 0 < b) : 0 ≤ z / (Real.exp (b * z) - 1) := by
  rcases le_total 0 z with h | h
  · apply div_nonneg h
    have : 0 ≤ b * z := mul_nonneg hb.le h
    have := Real.one_le_exp this
    linarith
  · apply div_nonneg_of_nonpos h
    have : b * z ≤ 0 := mul_nonpos_of_nonneg_of_nonpos hb.le h
    have := Real.exp_le_one_iff.mpr this
    linarith

theorem rate_nonneg (b z y : ℝ) (hb : 0 < b) : 0 ≤ z / (Real.exp (b * z) - 1) * y ^ 2 ∧ 0 ≤ 1 / b * y ^ 2 ∧ 0 ≤ 0 * y ^ 2 := by
  refine ⟨mul_nonneg (thermal_nonneg b z hb) (sq_nonneg y), by positivity, by simp⟩
