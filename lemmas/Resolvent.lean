/- C10: the continued fraction is the first diagonal element of the resolvent of the tridiagonal matrix.
   a i : diagonal, β i : couplings (β 0 the norm of the start vector), b i = (β i)^2.
   R is the recursion the code evaluates. x solves (z - T) x = e0, with x n = 0 beyond the last row. -/
import Mathlib.Data.Complex.Basic
import Mathlib.Tactic

open Complex

/-- below the upper half plane boundary every denominator is nonzero -/
theorem denominators (n : ℕ) (z : ℂ) (hz : 0 < z.im) (a : ℕ → ℝ) (b : ℕ → ℝ) (hb : ∀ i, 0 ≤ b i) (R : ℕ → ℂ)
    (hn : R n = 0) (hR : ∀ i < n, R i = b i / (z - a i - R (i+1))) :
    ∀ i ≤ n, (R i).im ≤ 0 ∧ (∀ j, j + 1 = i → z - a j - R i ≠ 0) := by
  have key : ∀ k ≤ n, (R (n - k)).im ≤ 0 := by
    intro k
    induction k with
    | zero => intro _; simp [hn]
    | succ k ih =>
      intro hk
      have h1 := ih (by omega)
      have hlt : n - (k+1) < n := by omega
      have he : n - (k+1) + 1 = n - k := by omega
      rw [hR _ hlt, he]
      set D := z - a (n - (k+1)) - R (n - k) with hD
      have hDi : 0 < D.im := by
        rw [hD]; simp; linarith
      rw [Complex.div_im]
      simp only [ofReal_im, zero_mul, zero_div, zero_sub, ofReal_re]
      have : 0 ≤ normSq D := normSq_nonneg D
      have := div_nonneg (mul_nonneg (hb (n-(k+1))) hDi.le) this
      linarith
  intro i hi
  have h := key (n - i) (by omega)
  have he : n - (n - i) = i := by omega
  rw [he] at h
  refine ⟨h, ?_⟩
  intro j _ h0
  have : (z - a j - R i).im = 0 := by rw [h0]; simp
  simp at this
  linarith

theorem tridiag_resolvent (n : ℕ) (hpos : 0 < n) (z : ℂ) (a β : ℕ → ℂ) (R x : ℕ → ℂ)
    (hn : R n = 0) (hR : ∀ i < n, R i = (β i)^2 / (z - a i - R (i+1)))
    (hD : ∀ i < n, z - a i - R (i+1) ≠ 0)
    (hx : x n = 0)
    (h0 : (z - a 0) * x 0 - β 1 * x 1 = 1)
    (hi : ∀ i, 1 ≤ i → i < n → -(β i) * x (i-1) + (z - a i) * x i - β (i+1) * x (i+1) = 0) :
    R 0 = (β 0)^2 * x 0 := by
  have key : ∀ k < n, β (n - k) * x (n - k) = R (n - k) * x (n - k - 1) := by
    intro k
    induction k with
    | zero => intro _; simp [hn, hx]
    | succ k ih =>
      intro hk
      have h1 := ih (by omega)
      have hlt : n - (k+1) < n := by omega
      have he : n - (k+1) + 1 = n - k := by omega
      have he' : n - k - 1 = n - (k+1) := by omega
      have eq := hi (n - (k+1)) (by omega) hlt
      have d := hD _ hlt
      rw [hR _ hlt]
      rw [he] at eq d ⊢
      rw [he'] at h1
      have e2 : (z - a (n-(k+1)) - R (n-k)) * x (n-(k+1)) = β (n-(k+1)) * x (n-(k+1)-1) := by
        have : (z - a (n-(k+1)) - R (n-k)) * x (n-(k+1)) = (z - a (n-(k+1))) * x (n-(k+1)) - R (n-k) * x (n-(k+1)) := by ring
        rw [this, ← h1]
        linear_combination eq
      rw [div_mul_eq_mul_div, eq_div_iff d]
      linear_combination β (n-(k+1)) * e2
  have h1 := key (n-1) (by omega)
  have he : n - (n-1) = 1 := by omega
  rw [he] at h1
  simp at h1
  have d := hD 0 hpos
  rw [hR 0 hpos]
  simp only [zero_add] at d ⊢
  have e3 : (z - a 0 - R 1) * x 0 = 1 := by
    linear_combination h0 + h1
  rw [div_eq_iff d]
  linear_combination (-(β 0)^2) * e3
