/- C13: what the Lanczos recursion gives in exact arithmetic.
   w k : incoming vector of step k, b k its norm, v k the normalised vector, a k its expectation value, u k the previous vector. -/
import Mathlib.Analysis.InnerProductSpace.Basic
import Mathlib.Analysis.InnerProductSpace.Symmetric
import Mathlib.Tactic

open scoped BigOperators InnerProductSpace

variable {E : Type*} [NormedAddCommGroup E] [InnerProductSpace ℝ E]

structure Lanczos (A : E →ₗ[ℝ] E) (n : ℕ) (w v u : ℕ → E) (a b : ℕ → ℝ) : Prop where
  hb : ∀ k < n, b k = ‖w k‖
  hb0 : ∀ k < n, b k ≠ 0
  hv : ∀ k < n, v k = (b k)⁻¹ • w k
  ha : ∀ k < n, a k = ⟪v k, A (v k)⟫_ℝ
  hu0 : u 0 = 0
  hu : ∀ k, u (k+1) = v k
  hw : ∀ k < n, w (k+1) = A (v k) - a k • v k - b k • u k

namespace Lanczos
variable {A : E →ₗ[ℝ] E} {n : ℕ} {w v u : ℕ → E} {a b : ℕ → ℝ}

theorem w_eq (h : Lanczos A n w v u a b) (k : ℕ) (hk : k < n) : w k = b k • v k := by
  rw [h.hv k hk, smul_smul, mul_inv_cancel₀ (h.hb0 k hk), one_smul]

theorem norm_one (h : Lanczos A n w v u a b) (k : ℕ) (hk : k < n) : ⟪v k, v k⟫_ℝ = 1 := by
  have h0 := h.hb0 k hk
  rw [h.hv k hk, inner_smul_left, inner_smul_right, real_inner_self_eq_norm_sq, ← h.hb k hk]
  simp
  field_simp

/-- three-term recurrence -/
theorem three_term (h : Lanczos A n w v u a b) (k : ℕ) (hk : k + 1 < n) :
    A (v k) = b (k+1) • v (k+1) + a k • v k + b k • u k := by
  have := h.hw k (by omega)
  rw [h.w_eq (k+1) hk] at this
  rw [this]; abel

/-- the Lanczos vectors are orthogonal to each other -/
theorem orthogonal (h : Lanczos A n w v u a b) (hA : A.IsSymmetric) :
    ∀ k < n, ∀ j < k, ⟪v j, v k⟫_ℝ = 0 := by
  intro k
  induction k using Nat.strong_induction_on with
  | _ k ih =>
    intro hk j hj
    obtain ⟨k, rfl⟩ : ∃ m, k = m + 1 := ⟨k - 1, by omega⟩
    -- orthogonality up to k
    have sym : ∀ i ≤ k, ∀ l ≤ k, i ≠ l → ⟪v i, v l⟫_ℝ = 0 := by
      intro i hi l hl hne
      rcases Nat.lt_or_gt_of_ne hne with h1 | h1
      · exact ih l (by omega) (by omega) i h1
      · rw [real_inner_comm]; exact ih i (by omega) (by omega) l h1
    have key : ⟪v j, w (k+1)⟫_ℝ = 0 := by
      rw [h.hw k (by omega), inner_sub_right, inner_sub_right, inner_smul_right, inner_smul_right]
      rcases Nat.lt_or_ge j k with h1 | h1
      · have e : ⟪v j, A (v k)⟫_ℝ = b (j+1) * ⟪v (j+1), v k⟫_ℝ + b j * ⟪u j, v k⟫_ℝ := by
          rw [← hA (v j) (v k), h.three_term j (by omega)]
          rw [inner_add_left, inner_add_left, inner_smul_left, inner_smul_left, inner_smul_left, sym j (by omega) k le_rfl (by omega)]
          simp
        have eu : ⟪u j, v k⟫_ℝ = 0 := by
          cases j with
          | zero => rw [h.hu0, inner_zero_left]
          | succ i => rw [h.hu]; exact sym i (by omega) k le_rfl (by omega)
        rw [e, eu, sym j (by omega) k le_rfl (by omega)]
        obtain ⟨q, rfl⟩ : ∃ m, k = m + 1 := ⟨k - 1, by omega⟩
        rw [h.hu q]
        rcases Nat.lt_or_ge j q with h2 | h2
        · rw [sym (j+1) (by omega) (q+1) le_rfl (by omega), sym j (by omega) q (by omega) (by omega)]; simp
        · have : j = q := by omega
          subst this
          rw [h.norm_one (j+1) (by omega), h.norm_one j (by omega)]; ring
      · have : j = k := by omega
        subst this
        have eu : ⟪v j, u j⟫_ℝ = 0 := by
          cases j with
          | zero => rw [h.hu0, inner_zero_right]
          | succ i => rw [h.hu]; exact sym (i+1) le_rfl i (by omega) (by omega)
        rw [eu, h.norm_one j (by omega), ← h.ha j (by omega)]; ring
    have := h.hv (k+1) hk
    rw [this, inner_smul_right, key, mul_zero]

theorem orthonormal (h : Lanczos A n w v u a b) (hA : A.IsSymmetric) :
    Orthonormal ℝ (fun i : Fin n => v i) := by
  rw [orthonormal_iff_ite]
  intro i j
  split_ifs with e
  · subst e; exact h.norm_one i i.2
  · have hne : (i : ℕ) ≠ j := fun q => e (Fin.ext q)
    rcases Nat.lt_or_gt_of_ne hne with h1 | h1
    · exact h.orthogonal hA j j.2 i h1
    · rw [real_inner_comm]; exact h.orthogonal hA i i.2 j h1

/-- the matrix of the operator between Lanczos vectors is the tridiagonal matrix -/
theorem tridiagonal (h : Lanczos A n w v u a b) (hA : A.IsSymmetric) (j k : ℕ) (hj : j < n) (hk : k < n) :
    ⟪v j, A (v k)⟫_ℝ = if j = k then a k else if j = k + 1 then b j else if k = j + 1 then b k else 0 := by
  have sym : ∀ i < n, ∀ l < n, i ≠ l → ⟪v i, v l⟫_ℝ = 0 := by
    intro i hi l hl hne
    rcases Nat.lt_or_gt_of_ne hne with h1 | h1
    · exact h.orthogonal hA l hl i h1
    · rw [real_inner_comm]; exact h.orthogonal hA i hi l h1
  have main : ∀ j k, j < n → k < n → k < j → ⟪v j, A (v k)⟫_ℝ = if j = k + 1 then b j else 0 := by
    intro j k hj hk hlt
    have hu : ⟪v j, u k⟫_ℝ = 0 := by
      cases k with
      | zero => rw [h.hu0, inner_zero_right]
      | succ i => rw [h.hu]; exact sym j hj i (by omega) (by omega)
    rw [h.three_term k (by omega), inner_add_right, inner_add_right, inner_smul_right, inner_smul_right, inner_smul_right,
      sym j hj k hk (by omega), hu]
    split_ifs with e
    · subst e; rw [h.norm_one (k+1) hj]; ring
    · rw [sym j hj (k+1) (by omega) e]; ring
  rcases Nat.lt_trichotomy j k with h1 | h1 | h1
  · rw [← hA (v j) (v k), real_inner_comm, main k j hk hj h1]
    rw [if_neg (show ¬ j = k by omega), if_neg (show ¬ j = k + 1 by omega)]
  · subst h1; rw [if_pos rfl, h.ha j hj]
  · rw [main j k hj hk h1, if_neg (show ¬ j = k by omega), if_neg (show ¬ k = j + 1 by omega)]

/-- the value of the tridiagonal form at y is the Rayleigh quotient of the operator at V y, and V y has the norm of y:
    the lowest eigenvalue of the tridiagonal matrix is not below any lower bound of the operator -/
theorem ritz_bound (h : Lanczos A n w v u a b) (hA : A.IsSymmetric) (c : ℝ) (hc : ∀ x, c * ⟪x, x⟫_ℝ ≤ ⟪x, A x⟫_ℝ)
    (y : Fin n → ℝ) (θ : ℝ) (hy : ∑ i, y i ^ 2 = 1)
    (hT : ∀ i : Fin n, ∑ k : Fin n, ⟪v i, A (v k)⟫_ℝ * y k = θ * y i) : c ≤ θ := by
  have hx := hc (∑ i, y i • v i)
  have on := h.orthonormal hA
  have n1 : ⟪∑ i, y i • v (i : ℕ), ∑ i, y i • v (i : ℕ)⟫_ℝ = 1 := by
    have := on.inner_sum y y Finset.univ
    simp only [conj_trivial] at this
    rw [this, ← hy]
    exact Finset.sum_congr rfl fun i _ => by ring
  have n2 : ⟪∑ i, y i • v (i : ℕ), A (∑ i, y i • v (i : ℕ))⟫_ℝ = θ := by
    rw [map_sum, sum_inner]
    have : ∀ i : Fin n, ⟪y i • v (i : ℕ), ∑ k : Fin n, A (y k • v (k : ℕ))⟫_ℝ = θ * y i ^ 2 := by
      intro i
      rw [inner_smul_left, inner_sum]
      have e : ∑ k : Fin n, ⟪v (i : ℕ), A (y k • v (k : ℕ))⟫_ℝ = θ * y i := by
        rw [← hT i]
        exact Finset.sum_congr rfl fun k _ => by rw [map_smul, inner_smul_right]; ring
      rw [e]; simp; ring
    rw [Finset.sum_congr rfl fun i _ => this i, ← Finset.mul_sum, hy, mul_one]
  rw [n1, n2, mul_one] at hx
  exact hx

/-- when the residual of the last step vanishes every Ritz pair is an eigenpair of the operator -/
theorem ritz_vector (h : Lanczos A n w v u a b) (hA : A.IsSymmetric) (hres : w n = 0)
    (y : Fin n → ℝ) (θ : ℝ) (hT : ∀ i : Fin n, ∑ k : Fin n, ⟪v i, A (v k)⟫_ℝ * y k = θ * y i) :
    A (∑ i, y i • v (i : ℕ)) = θ • ∑ i, y i • v (i : ℕ) := by
  have on := h.orthonormal hA
  -- the span of the vectors is mapped into itself
  have hin : ∀ k : Fin n, A (v (k : ℕ)) ∈ Submodule.span ℝ (Set.range fun i : Fin n => v (i : ℕ)) := by
    intro k
    have mem : ∀ j, j < n → v j ∈ Submodule.span ℝ (Set.range fun i : Fin n => v (i : ℕ)) :=
      fun j hj => Submodule.subset_span ⟨⟨j, hj⟩, rfl⟩
    have mu : u (k : ℕ) ∈ Submodule.span ℝ (Set.range fun i : Fin n => v (i : ℕ)) := by
      rcases Nat.eq_zero_or_pos (k : ℕ) with e | e
      · rw [e, h.hu0]; exact Submodule.zero_mem _
      · obtain ⟨q, hq⟩ : ∃ q, (k : ℕ) = q + 1 := ⟨k - 1, by omega⟩
        rw [hq, h.hu]; exact mem q (by omega)
    have e : A (v (k : ℕ)) = w (k+1) + a k • v (k : ℕ) + b k • u (k : ℕ) := by
      rw [h.hw k k.2]; abel
    rw [e]
    refine Submodule.add_mem _ (Submodule.add_mem _ ?_ (Submodule.smul_mem _ _ (mem k k.2))) (Submodule.smul_mem _ _ mu)
    rcases Nat.lt_or_ge ((k : ℕ)+1) n with h1 | h1
    · rw [h.w_eq _ h1]; exact Submodule.smul_mem _ _ (mem _ h1)
    · have : (k : ℕ) + 1 = n := by omega
      rw [this, hres]; exact Submodule.zero_mem _
  set x := ∑ i, y i • v (i : ℕ) with hxdef
  have hd : A x - θ • x ∈ Submodule.span ℝ (Set.range fun i : Fin n => v (i : ℕ)) := by
    refine Submodule.sub_mem _ ?_ (Submodule.smul_mem _ _ (Submodule.sum_mem _ fun i _ => Submodule.smul_mem _ _ (Submodule.subset_span ⟨i, rfl⟩)))
    rw [hxdef, map_sum]
    exact Submodule.sum_mem _ fun i _ => by rw [map_smul]; exact Submodule.smul_mem _ _ (hin i)
  have ho : ∀ i : Fin n, ⟪v (i : ℕ), A x - θ • x⟫_ℝ = 0 := by
    intro i
    rw [inner_sub_right, inner_smul_right]
    have e1 : ⟪v (i : ℕ), A x⟫_ℝ = θ * y i := by
      rw [hxdef, map_sum, inner_sum, ← hT i]
      exact Finset.sum_congr rfl fun k _ => by rw [map_smul, inner_smul_right]; ring
    have e2 : ⟪v (i : ℕ), x⟫_ℝ = y i := by
      rw [hxdef]; exact on.inner_right_fintype y i
    rw [e1, e2]; ring
  have hz : A x - θ • x = 0 := by
    have : ∀ z ∈ Submodule.span ℝ (Set.range fun i : Fin n => v (i : ℕ)), ⟪z, A x - θ • x⟫_ℝ = 0 := by
      intro z hz
      induction hz using Submodule.span_induction with
      | mem z hz => obtain ⟨i, rfl⟩ := hz; exact ho i
      | zero => exact inner_zero_left _
      | add p q _ _ hp hq => rw [inner_add_left, hp, hq, add_zero]
      | smul c p _ hp => rw [inner_smul_left, hp, mul_zero]
    exact inner_self_eq_zero.mp (this _ hd)
  exact sub_eq_zero.mp hz

end Lanczos

/-- rows made by the Gram-Schmidt recurrence are orthogonal -/
theorem gram_schmidt (X G : ℕ → E) (m : ℕ) (hne : ∀ r < m, G r ≠ 0)
    (hG : ∀ r < m, G r = X r - ∑ q ∈ Finset.range r, (⟪X r, G q⟫_ℝ / ⟪G q, G q⟫_ℝ) • G q) :
    ∀ r < m, ∀ q < r, ⟪G q, G r⟫_ℝ = 0 := by
  intro r
  induction r using Nat.strong_induction_on with
  | _ r ih =>
    intro hr q hq
    rw [hG r hr, inner_sub_right, inner_sum]
    have : ∀ p ∈ Finset.range r, ⟪G q, (⟪X r, G p⟫_ℝ / ⟪G p, G p⟫_ℝ) • G p⟫_ℝ = if p = q then ⟪X r, G q⟫_ℝ else 0 := by
      intro p hp
      have hp := Finset.mem_range.mp hp
      rw [inner_smul_right]
      split_ifs with e
      · subst e
        exact div_mul_cancel₀ _ (by simpa using hne p (by omega))
      · rcases Nat.lt_or_gt_of_ne e with h1 | h1
        · rw [real_inner_comm (G p) (G q), ih q hq (by omega) p h1, mul_zero]
        · rw [ih p hp (by omega) q h1, mul_zero]
    rw [Finset.sum_congr rfl this, Finset.sum_ite_eq' (Finset.range r) q, if_pos (Finset.mem_range.mpr hq), real_inner_comm, sub_self]

/-- and every input row is a combination of them -/
theorem gram_schmidt_span (X G : ℕ → E) (m : ℕ)
    (hG : ∀ r < m, G r = X r - ∑ q ∈ Finset.range r, (⟪X r, G q⟫_ℝ / ⟪G q, G q⟫_ℝ) • G q) (r : ℕ) (hr : r < m) :
    X r ∈ Submodule.span ℝ (G '' Set.Iio m) := by
  have e : X r = G r + ∑ q ∈ Finset.range r, (⟪X r, G q⟫_ℝ / ⟪G q, G q⟫_ℝ) • G q := by
    conv_rhs => rw [hG r hr]
    abel
  rw [e]
  refine Submodule.add_mem _ (Submodule.subset_span ⟨r, hr, rfl⟩) (Submodule.sum_mem _ fun q hq => Submodule.smul_mem _ _ (Submodule.subset_span ⟨q, ?_, rfl⟩))
  exact lt_trans (Finset.mem_range.mp hq) hr
