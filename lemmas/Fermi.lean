import Mathlib

/-- poles -1/λ ascend with the negative eigenvalues λ -/
theorem ascending (a b : ℝ) (hab : a < b) (hb : b < 0) : -a⁻¹ < -b⁻¹ := by
  have ha : a < 0 := hab.trans hb
  have : b⁻¹ < a⁻¹ := by
    rw [inv_lt_inv_of_neg hb ha]; exact hab
  linarith

/-- with generalised eigenvectors normalised to V^T B V = 1 the inverse of B - m A is the sum over the eigenpairs -/
theorem pencil_resolvent {n : ℕ} (A B V : Matrix (Fin n) (Fin n) ℂ) (l : Fin n → ℂ) (m : ℂ)
    (hV : V.transpose * B * V = 1) (hA : A * V = B * V * Matrix.diagonal l) (hm : ∀ k, 1 - m * l k ≠ 0) :
    (B - m • A) * (V * Matrix.diagonal (fun k => (1 - m * l k)⁻¹) * V.transpose) = 1 := by
  have h1 : (B - m • A) * V = B * V * Matrix.diagonal (fun k => 1 - m * l k) := by
    have : (Matrix.diagonal (fun k => 1 - m * l k) : Matrix (Fin n) (Fin n) ℂ) = 1 - m • Matrix.diagonal l := by
      ext i j
      by_cases h : i = j <;> simp [Matrix.diagonal, h]
    rw [this, Matrix.sub_mul, Matrix.smul_mul, hA, Matrix.mul_sub, Matrix.mul_one, Matrix.mul_smul]
  have h2 : (Matrix.diagonal (fun k => 1 - m * l k) : Matrix (Fin n) (Fin n) ℂ) * Matrix.diagonal (fun k => (1 - m * l k)⁻¹) = 1 := by
    rw [Matrix.diagonal_mul_diagonal]
    have : (fun k => (1 - m * l k) * (1 - m * l k)⁻¹) = fun _ => (1 : ℂ) := by
      funext k; exact mul_inv_cancel₀ (hm k)
    rw [this, Matrix.diagonal_one]
  have h3 : B * V * V.transpose = 1 := by
    rw [Matrix.mul_assoc] at hV
    exact mul_eq_one_comm.mp hV
  calc (B - m • A) * (V * Matrix.diagonal (fun k => (1 - m * l k)⁻¹) * V.transpose)
      = ((B - m • A) * V) * Matrix.diagonal (fun k => (1 - m * l k)⁻¹) * V.transpose := by simp only [Matrix.mul_assoc]
    _ = B * V * (Matrix.diagonal (fun k => 1 - m * l k) * Matrix.diagonal (fun k => (1 - m * l k)⁻¹)) * V.transpose := by
        rw [h1]; simp only [Matrix.mul_assoc]
    _ = 1 := by rw [h2, Matrix.mul_one, h3]

/-- the first entry of the solution of (B - m A) u = e_0, with b on the diagonal and t = m/2 next to it, is the finite
continued fraction 1/(b_0 - t^2/(b_1 - t^2/(...))) -/
theorem fraction (N : ℕ) (b u r : ℕ → ℂ) (t : ℂ)
    (h0 : b 0 * u 0 + t * u 1 = 1)
    (hk : ∀ k, k + 1 ≤ N → b (k + 1) * u (k + 1) + t * (u k + u (k + 2)) = 0)
    (hN : u (N + 1) = 0) (hr : ∀ k, k ≤ N → r k * (b k - t ^ 2 * r (k + 1)) = 1) (hrN : r (N + 1) = 0) :
    u 0 = r 0 := by
  have key : ∀ d k, k + d = N → u (k + 1) = -t * r (k + 1) * u k := by
    intro d
    induction d with
    | zero => intro k h; simp at h; subst h; rw [hN, hrN]; ring
    | succ d ih =>
      intro k h
      have h1 : u (k + 1 + 1) = -t * r (k + 1 + 1) * u (k + 1) := ih (k + 1) (by omega)
      have h2 := hk k (by omega)
      have h3 := hr (k + 1) (by omega)
      rw [show k + 2 = k + 1 + 1 from rfl, h1] at h2
      have h4 : (b (k + 1) - t ^ 2 * r (k + 1 + 1)) * u (k + 1) = -t * u k := by linear_combination h2
      calc u (k + 1) = (r (k + 1) * (b (k + 1) - t ^ 2 * r (k + 1 + 1))) * u (k + 1) := by rw [h3]; ring
        _ = r (k + 1) * ((b (k + 1) - t ^ 2 * r (k + 1 + 1)) * u (k + 1)) := by ring
        _ = -t * r (k + 1) * u k := by rw [h4]; ring
  have h1 := key N 0 (by omega)
  have h3 := hr 0 (by omega)
  have h4 : (b 0 - t ^ 2 * r 1) * u 0 = 1 := by
    rw [show (0:ℕ) + 1 = 1 from rfl] at h1
    rw [h1] at h0; linear_combination h0
  calc u 0 = (r 0 * (b 0 - t ^ 2 * r (0 + 1))) * u 0 := by rw [h3]; ring
    _ = r 0 * ((b 0 - t ^ 2 * r 1) * u 0) := by ring
    _ = r 0 := by rw [h4]; ring

theorem signs (l v : ℝ) (hl : l < 0) (hv : v ≠ 0) : 0 < -l⁻¹ ∧ -(1 / 4) * v ^ 2 * l⁻¹ ^ 2 < 0 := by
  have h1 : l⁻¹ < 0 := inv_lt_zero.mpr hl
  have h2 : 0 < v ^ 2 := by positivity
  have h3 : 0 < l⁻¹ ^ 2 := by nlinarith
  refine ⟨by linarith, ?_⟩
  have : 0 < v ^ 2 * l⁻¹ ^ 2 := mul_pos h2 h3
  nlinarith
