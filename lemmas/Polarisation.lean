import Mathlib

open Finset BigOperators

/-- ½ (Σ (a+b)² w − Σ a² w − Σ b² w) = Σ a b w -/
theorem polarisation {ι : Type*} (s : Finset ι) (a b : ι → ℝ) (w : ι → ℂ) :
    (1 / 2 : ℂ) * (∑ j ∈ s, (((a j + b j) ^ 2 : ℝ) : ℂ) * w j - ∑ j ∈ s, ((a j ^ 2 : ℝ) : ℂ) * w j
      - ∑ j ∈ s, ((b j ^ 2 : ℝ) : ℂ) * w j) = ∑ j ∈ s, ((a j * b j : ℝ) : ℂ) * w j := by
  rw [← Finset.sum_sub_distrib, ← Finset.sum_sub_distrib, Finset.mul_sum]
  refine Finset.sum_congr rfl fun j _ => ?_
  push_cast
  ring

/-- a vector of zero norm has no weight on any eigenvector -/
theorem zero_norm {ι : Type*} (s : Finset ι) (a : ι → ℝ) (w : ι → ℂ) (h : ∑ j ∈ s, a j ^ 2 = 0) :
    ∑ j ∈ s, ((a j ^ 2 : ℝ) : ℂ) * w j = 0 := by
  refine Finset.sum_eq_zero fun j hj => ?_
  have := (Finset.sum_eq_zero_iff_of_nonneg (fun i _ => sq_nonneg (a i))).1 h j hj
  simp [this]

/-- a vector g with the values val q at the places t q (t injective on Q) and zero elsewhere:
its projection on v is the sum over Q -/
theorem scattered {κ ι : Type*} [Fintype κ] [DecidableEq κ] (Q : Finset ι) (t : ι → κ) (inj : Set.InjOn t Q)
    (g v : κ → ℝ) (val : ι → ℝ) (hit : ∀ q ∈ Q, g (t q) = val q) (miss : ∀ k, (∀ q ∈ Q, t q ≠ k) → g k = 0) :
    ∑ k, v k * g k = ∑ q ∈ Q, v (t q) * val q := by
  rw [← Finset.sum_subset (Finset.subset_univ (Q.image t)) (fun k _ hk => ?_), Finset.sum_image inj]
  · exact Finset.sum_congr rfl fun q hq => by rw [hit q hq]
  · rw [miss k fun q hq h => hk (h ▸ Finset.mem_image_of_mem t hq), mul_zero]
