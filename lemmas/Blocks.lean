/- C09: the rows of a distributed array, rank by rank, are all the rows, each once. -/
import Mathlib.Algebra.BigOperators.Intervals
import Mathlib.Tactic

open Finset

/-- the sum over the ranks of the sums over their rows is the sum over all rows -/
theorem blocks_sum {M : Type*} [AddCommMonoid M] (m size : ℕ) (f : ℕ → M) :
    ∑ p ∈ range size, ∑ i ∈ range m, f (p * m + i) = ∑ d ∈ range (m * size), f d := by
  induction size with
  | zero => simp
  | succ s ih =>
    rw [sum_range_succ, ih, Nat.mul_succ, sum_range_add]
    congr 1
    apply sum_congr rfl
    intro i _
    rw [Nat.mul_comm]

/-- each row of m * size rows is row i < m of exactly one rank p < size -/
theorem blocks_unique (m size d : ℕ) (hd : d < m * size) :
    ∃! q : ℕ × ℕ, q.1 < size ∧ q.2 < m ∧ q.1 * m + q.2 = d := by
  have hm : 0 < m := by
    rcases Nat.eq_zero_or_pos m with h | h
    · simp [h] at hd
    · exact h
  refine ⟨(d / m, d % m), ⟨Nat.div_lt_of_lt_mul hd, Nat.mod_lt _ hm, by rw [Nat.mul_comm]; exact Nat.div_add_mod d m⟩, ?_⟩
  rintro ⟨p, i⟩ ⟨_, hi, rfl⟩
  simp only at hi ⊢
  ext
  · show p = (p * m + i) / m
    rw [Nat.mul_comm, Nat.mul_add_div hm, Nat.div_eq_of_lt hi, Nat.add_zero]
  · show i = (p * m + i) % m
    rw [Nat.mul_comm, Nat.mul_add_mod, Nat.mod_eq_of_lt hi]
