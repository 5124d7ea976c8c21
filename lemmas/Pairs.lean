/- C05, C06: number of configurations of p particles on n orbitals in which orbital j is full and orbital i empty,
   and of those in which a given set of orbitals is full and another one empty. -/
import Mathlib.Data.Finset.Powerset
import Mathlib.Data.Finset.Card
import Mathlib.Tactic

open Finset

/-- i empty and j full, i ≠ j: C(n-2, p-1) of the C(n, p) configurations -/
theorem pairs_count (n p : ℕ) (i j : ℕ) (hi : i < n) (hj : j < n) (hij : i ≠ j) :
    (((range n).powersetCard (p+1)).filter (fun s => i ∉ s ∧ j ∈ s)).card = (n-2).choose p := by
  have hcard : (((range n).erase i).erase j).card = n - 2 := by
    rw [card_erase_of_mem (by simp [hj, Ne.symm hij]), card_erase_of_mem (by simp [hi]), card_range]
    omega
  rw [← hcard, ← card_powersetCard]
  symm
  refine card_bij (fun s _ => insert j s) ?_ ?_ ?_
  · intro s hs
    rw [mem_powersetCard] at hs
    have hjs : j ∉ s := fun h => by simpa using hs.1 h
    have his : i ∉ s := fun h => by simpa using hs.1 h
    simp only [mem_filter, mem_powersetCard]
    refine ⟨⟨?_, ?_⟩, ?_, mem_insert_self _ _⟩
    · intro x hx
      rcases mem_insert.1 hx with h | h
      · exact h ▸ mem_range.2 hj
      · exact mem_of_mem_erase (mem_of_mem_erase (hs.1 h))
    · rw [card_insert_of_notMem hjs, hs.2]
    · intro h
      rcases mem_insert.1 h with h | h
      · exact hij h
      · exact his h
  · intro s hs t ht h
    rw [mem_powersetCard] at hs ht
    have hjs : j ∉ s := fun h => by simpa using hs.1 h
    have hjt : j ∉ t := fun h => by simpa using ht.1 h
    have := congrArg (fun u => u.erase j) h
    simpa [erase_insert hjs, erase_insert hjt] using this
  · intro t ht
    simp only [mem_filter, mem_powersetCard] at ht
    refine ⟨t.erase j, ?_, insert_erase ht.2.2⟩
    rw [mem_powersetCard]
    refine ⟨?_, ?_⟩
    · intro x hx
      have hxj := ne_of_mem_erase hx
      have hxt := mem_of_mem_erase hx
      refine mem_erase.2 ⟨hxj, mem_erase.2 ⟨?_, ht.1.1 hxt⟩⟩
      intro h
      exact ht.2.1 (h ▸ hxt)
    · rw [card_erase_of_mem ht.2.2, ht.1.2]
      rfl

/-- no particles: none -/
theorem pairs_count_zero (n : ℕ) (i j : ℕ) :
    (((range n).powersetCard 0).filter (fun s => i ∉ s ∧ j ∈ s)).card = 0 := by
  simp
