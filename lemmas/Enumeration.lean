/- The counting argument behind C01: starting from the smallest element of a finite set of words and moving to the
   next larger element card - 1 times visits every element exactly once, in increasing order. -/
import Mathlib.Data.Finset.Sort
import Mathlib.Data.Finset.Powerset
import Mathlib.Algebra.Order.Ring.GeomSum
import Mathlib.Combinatorics.Colex

theorem enumerates (s : Finset ℕ) (a : ℕ → ℕ)
    (h0 : a 0 ∈ s) (hm : ∀ y ∈ s, a 0 ≤ y)
    (hs : ∀ i, a i ∈ s → (∃ y ∈ s, a i < y) →
      a (i+1) ∈ s ∧ a i < a (i+1) ∧ ∀ y ∈ s, a i < y → a (i+1) ≤ y) :
    (∀ i < s.card, a i ∈ s ∧ (s.filter (· < a i)).card = i) ∧
    (∀ i, i + 1 < s.card → a i < a (i+1)) ∧
    (∀ y ∈ s, ∃ i < s.card, a i = y) := by
  have key : ∀ i < s.card, a i ∈ s ∧ (s.filter (· < a i)).card = i := by
    intro i
    induction i with
    | zero =>
      intro _
      refine ⟨h0, ?_⟩
      rw [Finset.card_eq_zero, Finset.filter_eq_empty_iff]
      intro y hy
      have := hm y hy
      omega
    | succ i ih =>
      intro hi
      obtain ⟨hmem, hc⟩ := ih (by omega)
      have hex : ∃ y ∈ s, a i < y := by
        by_contra hn
        push Not at hn
        have hsub : s ⊆ insert (a i) (s.filter (· < a i)) := by
          intro y hy
          have := hn y hy
          rcases Nat.lt_or_ge y (a i) with h | h
          · exact Finset.mem_insert_of_mem (Finset.mem_filter.mpr ⟨hy, h⟩)
          · have : y = a i := by omega
            subst this; exact Finset.mem_insert_self _ _
        have h1 := Finset.card_le_card hsub
        have h2 := Finset.card_insert_le (a i) (s.filter (· < a i))
        omega
      obtain ⟨h1, h2, h3⟩ := hs i hmem hex
      refine ⟨h1, ?_⟩
      have : s.filter (· < a (i+1)) = insert (a i) (s.filter (· < a i)) := by
        ext y
        simp only [Finset.mem_filter, Finset.mem_insert]
        constructor
        · rintro ⟨hy, hlt⟩
          rcases Nat.lt_trichotomy y (a i) with h | h | h
          · exact Or.inr ⟨hy, h⟩
          · exact Or.inl h
          · have := h3 y hy h; omega
        · rintro (h | ⟨hy, h⟩)
          · subst h; exact ⟨hmem, h2⟩
          · exact ⟨hy, by omega⟩
      rw [this, Finset.card_insert_of_notMem (by simp), hc]
  refine ⟨key, ?_, ?_⟩
  · intro i hi
    obtain ⟨hm1, hc1⟩ := key i (by omega)
    obtain ⟨hm2, hc2⟩ := key (i+1) hi
    by_contra hn
    push Not at hn
    have : s.filter (· < a (i+1)) ⊆ s.filter (· < a i) := by
      intro y hy
      simp only [Finset.mem_filter] at hy ⊢
      exact ⟨hy.1, by omega⟩
    have := Finset.card_le_card this
    omega
  · have inj : Set.InjOn a (Finset.range s.card : Set ℕ) := by
      intro i hi j hj hij
      simp only [Finset.coe_range, Set.mem_Iio] at hi hj
      have h1 := (key i hi).2
      have h2 := (key j hj).2
      rw [hij] at h1
      omega
    have himg : (Finset.range s.card).image a = s := by
      apply Finset.eq_of_subset_of_card_le
      · intro y hy
        obtain ⟨i, hi, rfl⟩ := Finset.mem_image.mp hy
        exact (key i (Finset.mem_range.mp hi)).1
      · rw [Finset.card_image_of_injOn inj, Finset.card_range]
    intro y hy
    rw [← himg] at hy
    obtain ⟨i, hi, rfl⟩ := Finset.mem_image.mp hy
    exact ⟨i, Finset.mem_range.mp hi, rfl⟩

/-- the words with p of the n low bits set number C(n,p) -/
theorem card_words (n p : ℕ) :
    (((Finset.range n).powersetCard p).image (fun t => ∑ i ∈ t, 2 ^ i)).card = n.choose p := by
  rw [Finset.card_image_of_injective _ (Finset.geomSum_injective (le_refl 2)), Finset.card_powersetCard, Finset.card_range]
