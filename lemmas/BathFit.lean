/- C15: partial derivatives of the model hybridisation and of the objective. -/
import Mathlib.Analysis.Calculus.Deriv.Add
import Mathlib.Analysis.Calculus.Deriv.Inv
import Mathlib.Analysis.Calculus.Deriv.Pow
import Mathlib.Analysis.Calculus.Deriv.Mul
import Mathlib.Analysis.Complex.RealDeriv
import Mathlib.Tactic

open Complex

/-- one level: derivative with respect to its energy -/
theorem d_energy (z : ℂ) (v : ℝ) (e : ℝ) (h : z - e ≠ 0) :
    HasDerivAt (fun t : ℝ => ((v:ℂ)^2 / (z - (t:ℂ)))) ((v:ℂ)^2 / (z - e)^2) e := by
  have h1 : HasDerivAt (fun t : ℝ => z - (t:ℂ)) (-1) e := by
    have h0 : HasDerivAt (fun t : ℝ => (t:ℂ)) ((1:ℝ):ℂ) e := HasDerivAt.ofReal_comp (hasDerivAt_id e)
    have := HasDerivAt.const_sub z h0
    simpa only [ofReal_one] using this
  have h2 := HasDerivAt.const_mul ((v:ℂ)^2) (HasDerivAt.inv h1 h)
  have e2 : (v:ℂ)^2 / (z - e)^2 = (v:ℂ)^2 * (-(-1) / (z - (e:ℂ))^2) := by ring
  rw [e2]
  exact h2

/-- one level: derivative with respect to its hopping -/
theorem d_hopping (z : ℂ) (v : ℝ) (e : ℝ) :
    HasDerivAt (fun t : ℝ => ((t:ℂ)^2 / (z - (e:ℂ)))) (2 * (v:ℂ) / (z - e)) v := by
  have h1 : HasDerivAt (fun t : ℝ => (t:ℂ)) 1 v := by
    exact ofReal_one ▸ (HasDerivAt.ofReal_comp (hasDerivAt_id v))
  have h2 := HasDerivAt.div_const (HasDerivAt.mul h1 h1) (z - (e:ℂ))
  have e2 : 2 * (v:ℂ) / (z - e) = (1 * (v:ℂ) + (v:ℂ) * 1) / (z - (e:ℂ)) := by ring
  rw [e2]
  have e3 : (fun t : ℝ => ((t:ℂ)^2 / (z - (e:ℂ)))) = fun t : ℝ => ((t:ℂ) * (t:ℂ) / (z - (e:ℂ))) := by
    funext t; ring
  rw [e3]
  exact h2

/-- squared distance to the target along one parameter -/
theorem d_dist (t : ℂ) (D : ℝ → ℂ) (D' : ℂ) (p : ℝ) (h : HasDerivAt D D' p) :
    HasDerivAt (fun s => (t.re - (D s).re)^2 + (t.im - (D s).im)^2)
      (-2 * ((t - D p).re * D'.re + (t - D p).im * D'.im)) p := by
  have hre : HasDerivAt (fun s => (D s).re) D'.re p := by
    exact HasFDerivAt.comp_hasDerivAt p (Complex.reCLM.hasFDerivAt (x := D p)) h
  have him : HasDerivAt (fun s => (D s).im) D'.im p := by
    exact HasFDerivAt.comp_hasDerivAt p (Complex.imCLM.hasFDerivAt (x := D p)) h
  have a := HasDerivAt.const_sub t.re hre
  have b := HasDerivAt.const_sub t.im him
  have h1 := HasDerivAt.add (HasDerivAt.mul a a) (HasDerivAt.mul b b)
  have e1 : (fun s => (t.re - (D s).re)^2 + (t.im - (D s).im)^2) =
      fun s => (t.re - (D s).re) * (t.re - (D s).re) + (t.im - (D s).im) * (t.im - (D s).im) := by
    funext s; ring
  rw [e1]
  refine HasDerivAt.congr_deriv h1 ?_
  simp only [Complex.sub_re, Complex.sub_im]
  ring

/-- the objective: mean over the frequencies -/
theorem d_chi2 (M : ℕ) (t : ℕ → ℂ) (D : ℕ → ℝ → ℂ) (D' : ℕ → ℂ) (p : ℝ)
    (h : ∀ i < M, HasDerivAt (D i) (D' i) p) :
    HasDerivAt (fun s => (∑ i ∈ Finset.range M, (((t i).re - (D i s).re)^2 + ((t i).im - (D i s).im)^2)) / M)
      (-2 / M * ∑ i ∈ Finset.range M, ((t i - D i p).re * (D' i).re + (t i - D i p).im * (D' i).im)) p := by
  have h1 : ∀ K ≤ M, HasDerivAt (fun s => ∑ i ∈ Finset.range K, (((t i).re - (D i s).re)^2 + ((t i).im - (D i s).im)^2))
      (∑ i ∈ Finset.range K, (-2 * ((t i - D i p).re * (D' i).re + (t i - D i p).im * (D' i).im))) p := by
    intro K
    induction K with
    | zero => intro _; simpa using hasDerivAt_const p (0:ℝ)
    | succ K ih =>
      intro hK
      simp only [Finset.sum_range_succ]
      exact HasDerivAt.add (ih (by omega)) (d_dist (t K) (D K) (D' K) p (h K (by omega)))
  refine HasDerivAt.congr_deriv (HasDerivAt.div_const (h1 M le_rfl) (M:ℝ)) ?_
  rw [← Finset.mul_sum]
  ring
