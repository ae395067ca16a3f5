import Mathlib

/-! Combinatorial lemmas used by the verifier (`vf/units/poly.py`, `vf/units/interval.py`). -/
open Finset
namespace Autobound

/-- `math.comb(n, k) * k! * (n-k)! = n!`. -/
theorem comb_factorial (n k : ℕ) (h : k ≤ n) : n.choose k * k.factorial * (n - k).factorial = n.factorial :=
  Nat.choose_mul_factorial_mul_factorial h

/-- Termwise order implies order of sums (bilinear maps with non-negative weights). -/
theorem sum_order {ι : Type*} (s : Finset ι) (w l h a b : ι → ℝ) (hw : ∀ i ∈ s, 0 ≤ w i)
    (hl : ∀ i ∈ s, l i ≤ a i * b i) (hh : ∀ i ∈ s, a i * b i ≤ h i) :
    ∑ i ∈ s, w i * l i ≤ ∑ i ∈ s, w i * (a i * b i) ∧ ∑ i ∈ s, w i * (a i * b i) ≤ ∑ i ∈ s, w i * h i :=
  ⟨sum_le_sum fun i hi => mul_le_mul_of_nonneg_left (hl i hi) (hw i hi),
   sum_le_sum fun i hi => mul_le_mul_of_nonneg_left (hh i hi) (hw i hi)⟩

/-- The partitions of degree `i`: exponents with sum `m` and weighted sum `i`. -/
noncomputable def parts (n m i : ℕ) : Finset (ℕ → ℕ) := (piAntidiag (range n) m).filter fun p => ∑ j ∈ range n, j * p j = i

/-- Multinomial theorem, by coefficients of the power of a polynomial. -/
theorem power_coeff {R : Type*} [CommSemiring R] (a : ℕ → R) (n m i : ℕ) :
    ((∑ j ∈ range n, Polynomial.C (a j) * Polynomial.X ^ j) ^ m).coeff i
      = ∑ p ∈ parts n m i, (Nat.multinomial (range n) p : R) * ∏ j ∈ range n, a j ^ p j := by
  rw [Finset.sum_pow_eq_sum_piAntidiag, Polynomial.finsetSum_coeff, parts, sum_filter]
  apply sum_congr rfl
  intro p _
  have e : ∏ j ∈ range n, (Polynomial.C (a j) * Polynomial.X ^ j) ^ p j
      = Polynomial.C (∏ j ∈ range n, a j ^ p j) * Polynomial.X ^ (∑ j ∈ range n, j * p j) := by
    simp_rw [mul_pow, prod_mul_distrib, ← pow_mul, prod_pow_eq_pow_sum, map_prod, map_pow]
  rw [e, ← mul_assoc, ← Polynomial.C_eq_natCast, ← Polynomial.C_mul, Polynomial.coeff_C_mul_X_pow]
  split_ifs with h1 h2 h2 <;> first | rfl | (exact absurd h1.symm h2) | (exact absurd h2.symm h1)

/-- For `i <= (n-1) m` there is a partition. -/
theorem parts_nonempty (n m i : ℕ) (hn : 1 ≤ n) (h : i ≤ (n - 1) * m) :
    ∃ p : ℕ → ℕ, ∑ j ∈ range n, p j = m ∧ ∑ j ∈ range n, j * p j = i := by
  induction m generalizing i with
  | zero => exact ⟨fun _ => 0, by simp, by simp at h; simp [h]⟩
  | succ m ih =>
    have key : ∃ d, d < n ∧ d ≤ i ∧ i - d ≤ (n - 1) * m := by
      rcases le_total i ((n - 1) * m) with q | q
      · exact ⟨0, by omega, by omega, by simpa using q⟩
      · refine ⟨i - (n - 1) * m, ?_, by omega, by omega⟩
        have : i ≤ (n - 1) * m + (n - 1) := by rw [Nat.mul_succ] at h; exact h
        omega
    obtain ⟨d, hd, hdi, hb⟩ := key
    obtain ⟨p, hp, hq⟩ := ih (i - d) hb
    refine ⟨fun j => p j + if j = d then 1 else 0, ?_, ?_⟩
    · rw [sum_add_distrib, hp]; simp [hd]
    · simp_rw [mul_add, sum_add_distrib, hq]
      simp [hd]; omega

/-- Without constant coefficient the coefficients below the exponent vanish. -/
theorem no_constant (n m i : ℕ) (hi : i < m) (p : ℕ → ℕ) (h1 : ∑ j ∈ range n, p j = m) (h2 : ∑ j ∈ range n, j * p j = i) : 0 < n → 1 ≤ p 0 := by
  intro hn
  by_contra h
  have p0 : p 0 = 0 := by omega
  have : ∑ j ∈ range n, p j ≤ ∑ j ∈ range n, j * p j := by
    apply sum_le_sum
    intro j _
    rcases Nat.eq_zero_or_pos j with hj | hj
    · subst hj; simp [p0]
    · exact Nat.le_mul_of_pos_left _ hj
  omega

/-- Tangent slopes of the absolute value increase (ratio of degree 1). -/
theorem abs_ratio_mono {x0 x y : ℝ} (hx : x ≠ x0) (hy : y ≠ x0) (h : x ≤ y) :
    (|x| - |x0|) / (x - x0) ≤ (|y| - |x0|) / (y - x0) := by
  have c : ConvexOn ℝ Set.univ (fun u : ℝ => |u|) := convexOn_norm convex_univ
  exact c.secant_mono (Set.mem_univ x0) (Set.mem_univ x) (Set.mem_univ y) hx hy h
theorem abs_ratio_bounds {x0 x : ℝ} (hx : x ≠ x0) : -1 ≤ (|x| - |x0|) / (x - x0) ∧ (|x| - |x0|) / (x - x0) ≤ 1 := by
  rw [← abs_le, abs_div, div_le_one (abs_pos.mpr (sub_ne_zero.mpr hx))]
  exact abs_abs_sub_abs_le_abs_sub x x0
end Autobound
