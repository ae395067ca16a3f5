import Mathlib

/-! Lemmas on integer powers used by the verifier (`vf/m1.py`, `pow_lemmas`). -/
namespace Autobound
variable {x y : ℝ} {n m : ℤ}

theorem pow_zero' : x ^ (0 : ℤ) = 1 := zpow_zero x
theorem pow_one' : x ^ (1 : ℤ) = x := zpow_one x
theorem zero_pow' (h : 1 ≤ n) : (0 : ℝ) ^ n = 0 := zero_zpow n (by omega)
theorem one_pow' : (1 : ℝ) ^ n = 1 := one_zpow n
theorem even_pow_nonneg (h : Even n) : 0 ≤ x ^ n := h.zpow_nonneg x
theorem pow_pos' (h : 0 < x) : 0 < x ^ n := zpow_pos h n
theorem pow_nonneg' (h : 0 ≤ x) : 0 ≤ x ^ n := zpow_nonneg h n
theorem odd_pow_nonpos (h : Odd n) (hn : 0 ≤ n) (hx : x ≤ 0) : x ^ n ≤ 0 := by
  lift n to ℕ using hn
  rw [zpow_natCast]
  exact Odd.pow_nonpos (by exact_mod_cast h) hx
theorem odd_pow_neg (h : Odd n) (hx : x < 0) : x ^ n < 0 := h.zpow_neg hx
theorem even_pow_pos (h : Even n) (hx : x ≠ 0) : 0 < x ^ n := h.zpow_pos hx
theorem odd_pow_mono (h : Odd n) (hn : 0 ≤ n) (hxy : x ≤ y) : x ^ n ≤ y ^ n := by
  lift n to ℕ using hn
  rw [zpow_natCast, zpow_natCast]
  exact (Odd.strictMono_pow (by exact_mod_cast h)).monotone hxy
theorem even_pow_mono (h : Even n) (hn : 0 ≤ n) (hxy : |x| ≤ |y|) : x ^ n ≤ y ^ n := by
  lift n to ℕ using hn
  rw [zpow_natCast, zpow_natCast]
  have h' : Even n := by exact_mod_cast h
  rw [← h'.pow_abs x, ← h'.pow_abs y]
  exact pow_le_pow_left₀ (abs_nonneg x) hxy n
theorem pow_succ' (hn : 0 ≤ n) : x ^ (n + 1) = x ^ n * x := by
  lift n to ℕ using hn
  exact_mod_cast pow_succ x n
end Autobound
