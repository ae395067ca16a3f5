import Mathlib

/-! Lemmas on Taylor remainders used by the verifier (`vf/units/primitive.py`). -/
open intervalIntegral Set MeasureTheory
namespace Autobound

/-- `g 0, g 1, ..., g k` are a function and its derivatives on the interval `I`. -/
structure Tower (I : Set ℝ) (g : ℕ → ℝ → ℝ) (k : ℕ) : Prop where
  conv : Convex ℝ I
  deriv : ∀ i < k, ∀ x ∈ I, HasDerivAt (g i) (g (i + 1) x) x
  cont : ContinuousOn (g k) I

/-- Taylor polynomial of degree `< k` of `g 0` at `x0`. -/
noncomputable def taylor (g : ℕ → ℝ → ℝ) (k : ℕ) (x0 x : ℝ) : ℝ :=
  ∑ i ∈ Finset.range k, g i x0 / (i.factorial : ℝ) * (x - x0) ^ i

/-- The remainder ratio of degree `k`. -/
noncomputable def ratio (g : ℕ → ℝ → ℝ) (k : ℕ) (x0 x : ℝ) : ℝ :=
  if x = x0 then g k x0 / (k.factorial : ℝ) else (g 0 x - taylor g k x0 x) / (x - x0) ^ k

variable {I : Set ℝ} {g : ℕ → ℝ → ℝ} {k : ℕ} {x0 x y t : ℝ}

theorem Tower.mem (T : Tower I g k) (h0 : x0 ∈ I) (hx : x ∈ I) (ht : t ∈ Icc (0:ℝ) 1) :
    x0 + t * (x - x0) ∈ I := by
  have := T.conv h0 hx (a := 1 - t) (b := t) (by linarith [ht.2]) ht.1 (by ring)
  simpa [smul_eq_mul, show (1 - t) * x0 + t * x = x0 + t * (x - x0) by ring] using this

theorem telescoping (z c : ℝ) (k : ℕ) (hd : ∀ i ≤ k, HasDerivAt (g i) (g (i + 1) (c + t * z)) (c + t * z)) :
    HasDerivAt (fun s => ∑ i ∈ Finset.range (k + 1), g i (c + s * z) / (i.factorial : ℝ) * ((1 - s) * z) ^ i)
      (g (k + 1) (c + t * z) * z ^ (k + 1) * (1 - t) ^ k / (k.factorial : ℝ)) t := by
  have lin : HasDerivAt (fun s : ℝ => c + s * z) z t := by
    simpa using ((hasDerivAt_id t).mul_const z).const_add c
  have lin2 : HasDerivAt (fun s : ℝ => (1 - s) * z) (-z) t := by
    simpa using ((hasDerivAt_id t).const_sub 1).mul_const z
  induction k with
  | zero =>
    have h := (hd 0 le_rfl).comp t lin
    simp only [Function.comp_def] at h
    simpa using h
  | succ k ih =>
    have h1 := ih (fun i hi => hd i (by omega))
    have h2 : HasDerivAt (fun s => g (k + 1) (c + s * z) / ((k + 1).factorial : ℝ) * ((1 - s) * z) ^ (k + 1))
        (g (k + 1 + 1) (c + t * z) * z / ((k + 1).factorial : ℝ) * ((1 - t) * z) ^ (k + 1)
          + g (k + 1) (c + t * z) / ((k + 1).factorial : ℝ) * (((k + 1 : ℕ) : ℝ) * ((1 - t) * z) ^ k * (-z))) t := by
      have a := ((hd (k + 1) le_rfl).comp t lin)
      simp only [Function.comp_def] at a
      have b := lin2.pow (k + 1)
      have := (a.div_const ((k + 1).factorial : ℝ)).mul b
      exact this
    have h3 := h1.add h2
    have e : (fun s => ∑ i ∈ Finset.range (k + 1 + 1), g i (c + s * z) / (i.factorial : ℝ) * ((1 - s) * z) ^ i)
        = (fun s => ∑ i ∈ Finset.range (k + 1), g i (c + s * z) / (i.factorial : ℝ) * ((1 - s) * z) ^ i)
          + fun s => g (k + 1) (c + s * z) / ((k + 1).factorial : ℝ) * ((1 - s) * z) ^ (k + 1) := by
      funext s
      rw [Finset.sum_range_succ]; rfl
    rw [e]
    refine h3.congr_deriv ?_
    · have f : ((k + 1).factorial : ℝ) = ((k : ℝ) + 1) * (k.factorial : ℝ) := by
        rw [Nat.factorial_succ]; push_cast; ring
      have hk : ((k : ℝ) + 1) ≠ 0 := by positivity
      have hf : (k.factorial : ℝ) ≠ 0 := by positivity
      rw [f, mul_pow, mul_pow]; push_cast; field_simp; ring

/-- Taylor's theorem with the remainder in integral form. -/
theorem ratio_eq (T : Tower I g (k + 1)) (h0 : x0 ∈ I) (hx : x ∈ I) :
    ratio g (k + 1) x0 x = ∫ t in (0:ℝ)..1, (1 - t) ^ k / (k.factorial : ℝ) * g (k + 1) (x0 + t * (x - x0)) := by
  have mem : ∀ t ∈ Icc (0:ℝ) 1, x0 + t * (x - x0) ∈ I := fun t ht => T.mem h0 hx ht
  have gc : ContinuousOn (fun t : ℝ => g (k + 1) (x0 + t * (x - x0))) (Icc 0 1) :=
    T.cont.comp (by fun_prop) mem
  unfold ratio
  split_ifs with h
  · subst h
    simp only [sub_self, mul_zero, add_zero]
    rw [intervalIntegral.integral_mul_const]
    have : ∫ t in (0:ℝ)..1, (1 - t) ^ k / (k.factorial : ℝ) = 1 / ((k + 1).factorial : ℝ) := by
      rw [intervalIntegral.integral_div]
      have : ∫ t in (0:ℝ)..1, (1 - t) ^ k = 1 / ((k : ℝ) + 1) := by
        have := intervalIntegral.integral_comp_sub_left (fun u : ℝ => u ^ k) (a := 0) (b := 1) 1
        rw [this]; simp
      rw [this, Nat.factorial_succ]; push_cast; field_simp
    rw [this]; ring
  · have z : x - x0 ≠ 0 := sub_ne_zero.mpr h
    rw [div_eq_iff (pow_ne_zero _ z)]
    have key := intervalIntegral.integral_eq_sub_of_hasDerivAt (a := 0) (b := 1)
      (f := fun s => ∑ i ∈ Finset.range (k + 1), g i (x0 + s * (x - x0)) / (i.factorial : ℝ) * ((1 - s) * (x - x0)) ^ i)
      (f' := fun t => g (k + 1) (x0 + t * (x - x0)) * (x - x0) ^ (k + 1) * (1 - t) ^ k / (k.factorial : ℝ))
      (fun t ht => telescoping (x - x0) x0 k (fun i hi => T.deriv i (by omega) _ (mem t (by simpa [uIcc_of_le] using ht))))
      (ContinuousOn.intervalIntegrable (by
        rw [uIcc_of_le zero_le_one]
        exact ((gc.mul continuousOn_const).mul (by fun_prop)).div_const _))
    have e1 : (∑ i ∈ Finset.range (k + 1), g i (x0 + 1 * (x - x0)) / (i.factorial : ℝ) * ((1 - 1) * (x - x0)) ^ i) = g 0 x := by
      rw [Finset.sum_range_succ']; simp
    have e0 : (∑ i ∈ Finset.range (k + 1), g i (x0 + 0 * (x - x0)) / (i.factorial : ℝ) * ((1 - 0) * (x - x0)) ^ i) = taylor g (k + 1) x0 x := by
      simp [taylor]
    simp only [e1, e0] at key
    rw [← key, mul_comm, ← intervalIntegral.integral_const_mul]
    congr 1; funext t; ring

theorem weight_nonneg (ht : t ∈ Icc (0:ℝ) 1) : 0 ≤ (1 - t) ^ k / (k.factorial : ℝ) := by
  have : 0 ≤ 1 - t := by linarith [ht.2]
  positivity

theorem integrand_int (T : Tower I g (k + 1)) (h0 : x0 ∈ I) (hx : x ∈ I) :
    IntervalIntegrable (fun t => (1 - t) ^ k / (k.factorial : ℝ) * g (k + 1) (x0 + t * (x - x0))) volume 0 1 := by
  apply ContinuousOn.intervalIntegrable
  rw [uIcc_of_le zero_le_one]
  exact ContinuousOn.mul (by fun_prop) (T.cont.comp (by fun_prop) (fun t ht => T.mem h0 hx ht))

/-- If the derivative of order `k` is increasing, so is the remainder ratio. -/
theorem ratio_mono (T : Tower I g k) (h0 : x0 ∈ I) (m : MonotoneOn (g k) I) : MonotoneOn (ratio g k x0) I := by
  cases k with
  | zero =>
    have e : ratio g 0 x0 = g 0 := by funext u; unfold ratio; split_ifs with h <;> simp [taylor, h]
    rwa [e]
  | succ k =>
    intro x hx y hy h
    rw [ratio_eq T h0 hx, ratio_eq T h0 hy]
    apply intervalIntegral.integral_mono_on zero_le_one (integrand_int T h0 hx) (integrand_int T h0 hy)
    intro t ht
    exact mul_le_mul_of_nonneg_left (m (T.mem h0 hx ht) (T.mem h0 hy ht) (by nlinarith [ht.1])) (weight_nonneg ht)

/-- If the derivative of order `k` is decreasing, so is the remainder ratio. -/
theorem ratio_anti (T : Tower I g k) (h0 : x0 ∈ I) (m : AntitoneOn (g k) I) : AntitoneOn (ratio g k x0) I := by
  cases k with
  | zero =>
    have e : ratio g 0 x0 = g 0 := by funext u; unfold ratio; split_ifs with h <;> simp [taylor, h]
    rwa [e]
  | succ k =>
    intro x hx y hy h
    rw [ratio_eq T h0 hx, ratio_eq T h0 hy]
    apply intervalIntegral.integral_mono_on zero_le_one (integrand_int T h0 hy) (integrand_int T h0 hx)
    intro t ht
    exact mul_le_mul_of_nonneg_left (m (T.mem h0 hx ht) (T.mem h0 hy ht) (by nlinarith [ht.1])) (weight_nonneg ht)

theorem weight_integral (k : ℕ) : ∫ t in (0:ℝ)..1, (1 - t) ^ k / (k.factorial : ℝ) = 1 / ((k + 1).factorial : ℝ) := by
  rw [intervalIntegral.integral_div]
  have : ∫ t in (0:ℝ)..1, (1 - t) ^ k = 1 / ((k : ℝ) + 1) := by
    have := intervalIntegral.integral_comp_sub_left (fun u : ℝ => u ^ k) (a := 0) (b := 1) 1
    rw [this]; simp
  rw [this, Nat.factorial_succ]; push_cast; field_simp

/-- The remainder ratio times `k!` lies between the bounds of the derivative of order `k`. -/
theorem ratio_bounds (T : Tower I g k) (h0 : x0 ∈ I) (hx : x ∈ I) {lo hi : ℝ}
    (hl : ∀ u ∈ I, lo ≤ g k u) (hh : ∀ u ∈ I, g k u ≤ hi) :
    lo ≤ ratio g k x0 x * (k.factorial : ℝ) ∧ ratio g k x0 x * (k.factorial : ℝ) ≤ hi := by
  cases k with
  | zero =>
    have e : ratio g 0 x0 = g 0 := by funext u; unfold ratio; split_ifs with h <;> simp [taylor, h]
    rw [e]; simpa using ⟨hl x hx, hh x hx⟩
  | succ k =>
    have f : (0:ℝ) < ((k + 1).factorial : ℝ) := by positivity
    have w : ∀ c : ℝ, IntervalIntegrable (fun t : ℝ => (1 - t) ^ k / (k.factorial : ℝ) * c) volume 0 1 :=
      fun c => Continuous.intervalIntegrable (by fun_prop) _ _
    have a : ∀ c : ℝ, ∫ t in (0:ℝ)..1, (1 - t) ^ k / (k.factorial : ℝ) * c = 1 / ((k + 1).factorial : ℝ) * c := by
      intro c; rw [intervalIntegral.integral_mul_const, weight_integral]
    rw [ratio_eq T h0 hx]
    constructor
    · have := intervalIntegral.integral_mono_on zero_le_one (w lo) (integrand_int T h0 hx)
        (fun t ht => mul_le_mul_of_nonneg_left (hl _ (T.mem h0 hx ht)) (weight_nonneg (k := k) ht))
      rw [a, div_mul_eq_mul_div, one_mul, div_le_iff₀ f] at this
      exact this
    · have := intervalIntegral.integral_mono_on zero_le_one (integrand_int T h0 hx) (w hi)
        (fun t ht => mul_le_mul_of_nonneg_left (hh _ (T.mem h0 hx ht)) (weight_nonneg (k := k) ht))
      rw [a, div_mul_eq_mul_div, one_mul, le_div_iff₀ f] at this
      exact this

/-- If the derivative of order `k` is convex and not negative, so is the remainder ratio. -/
theorem ratio_nonneg (T : Tower I g k) (h0 : x0 ∈ I) (hx : x ∈ I) (h : ∀ u ∈ I, 0 ≤ g k u) : 0 ≤ ratio g k x0 x := by
  cases k with
  | zero =>
    have e : ratio g 0 x0 = g 0 := by funext u; unfold ratio; split_ifs with h <;> simp [taylor, h]
    rw [e]; exact h x hx
  | succ k =>
    rw [ratio_eq T h0 hx]
    exact intervalIntegral.integral_nonneg zero_le_one (fun t ht => mul_nonneg (weight_nonneg ht) (h _ (T.mem h0 hx ht)))

theorem ratio_convex (T : Tower I g k) (h0 : x0 ∈ I) (c : ConvexOn ℝ I (g k)) : ConvexOn ℝ I (ratio g k x0) := by
  cases k with
  | zero =>
    have e : ratio g 0 x0 = g 0 := by funext u; unfold ratio; split_ifs with h <;> simp [taylor, h]
    rwa [e]
  | succ k =>
    refine ⟨T.conv, ?_⟩
    intro x hx y hy a b ha hb hab
    have hz : a • x + b • y ∈ I := T.conv hx hy ha hb hab
    rw [ratio_eq T h0 hx, ratio_eq T h0 hy, ratio_eq T h0 hz]
    simp only [smul_eq_mul]
    rw [← intervalIntegral.integral_const_mul, ← intervalIntegral.integral_const_mul,
      ← intervalIntegral.integral_add ((integrand_int T h0 hx).const_mul a) ((integrand_int T h0 hy).const_mul b)]
    apply intervalIntegral.integral_mono_on zero_le_one (integrand_int T h0 hz)
      (((integrand_int T h0 hx).const_mul a).add ((integrand_int T h0 hy).const_mul b))
    intro t ht
    have := c.2 (T.mem h0 hx ht) (T.mem h0 hy ht) ha hb hab
    simp only [smul_eq_mul] at this ⊢
    have e : x0 + t * (a * x + b * y - x0) = a * (x0 + t * (x - x0)) + b * (x0 + t * (y - x0)) := by
      have : b = 1 - a := by linarith
      subst this; ring
    rw [e]
    have w := weight_nonneg (k := k) ht
    nlinarith [mul_le_mul_of_nonneg_left this w]

/-- A convex remainder ratio is bounded by the larger of its values at the ends of the region. -/
theorem ratio_le_ends {a b : ℝ} (T : Tower (Icc a b) g k) (h0 : x0 ∈ Icc a b) (hx : x ∈ Icc a b) (c : ConvexOn ℝ (Icc a b) (g k)) :
    ratio g k x0 x ≤ ratio g k x0 a ∨ ratio g k x0 x ≤ ratio g k x0 b := by
  have hab : a ≤ b := hx.1.trans hx.2
  have := (ratio_convex T h0 c).le_max_of_mem_Icc (left_mem_Icc.mpr hab) (right_mem_Icc.mpr hab) hx
  exact le_max_iff.mp this

/-! ### Even second derivative -/
theorem ratio_two (hx : x ≠ x0) : ratio g 2 x0 x = (g 0 x - g 0 x0 - g 1 x0 * (x - x0)) / (x - x0) ^ 2 := by
  unfold ratio
  rw [if_neg hx]
  simp [taylor, Finset.sum_range_succ]
  ring

theorem ratio_cont (T : Tower univ g (k + 1)) : Continuous (ratio g (k + 1) x0) := by
  have e : ratio g (k + 1) x0 = fun x => ∫ t in (0:ℝ)..1, (1 - t) ^ k / (k.factorial : ℝ) * g (k + 1) (x0 + t * (x - x0)) := by
    funext x; exact ratio_eq T (mem_univ _) (mem_univ _)
  rw [e]
  have c : Continuous (g (k + 1)) := continuousOn_univ.mp T.cont
  apply intervalIntegral.continuous_parametric_intervalIntegral_of_continuous'
  simp only [Function.uncurry_def]
  exact (by fun_prop : Continuous fun p : ℝ × ℝ => (1 - p.2) ^ k / (k.factorial : ℝ)).mul (c.comp (by fun_prop))

/-- Numerator of the derivative of the ratio of degree 2. -/
noncomputable def numer (g : ℕ → ℝ → ℝ) (x0 x : ℝ) : ℝ := (g 1 x + g 1 x0) * (x - x0) - 2 * (g 0 x - g 0 x0)

theorem ratio_two_deriv (T : Tower univ g 2) (hx : x ≠ x0) :
    HasDerivAt (ratio g 2 x0) (numer g x0 x / (x - x0) ^ 3) x := by
  have z : x - x0 ≠ 0 := sub_ne_zero.mpr hx
  have d0 : HasDerivAt (fun u => g 0 u - g 0 x0 - g 1 x0 * (u - x0)) (g 1 x - g 1 x0) x := by
    have := ((T.deriv 0 (by norm_num) x (mem_univ _)).sub_const (g 0 x0)).sub (((hasDerivAt_id x).sub_const x0).const_mul (g 1 x0))
    exact this.congr_deriv (by simp)
  have d1 : HasDerivAt (fun u : ℝ => (u - x0) ^ 2) (2 * (x - x0)) x := by
    have := ((hasDerivAt_id x).sub_const x0).pow 2
    exact this.congr_deriv (by simp)
  have d := d0.div d1 (pow_ne_zero 2 z)
  have ev : ratio g 2 x0 =ᶠ[nhds x] fun u => (g 0 u - g 0 x0 - g 1 x0 * (u - x0)) / (u - x0) ^ 2 := by
    filter_upwards [isOpen_ne.mem_nhds hx] with u hu
    exact ratio_two hu
  refine (d.congr_of_eventuallyEq ev).congr_deriv ?_
  unfold numer
  field_simp
  ring

section even
variable (T : Tower univ g 2) (ev : ∀ u, g 2 (-u) = g 2 u) (dec : AntitoneOn (g 2) (Ici 0)) (h0 : 0 ≤ x0)
include T ev dec h0

omit ev in
theorem numer_anti : AntitoneOn (numer g x0) (Ici 0) := by
  have d : ∀ x, HasDerivAt (numer g x0) (g 2 x * (x - x0) - (g 1 x - g 1 x0)) x := by
    intro x
    have a := ((T.deriv 1 (by norm_num) x (mem_univ _)).add_const (g 1 x0)).mul ((hasDerivAt_id x).sub_const x0)
    have b := ((T.deriv 0 (by norm_num) x (mem_univ _)).sub_const (g 0 x0)).const_mul 2
    refine (a.sub b).congr_deriv ?_
    simp; ring
  apply antitoneOn_of_deriv_nonpos (convex_Ici 0) (fun x _ => (d x).continuousAt.continuousWithinAt)
    (fun x _ => (d x).differentiableAt.differentiableWithinAt)
  intro x hx
  rw [interior_Ici] at hx
  have hx : 0 < x := hx
  rw [(d x).deriv]
  rcases lt_trichotomy x x0 with h | h | h
  · obtain ⟨c, hc, e⟩ := exists_hasDerivAt_eq_slope (g 1) (g 2) h
      (fun u _ => (T.deriv 1 (by norm_num) u (mem_univ _)).continuousAt.continuousWithinAt) (fun u _ => T.deriv 1 (by norm_num) u (mem_univ _))
    have m := dec (show x ∈ Ici 0 from hx.le) (show c ∈ Ici 0 from (hx.trans hc.1).le) hc.1.le
    rw [eq_div_iff (by linarith)] at e
    nlinarith
  · subst h; simp
  · obtain ⟨c, hc, e⟩ := exists_hasDerivAt_eq_slope (g 1) (g 2) h
      (fun u _ => (T.deriv 1 (by norm_num) u (mem_univ _)).continuousAt.continuousWithinAt) (fun u _ => T.deriv 1 (by norm_num) u (mem_univ _))
    have m := dec (show c ∈ Ici 0 from (h0.trans hc.1.le)) (show x ∈ Ici 0 from hx.le) hc.2.le
    rw [eq_div_iff (by linarith)] at e
    nlinarith

omit dec h0 in
theorem odd_part (u : ℝ) : g 1 (-u) - g 1 0 = -(g 1 u - g 1 0) := by
  have d : ∀ u, HasDerivAt (fun v => g 1 v + g 1 (-v)) 0 u := by
    intro u
    have a := T.deriv 1 (by norm_num) u (mem_univ _)
    have b := (T.deriv 1 (by norm_num) (-u) (mem_univ _)).comp u (hasDerivAt_neg u)
    refine (a.add b).congr_deriv ?_
    rw [ev]; ring
  have c := is_const_of_deriv_eq_zero (fun u => (d u).differentiableAt) (fun u => (d u).deriv) u 0
  simp at c
  linarith

omit dec h0 in
theorem even_part (u : ℝ) : g 0 (-u) + g 1 0 * u = g 0 u - g 1 0 * u := by
  have d : ∀ u, HasDerivAt (fun v => g 0 (-v) + g 1 0 * v - (g 0 v - g 1 0 * v)) 0 u := by
    intro u
    have a := T.deriv 0 (by norm_num) u (mem_univ _)
    have b := (T.deriv 0 (by norm_num) (-u) (mem_univ _)).comp u (hasDerivAt_neg u)
    have l := (hasDerivAt_id u).const_mul (g 1 0)
    refine ((b.add l).sub (a.sub l)).congr_deriv ?_
    have := odd_part T ev u
    simp at this ⊢
    linarith
  have c := is_const_of_deriv_eq_zero (fun u => (d u).differentiableAt) (fun u => (d u).deriv) u 0
  simp at c
  linarith

omit ev h0 in
theorem concave_part {y z : ℝ} (hy : 0 ≤ y) (hz : y ≤ z) : y * (g 1 z - g 1 0) ≤ z * (g 1 y - g 1 0) := by
  have d := fun u => T.deriv 1 (by norm_num) u (mem_univ _)
  have conc : ConcaveOn ℝ (Ici 0) (g 1) := by
    apply AntitoneOn.concaveOn_of_deriv (convex_Ici 0) (fun u _ => (d u).continuousAt.continuousWithinAt)
      (fun u _ => (d u).differentiableAt.differentiableWithinAt)
    rw [interior_Ici]
    intro a ha b hb hab
    rw [(d a).deriv, (d b).deriv]
    exact dec (mem_Ici.mpr (le_of_lt ha)) (mem_Ici.mpr (le_of_lt hb)) hab
  rcases hy.eq_or_lt with h | h
  · subst h; simp
  have zp : 0 < z := lt_of_lt_of_le h hz
  have := conc.2 (show z ∈ Ici 0 from zp.le) (show (0:ℝ) ∈ Ici 0 from mem_Ici.mpr le_rfl)
    (show 0 ≤ y / z by positivity) (show 0 ≤ 1 - y / z by rw [sub_nonneg, div_le_one zp]; exact hz) (by ring)
  simp only [smul_eq_mul, mul_zero, add_zero] at this
  rw [div_mul_cancel₀ _ zp.ne'] at this
  have e : z * (y / z * g 1 z + (1 - y / z) * g 1 0) = y * g 1 z + (z - y) * g 1 0 := by field_simp
  have := mul_le_mul_of_nonneg_left this zp.le
  rw [e] at this
  linarith

theorem numer_neg (y : ℝ) (hy : 0 ≤ y) :
    (y ≤ x0 → 0 ≤ numer g x0 (-y)) ∧ (x0 ≤ y → numer g x0 (-y) ≤ 0) := by
  have e : numer g x0 (-y) = numer g x0 y + 2 * (x0 * (g 1 y - g 1 0) - y * (g 1 x0 - g 1 0)) := by
    have a := odd_part T ev y
    have b := even_part T ev y
    unfold numer
    have a' : g 1 (-y) = 2 * g 1 0 - g 1 y := by linarith
    have b' : g 0 (-y) = g 0 y - 2 * (g 1 0 * y) := by linarith
    rw [a', b']; ring
  have m := numer_anti T dec h0
  have z : numer g x0 x0 = 0 := by simp [numer]
  constructor
  · intro h
    have := m (show y ∈ Ici 0 from hy) (show x0 ∈ Ici 0 from h0) h
    have := concave_part T dec hy h
    linarith
  · intro h
    have := m (show x0 ∈ Ici 0 from h0) (show y ∈ Ici 0 from hy) h
    have := concave_part T dec h0 h
    linarith

theorem even_inc_aux : MonotoneOn (ratio g 2 x0) (Iic (-x0)) := by
  apply monotoneOn_of_deriv_nonneg (convex_Iic _) (ratio_cont T).continuousOn
  · intro x hx
    rw [interior_Iic] at hx
    have : x < -x0 := hx
    exact (ratio_two_deriv T (by linarith)).differentiableAt.differentiableWithinAt
  · intro x hx
    rw [interior_Iic] at hx
    have hx : x < -x0 := hx
    rw [(ratio_two_deriv T (by linarith)).deriv]
    have n := (numer_neg T ev dec h0 (-x) (by linarith)).2 (by linarith)
    rw [neg_neg] at n
    exact div_nonneg_of_nonpos n (Odd.pow_nonpos (by decide) (by linarith))

theorem even_dec_aux : AntitoneOn (ratio g 2 x0) (Ici (-x0)) := by
  have right : AntitoneOn (ratio g 2 x0) (Ici x0) := by
    apply antitoneOn_of_deriv_nonpos (convex_Ici _) (ratio_cont T).continuousOn
    · intro x hx
      rw [interior_Ici] at hx
      exact (ratio_two_deriv T (ne_of_gt hx)).differentiableAt.differentiableWithinAt
    · intro x hx
      rw [interior_Ici] at hx
      have hx : x0 < x := hx
      rw [(ratio_two_deriv T hx.ne').deriv]
      have := numer_anti T dec h0 (show x0 ∈ Ici 0 from h0) (show x ∈ Ici 0 from h0.trans hx.le) hx.le
      have z : numer g x0 x0 = 0 := by simp [numer]
      exact div_nonpos_of_nonpos_of_nonneg (by linarith) (pow_nonneg (by linarith) 3)
  have left : AntitoneOn (ratio g 2 x0) (Icc (-x0) x0) := by
    apply antitoneOn_of_deriv_nonpos (convex_Icc _ _) (ratio_cont T).continuousOn
    · intro x hx
      rw [interior_Icc] at hx
      exact (ratio_two_deriv T (ne_of_lt hx.2)).differentiableAt.differentiableWithinAt
    · intro x hx
      rw [interior_Icc] at hx
      rw [(ratio_two_deriv T (ne_of_lt hx.2)).deriv]
      have n : 0 ≤ numer g x0 x := by
        rcases le_total 0 x with h | h
        · have := numer_anti T dec h0 (show x ∈ Ici 0 from h) (show x0 ∈ Ici 0 from h0) hx.2.le
          have z : numer g x0 x0 = 0 := by simp [numer]
          linarith
        · have := (numer_neg T ev dec h0 (-x) (by linarith)).1 (by linarith [hx.1])
          rwa [neg_neg] at this
      exact div_nonpos_of_nonneg_of_nonpos n (Odd.pow_nonpos (by decide) (by linarith [hx.2]))
  have := left.union_right right (isGreatest_Icc (by linarith)) isLeast_Ici
  rwa [Icc_union_Ici_eq_Ici (by linarith)] at this
end even

/-- Reflection. -/
def mirror (g : ℕ → ℝ → ℝ) : ℕ → ℝ → ℝ := fun i u => (-1) ^ i * g i (-u)

theorem mirror_tower (T : Tower univ g k) : Tower univ (mirror g) k where
  conv := convex_univ
  deriv := by
    intro i hi x _
    have b := ((T.deriv i hi (-x) (mem_univ _)).comp x (hasDerivAt_neg x)).const_mul ((-1 : ℝ) ^ i)
    refine b.congr_deriv ?_
    simp [mirror, pow_succ]
  cont := by
    have c : Continuous (g k) := continuousOn_univ.mp T.cont
    exact (continuous_const.mul (c.comp continuous_neg)).continuousOn

theorem mirror_ratio : ratio (mirror g) 2 (-x0) (-x) = ratio g 2 x0 x := by
  unfold ratio
  by_cases h : x = x0
  · simp [h, mirror]
  · rw [if_neg h, if_neg (by simpa using h)]
    simp [taylor, Finset.sum_range_succ, mirror]
    congr 1
    · ring
    · ring

/-- `f''` even and decreasing on `z >= 0`: the ratio of degree 2 increases up to `-x0` and decreases after it. -/
theorem even_ratio (T : Tower univ g 2) (ev : ∀ u, g 2 (-u) = g 2 u) (dec : AntitoneOn (g 2) (Ici 0)) (x0 : ℝ) :
    MonotoneOn (ratio g 2 x0) (Iic (-x0)) ∧ AntitoneOn (ratio g 2 x0) (Ici (-x0)) := by
  rcases le_total 0 x0 with h | h
  · exact ⟨even_inc_aux T ev dec h, even_dec_aux T ev dec h⟩
  · have ev' : ∀ u, mirror g 2 (-u) = mirror g 2 u := by intro u; simp [mirror, ev]
    have dec' : AntitoneOn (mirror g 2) (Ici 0) := by
      intro a ha b hb hab
      simpa [mirror, ev] using dec ha hb hab
    have T' := mirror_tower T
    have i := even_inc_aux T' ev' dec' (show 0 ≤ -x0 by linarith)
    have d := even_dec_aux T' ev' dec' (show 0 ≤ -x0 by linarith)
    rw [neg_neg] at i d
    constructor
    · intro a ha b hb hab
      have ha : a ≤ -x0 := ha
      have hb : b ≤ -x0 := hb
      have := d (show -b ∈ Ici x0 by simp; linarith) (show -a ∈ Ici x0 by simp; linarith) (by linarith)
      rwa [mirror_ratio, mirror_ratio] at this
    · intro a ha b hb hab
      have ha : -x0 ≤ a := ha
      have hb : -x0 ≤ b := hb
      have := i (show -b ∈ Iic x0 by simp; linarith) (show -a ∈ Iic x0 by simp; linarith) (by linarith)
      rwa [mirror_ratio, mirror_ratio] at this

/-! ### Powers -/
/-- The sign of the next derivative decides whether the ratio increases. -/
theorem ratio_mono_of_nonneg (T : Tower I g (k + 1)) (h0 : x0 ∈ I) (h : ∀ u ∈ I, 0 ≤ g (k + 1) u) : MonotoneOn (ratio g k x0) I := by
  have c : ContinuousOn (g k) I := fun u hu => (T.deriv k (by omega) u hu).continuousAt.continuousWithinAt
  have T' : Tower I g k := ⟨T.conv, fun i hi => T.deriv i (by omega), c⟩
  apply ratio_mono T' h0
  apply monotoneOn_of_deriv_nonneg T.conv c
  · exact fun u hu => (T.deriv k (by omega) u (interior_subset hu)).differentiableAt.differentiableWithinAt
  · intro u hu
    rw [(T.deriv k (by omega) u (interior_subset hu)).deriv]
    exact h u (interior_subset hu)

theorem ratio_anti_of_nonpos (T : Tower I g (k + 1)) (h0 : x0 ∈ I) (h : ∀ u ∈ I, g (k + 1) u ≤ 0) : AntitoneOn (ratio g k x0) I := by
  have c : ContinuousOn (g k) I := fun u hu => (T.deriv k (by omega) u hu).continuousAt.continuousWithinAt
  have T' : Tower I g k := ⟨T.conv, fun i hi => T.deriv i (by omega), c⟩
  apply ratio_anti T' h0
  apply antitoneOn_of_deriv_nonpos T.conv c
  · exact fun u hu => (T.deriv k (by omega) u (interior_subset hu)).differentiableAt.differentiableWithinAt
  · intro u hu
    rw [(T.deriv k (by omega) u (interior_subset hu)).deriv]
    exact h u (interior_subset hu)

/-- Falling factorial. -/
noncomputable def ff (p : ℝ) (k : ℕ) : ℝ := ∏ i ∈ Finset.range k, (p - i)
theorem ff_zero (p : ℝ) : ff p 0 = 1 := by simp [ff]
theorem ff_succ (p : ℝ) (k : ℕ) : ff p (k + 1) = ff p k * (p - k) := by simp [ff, Finset.prod_range_succ]
theorem ff_vanishes (n i : ℕ) (h : n < i) : ff (n : ℝ) i = 0 := by
  unfold ff
  exact Finset.prod_eq_zero (Finset.mem_range.mpr h) (sub_self _)
theorem ff_pos (n i : ℕ) (h : i ≤ n) : 0 < ff (n : ℝ) i := by
  unfold ff
  apply Finset.prod_pos
  intro j hj
  have : j < n := lt_of_lt_of_le (Finset.mem_range.mp hj) h
  rw [sub_pos]; exact_mod_cast this

/-- `x^p` and its derivatives, real exponent. -/
noncomputable def rp (p : ℝ) : ℕ → ℝ → ℝ := fun i u => ff p i * u ^ (p - i)
theorem rp_deriv (p : ℝ) (i : ℕ) (hx : 0 < x) : HasDerivAt (rp p i) (rp p (i + 1) x) x := by
  have := (Real.hasDerivAt_rpow_const (p := p - i) (Or.inl hx.ne')).const_mul (ff p i)
  refine this.congr_deriv ?_
  simp only [rp, ff_succ]; push_cast
  rw [show p - (i + 1) = p - i - 1 by ring]; ring
theorem rp_tower (p : ℝ) (k : ℕ) (hc : Convex ℝ I) (hI : ∀ u ∈ I, 0 < u) : Tower I (rp p) k :=
  ⟨hc, fun i _ u hu => rp_deriv p i (hI u hu), fun u hu => (rp_deriv p k (hI u hu)).continuousAt.continuousWithinAt⟩

theorem rp_mono (p : ℝ) (hc : Convex ℝ I) (hI : ∀ u ∈ I, 0 < u) (h0 : x0 ∈ I) (h : 0 ≤ ff p (k + 1)) : MonotoneOn (ratio (rp p) k x0) I :=
  ratio_mono_of_nonneg (rp_tower p (k + 1) hc hI) h0 (fun u hu => mul_nonneg h (Real.rpow_nonneg (hI u hu).le _))
theorem rp_anti (p : ℝ) (hc : Convex ℝ I) (hI : ∀ u ∈ I, 0 < u) (h0 : x0 ∈ I) (h : ff p (k + 1) ≤ 0) : AntitoneOn (ratio (rp p) k x0) I :=
  ratio_anti_of_nonpos (rp_tower p (k + 1) hc hI) h0 (fun u hu => mul_nonpos_of_nonpos_of_nonneg h (Real.rpow_nonneg (hI u hu).le _))

/-- For a positive exponent the region may start at 0. -/
theorem rp_lim (p : ℝ) (hp : 0 < p) (h0 : 0 < x0) : Filter.Tendsto (ratio (rp p) k x0) (nhdsWithin 0 (Ioi 0)) (nhds (ratio (rp p) k x0 0)) := by
  have e : ∀ u, u ≠ x0 → ratio (rp p) k x0 u = (u ^ p - taylor (rp p) k x0 u) / (u - x0) ^ k := by
    intro u hu; simp [ratio, hu, rp, ff_zero]
  have c : ContinuousAt (fun u => (u ^ p - taylor (rp p) k x0 u) / (u - x0) ^ k) 0 := by
    apply ContinuousAt.div
    · apply ContinuousAt.sub (Real.continuousAt_rpow_const 0 p (Or.inr hp.le))
      unfold taylor
      fun_prop
    · fun_prop
    · exact pow_ne_zero _ (by simp [h0.ne'])
  have c' : ContinuousAt (ratio (rp p) k x0) 0 := by
    apply c.congr
    filter_upwards [isOpen_ne.mem_nhds h0.ne] with u hu
    exact (e u hu).symm
  exact c'.tendsto.mono_left nhdsWithin_le_nhds

theorem rp_mono_zero (p : ℝ) (hp : 0 < p) (h0 : 0 < x0) (h : 0 ≤ ff p (k + 1)) : MonotoneOn (ratio (rp p) k x0) (Ici 0) := by
  have m : MonotoneOn (ratio (rp p) k x0) (Ioi 0) := rp_mono p (convex_Ioi 0) (fun u hu => hu) h0 h
  intro a ha b hb hab
  rcases (show (0:ℝ) ≤ a from ha).eq_or_lt with ea | ha'
  · rcases hab.eq_or_lt with e | hlt
    · rw [e]
    subst ea
    apply le_of_tendsto (rp_lim p hp h0)
    filter_upwards [Ioo_mem_nhdsGT hlt] with u hu
    exact m hu.1 (show b ∈ Ioi 0 from hlt) hu.2.le
  · exact m ha' (lt_of_lt_of_le ha' hab) hab
theorem rp_anti_zero (p : ℝ) (hp : 0 < p) (h0 : 0 < x0) (h : ff p (k + 1) ≤ 0) : AntitoneOn (ratio (rp p) k x0) (Ici 0) := by
  have m : AntitoneOn (ratio (rp p) k x0) (Ioi 0) := rp_anti p (convex_Ioi 0) (fun u hu => hu) h0 h
  intro a ha b hb hab
  rcases (show (0:ℝ) ≤ a from ha).eq_or_lt with ea | ha'
  · rcases hab.eq_or_lt with e | hlt
    · rw [e]
    subst ea
    apply ge_of_tendsto (rp_lim p hp h0)
    filter_upwards [Ioo_mem_nhdsGT hlt] with u hu
    exact m hu.1 (show b ∈ Ioi 0 from hlt) hu.2.le
  · exact m ha' (lt_of_lt_of_le ha' hab) hab

/-- `x^p` and its derivatives, integer exponent. -/
noncomputable def zp (p : ℤ) : ℕ → ℝ → ℝ := fun i u => ff p i * u ^ (p - (i : ℤ))
theorem zp_deriv (p : ℤ) (i : ℕ) (hx : x ≠ 0 ∨ 0 ≤ p) : HasDerivAt (zp p i) (zp p (i + 1) x) x := by
  by_cases hz : ff p i = 0
  · have e1 : zp p i = fun _ => 0 := by funext u; simp [zp, hz]
    have e2 : zp p (i + 1) x = 0 := by simp [zp, ff_succ, hz]
    rw [e1, e2]; exact hasDerivAt_const x 0
  · have h' : x ≠ 0 ∨ 0 ≤ p - (i : ℤ) := by
      rcases hx with h | h
      · exact Or.inl h
      · right
        by_contra hn
        obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le h
        exact hz (by simpa using ff_vanishes n i (by omega))
    have := (hasDerivAt_zpow (p - (i : ℤ)) x h').const_mul (ff p i)
    refine this.congr_deriv ?_
    simp only [zp, ff_succ]; push_cast
    rw [show p - ((i : ℤ) + 1) = p - i - 1 by ring]; ring
theorem zp_tower (p : ℤ) (k : ℕ) (hc : Convex ℝ I) (hI : ∀ u ∈ I, u ≠ 0 ∨ 0 ≤ p) : Tower I (zp p) k :=
  ⟨hc, fun i _ u hu => zp_deriv p i (hI u hu), fun u hu => (zp_deriv p k (hI u hu)).continuousAt.continuousWithinAt⟩

/-- On `x >= 0` the sign of `ff p (k+1)` decides. -/
theorem zp_mono_right (p : ℤ) (hc : Convex ℝ I) (hI : ∀ u ∈ I, u ≠ 0 ∨ 0 ≤ p) (hn : ∀ u ∈ I, 0 ≤ u) (h0 : x0 ∈ I) (h : 0 ≤ ff p (k + 1)) :
    MonotoneOn (ratio (zp p) k x0) I :=
  ratio_mono_of_nonneg (zp_tower p (k + 1) hc hI) h0 (fun u hu => mul_nonneg h (zpow_nonneg (hn u hu) _))
theorem zp_anti_right (p : ℤ) (hc : Convex ℝ I) (hI : ∀ u ∈ I, u ≠ 0 ∨ 0 ≤ p) (hn : ∀ u ∈ I, 0 ≤ u) (h0 : x0 ∈ I) (h : ff p (k + 1) ≤ 0) :
    AntitoneOn (ratio (zp p) k x0) I :=
  ratio_anti_of_nonpos (zp_tower p (k + 1) hc hI) h0 (fun u hu => mul_nonpos_of_nonpos_of_nonneg h (zpow_nonneg (hn u hu) _))

/-- Sign of `ff p j * u^(p-j)` for `u <= 0`. -/
theorem zp_sign_left (p : ℤ) (j : ℕ) {u : ℝ} (hu : u ≤ 0) (hI : u ≠ 0 ∨ 0 ≤ p) :
    (Even (p - j) → 0 ≤ ff p j → 0 ≤ zp p j u) ∧ (Even (p - j) → ff p j ≤ 0 → zp p j u ≤ 0) ∧
    (Odd (p - j) → ff p j ≤ 0 → 0 ≤ zp p j u) ∧ (Odd (p - j) → 0 ≤ ff p j → zp p j u ≤ 0) := by
  by_cases hz : ff p j = 0
  · have : zp p j u = 0 := by simp [zp, hz]
    simp [this]
  have od : Odd (p - j) → u ^ (p - (j : ℤ)) ≤ 0 := by
    intro o
    rcases hu.eq_or_lt with h | h
    · subst h; rw [zero_zpow]; intro e; rw [e] at o; exact absurd o (by decide)
    · exact (o.zpow_neg h).le
  refine ⟨fun e h => mul_nonneg h (e.zpow_nonneg u), fun e h => mul_nonpos_of_nonpos_of_nonneg h (e.zpow_nonneg u),
    fun o h => mul_nonneg_of_nonpos_of_nonpos h (od o), fun o h => mul_nonpos_of_nonneg_of_nonpos h (od o)⟩

/-- On `x <= 0` the sign of `(-1)^(p-k-1) ff p (k+1)` decides. -/
theorem zp_mono_left (p : ℤ) (hc : Convex ℝ I) (hI : ∀ u ∈ I, u ≠ 0 ∨ 0 ≤ p) (hn : ∀ u ∈ I, u ≤ 0) (h0 : x0 ∈ I)
    (h : (Even (p - (k + 1 : ℕ)) ∧ 0 ≤ ff p (k + 1)) ∨ (Odd (p - (k + 1 : ℕ)) ∧ ff p (k + 1) ≤ 0)) : MonotoneOn (ratio (zp p) k x0) I := by
  apply ratio_mono_of_nonneg (zp_tower p (k + 1) hc hI) h0
  intro u hu
  have s := zp_sign_left p (k + 1) (hn u hu) (hI u hu)
  rcases h with ⟨a, b⟩ | ⟨a, b⟩
  · exact s.1 a b
  · exact s.2.2.1 a b
theorem zp_anti_left (p : ℤ) (hc : Convex ℝ I) (hI : ∀ u ∈ I, u ≠ 0 ∨ 0 ≤ p) (hn : ∀ u ∈ I, u ≤ 0) (h0 : x0 ∈ I)
    (h : (Even (p - (k + 1 : ℕ)) ∧ ff p (k + 1) ≤ 0) ∨ (Odd (p - (k + 1 : ℕ)) ∧ 0 ≤ ff p (k + 1))) : AntitoneOn (ratio (zp p) k x0) I := by
  apply ratio_anti_of_nonpos (zp_tower p (k + 1) hc hI) h0
  intro u hu
  have s := zp_sign_left p (k + 1) (hn u hu) (hI u hu)
  rcases h with ⟨a, b⟩ | ⟨a, b⟩
  · exact s.2.1 a b
  · exact s.2.2.2 a b

/-- Natural exponent at most `k`: the ratio is constant. -/
theorem zp_const (n : ℕ) (h : n ≤ k) : ratio (zp n) k x0 x = ratio (zp n) k x0 y := by
  have T := zp_tower (I := univ) (n : ℤ) (k + 1) convex_univ (fun u _ => Or.inr (by omega))
  have z : ∀ u, zp (n : ℤ) (k + 1) u = 0 := by
    intro u
    have := ff_vanishes n (k + 1) (by omega)
    simp only [zp]; push_cast at this ⊢
    rw [this, zero_mul]
  have m := ratio_mono_of_nonneg T (mem_univ x0) (fun u _ => (z u).ge)
  have a := ratio_anti_of_nonpos T (mem_univ x0) (fun u _ => (z u).le)
  rcases le_total x y with hxy | hxy
  · exact le_antisymm (m (mem_univ _) (mem_univ _) hxy) (a (mem_univ _) (mem_univ _) hxy)
  · exact le_antisymm (a (mem_univ _) (mem_univ _) hxy) (m (mem_univ _) (mem_univ _) hxy)

/-- Natural exponent, `n - k` odd: the ratio increases everywhere. -/
theorem zp_odd (n : ℕ) (h : Odd ((n : ℤ) - k)) : Monotone (ratio (zp n) k x0) := by
  have T := zp_tower (I := univ) (n : ℤ) (k + 1) convex_univ (fun u _ => Or.inr (by omega))
  have m := ratio_mono_of_nonneg T (mem_univ x0) (fun u _ => by
    have f : 0 ≤ ff ((n : ℤ) : ℝ) (k + 1) := by
      push_cast
      rcases le_or_gt (k + 1) n with q | q
      · exact (ff_pos n (k + 1) q).le
      · exact (ff_vanishes n (k + 1) q).ge
    have e : Even ((n : ℤ) - ((k + 1 : ℕ) : ℤ)) := by
      push_cast
      rw [show (n : ℤ) - (k + 1) = (n - k) - 1 by ring]
      exact h.sub_odd odd_one
    exact mul_nonneg f (e.zpow_nonneg u))
  exact monotoneOn_univ.mp m

/-- Natural exponent, `n - k` even and positive: the ratio is convex and not negative. -/
theorem zp_even (n : ℕ) (hk : k ≤ n) (h : Even ((n : ℤ) - k)) : (0 ≤ ratio (zp n) k x0 x) ∧
    ∀ a b, x0 ∈ Icc a b → x ∈ Icc a b → ratio (zp n) k x0 x ≤ ratio (zp n) k x0 a ∨ ratio (zp n) k x0 x ≤ ratio (zp n) k x0 b := by
  have T := fun (J : Set ℝ) (c : Convex ℝ J) => zp_tower (I := J) (n : ℤ) k c (fun u _ => Or.inr (by omega))
  have f : 0 < ff ((n : ℤ) : ℝ) k := by push_cast; exact ff_pos n k hk
  obtain ⟨m, hm⟩ : ∃ m : ℕ, (n : ℤ) - k = m := ⟨n - k, by omega⟩
  have em : Even m := by rw [hm] at h; exact_mod_cast h
  have gk : zp (n : ℤ) k = fun u => ff ((n : ℤ) : ℝ) k * u ^ m := by
    funext u; simp only [zp]; rw [hm, zpow_natCast]
  constructor
  · apply ratio_nonneg (T univ convex_univ) (mem_univ _) (mem_univ _)
    intro u _; rw [gk]; exact mul_nonneg f.le (em.pow_nonneg u)
  · intro a b h0 hx
    apply ratio_le_ends (T _ (convex_Icc a b)) h0 hx
    rw [gk]
    have := ((em.convexOn_pow (𝕜 := ℝ)).subset (subset_univ _) (convex_Icc a b)).smul f.le
    exact this

/-! ### The registered functions -/
theorem exp_tower (k : ℕ) : Tower univ (fun _ => Real.exp) k :=
  ⟨convex_univ, fun _ _ x _ => Real.hasDerivAt_exp x, Real.continuous_exp.continuousOn⟩
/-- Remainder ratios of exp increase. -/
theorem exp_mono (k : ℕ) (x0 : ℝ) : Monotone (ratio (fun _ => Real.exp) k x0) :=
  monotoneOn_univ.mp (ratio_mono (exp_tower k) (mem_univ _) (Real.exp_monotone.monotoneOn _))

/-- The logarithm and its derivatives `(-1)^(i-1) (i-1)! x^-i`. -/
noncomputable def logs : ℕ → ℝ → ℝ
  | 0 => Real.log
  | i + 1 => fun x => (-1) ^ i * (i.factorial : ℝ) * x ^ (-(i + 1 : ℤ))
theorem log_deriv (i : ℕ) (hx : 0 < x) : HasDerivAt (logs i) (logs (i + 1) x) x := by
  cases i with
  | zero =>
    refine (Real.hasDerivAt_log hx.ne').congr_deriv ?_
    simp [logs]
  | succ i =>
    refine ((hasDerivAt_zpow (-(i + 1 : ℤ)) x (Or.inl hx.ne')).const_mul ((-1) ^ i * (i.factorial : ℝ))).congr_deriv ?_
    simp only [logs, Nat.factorial_succ]; push_cast
    rw [show -((i : ℤ) + 1 + 1) = -((i : ℤ) + 1) - 1 by ring]; ring
theorem log_tower (k : ℕ) : Tower (Ioi 0) logs k :=
  ⟨convex_Ioi 0, fun i _ _ hx => log_deriv i hx, fun _ hx => (log_deriv k hx).continuousAt.continuousWithinAt⟩
/-- Remainder ratios of log increase for even degrees and decrease for odd degrees. -/
theorem log_mono (k : ℕ) (h : Even k) (h0 : 0 < x0) : MonotoneOn (ratio logs k x0) (Ioi 0) := by
  apply ratio_mono_of_nonneg (log_tower (k + 1)) h0
  intro u hu
  simp only [logs, h.neg_one_pow, one_mul]
  exact mul_nonneg (by positivity) (zpow_nonneg (le_of_lt hu) _)
theorem log_anti (k : ℕ) (h : Odd k) (h0 : 0 < x0) : AntitoneOn (ratio logs k x0) (Ioi 0) := by
  apply ratio_anti_of_nonpos (log_tower (k + 1)) h0
  intro u hu
  simp only [logs, h.neg_one_pow]
  have : (0:ℝ) ≤ (k.factorial : ℝ) * u ^ (-((k : ℤ) + 1)) := mul_nonneg (by positivity) (zpow_nonneg (le_of_lt hu) _)
  linarith

noncomputable def sigm (x : ℝ) : ℝ := 1 / (1 + Real.exp (-x))
theorem sigm_deriv : HasDerivAt sigm (sigm x * (1 - sigm x)) x := by
  have p : 0 < 1 + Real.exp (-x) := by positivity
  have e : HasDerivAt (fun u : ℝ => 1 + Real.exp (-u)) (-Real.exp (-x)) x := by
    have := ((Real.hasDerivAt_exp (-x)).comp x (hasDerivAt_neg x)).const_add 1
    exact this.congr_deriv (by simp)
  have d := (hasDerivAt_const x (1:ℝ)).div e p.ne'
  refine d.congr_deriv ?_
  simp only [sigm]; field_simp; ring
theorem sigm_neg : sigm (-x) = 1 - sigm x := by
  have p : 0 < Real.exp x := Real.exp_pos x
  simp only [sigm, neg_neg, Real.exp_neg]; field_simp; ring
theorem sigm_range : 0 < sigm x ∧ sigm x < 1 := by
  have p : 0 < Real.exp (-x) := Real.exp_pos _
  simp only [sigm]
  exact ⟨by positivity, by rw [div_lt_one (by positivity)]; linarith⟩
theorem softplus_deriv : HasDerivAt (fun u => Real.log (1 + Real.exp u)) (sigm x) x := by
  have p : 0 < 1 + Real.exp x := by positivity
  have := ((Real.hasDerivAt_exp x).const_add 1).log p.ne'
  refine this.congr_deriv ?_
  have q : 0 < Real.exp x := Real.exp_pos x
  simp only [sigm, Real.exp_neg]; field_simp; ring
theorem swish_deriv : HasDerivAt (fun u => u * sigm u) (sigm x + x * (sigm x * (1 - sigm x))) x := by
  have := (hasDerivAt_id x).mul (sigm_deriv (x := x))
  exact this.congr_deriv (by simp)

/-- Between consecutive zeros of a continuous derivative a function is monotone. -/
theorem monotone_between {f f' : ℝ → ℝ} {a b : ℝ} (d : ∀ u ∈ Icc a b, HasDerivAt f (f' u) u) (c : ContinuousOn f' (Icc a b))
    (nz : ∀ u ∈ Ioo a b, f' u ≠ 0) : MonotoneOn f (Icc a b) ∨ AntitoneOn f (Icc a b) := by
  have fc : ContinuousOn f (Icc a b) := fun u hu => (d u hu).continuousAt.continuousWithinAt
  have sg : (∀ u ∈ Ioo a b, 0 ≤ f' u) ∨ (∀ u ∈ Ioo a b, f' u ≤ 0) := by
    by_contra h
    push Not at h
    obtain ⟨⟨u, hu, h1⟩, v, hv, h2⟩ := h
    have := (isPreconnected_Ioo (a := a) (b := b)).intermediate_value hu hv (c.mono Ioo_subset_Icc_self)
    obtain ⟨w, hw, e⟩ := this ⟨h1.le, h2.le⟩
    exact nz w hw e
  rcases sg with h | h
  · left
    apply monotoneOn_of_deriv_nonneg (convex_Icc a b) fc
    · intro u hu; rw [interior_Icc] at hu
      exact (d u (Ioo_subset_Icc_self hu)).differentiableAt.differentiableWithinAt
    · intro u hu; rw [interior_Icc] at hu
      rw [(d u (Ioo_subset_Icc_self hu)).deriv]; exact h u hu
  · right
    apply antitoneOn_of_deriv_nonpos (convex_Icc a b) fc
    · intro u hu; rw [interior_Icc] at hu
      exact (d u (Ioo_subset_Icc_self hu)).differentiableAt.differentiableWithinAt
    · intro u hu; rw [interior_Icc] at hu
      rw [(d u (Ioo_subset_Icc_self hu)).deriv]; exact h u hu
end Autobound
