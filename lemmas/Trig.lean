import Mathlib.Analysis.SpecialFunctions.Trigonometric.Inverse
import Mathlib.Analysis.SpecialFunctions.Complex.Arg
import Mathlib.Analysis.Real.Pi.Bounds

/-! Facts of real trigonometry that contracts/geo.py uses as hypotheses. -/

open Real

theorem pythagoras (a : ℝ) : cos a * cos a + sin a * sin a = 1 := by
  have := sin_sq_add_cos_sq a; nlinarith

theorem cos_range {a : ℝ} (h : -(π / 2) ≤ a) (k : a ≤ π / 2) : 0 ≤ cos a :=
  cos_nonneg_of_neg_pi_div_two_le_of_le (by linarith) k

theorem cos_strict {a : ℝ} (h : -(π / 2) ≤ a) (k : a ≤ π / 2) : 0 < cos a ∨ a = π / 2 ∨ a = -(π / 2) := by
  rcases eq_or_lt_of_le h with h | h
  · right; right; exact h.symm
  · rcases eq_or_lt_of_le k with k | k
    · right; left; exact k
    · left; exact cos_pos_of_mem_Ioo ⟨by linarith, k⟩

theorem acos_sin {a : ℝ} (h : -(π / 2) ≤ a) (k : a ≤ π / 2) : arccos (sin a) = π / 2 - a := by
  rw [arccos_eq_pi_div_two_sub_arcsin, arcsin_sin (by linarith) k]

theorem asin_cos_nonneg {a : ℝ} (h : 0 ≤ a) (k : a ≤ π / 2) : arcsin (cos a) = π / 2 - a := by
  rw [← sin_pi_div_two_sub, arcsin_sin (by linarith [pi_pos]) (by linarith)]

theorem asin_cos {a : ℝ} (h : -(π / 2) ≤ a) (k : a ≤ π / 2) : arcsin (cos a) = π / 2 - |a| := by
  rw [← cos_abs]
  exact asin_cos_nonneg (abs_nonneg a) (abs_le.mpr ⟨by linarith, k⟩)

theorem sin_pos_of {a : ℝ} (h : 0 < a) (k : a ≤ π / 2) : 0 < sin a :=
  sin_pos_of_pos_of_lt_pi h (by linarith [pi_pos])

theorem sin_neg_of {a : ℝ} (h : a < 0) (k : -(π / 2) ≤ a) : sin a < 0 :=
  sin_neg_of_neg_of_neg_pi_lt h (by linarith [pi_pos])

/-- atan2(y, x) is the argument of x + i y. -/
theorem atan2_polar {r a : ℝ} (hr : 0 < r) (h : -π < a) (k : a ≤ π) :
    Complex.arg (r * (Complex.cos a + Complex.sin a * Complex.I)) = a :=
  Complex.arg_mul_cos_add_sin_mul_I hr ⟨h, k⟩

theorem pi_bounds : (3.14159265358979 : ℝ) < π ∧ π < (3.14159265358980 : ℝ) := by
  constructor
  · have := pi_gt_d20; norm_num at this ⊢; linarith
  · have := pi_lt_d20; norm_num at this ⊢; linarith

/-! Facts that contracts/finite.py uses as hypotheses. -/

theorem sin_le_self {a : ℝ} (h : 0 ≤ a) : sin a ≤ a := sin_le h

theorem sin_strict {a b : ℝ} (ha : -(π / 2) ≤ a) (ka : a ≤ π / 2) (hb : -(π / 2) ≤ b) (kb : b ≤ π / 2) :
    a ≤ b ↔ sin a ≤ sin b :=
  (strictMonoOn_sin.le_iff_le (Set.mem_Icc.mpr ⟨ha, ka⟩) (Set.mem_Icc.mpr ⟨hb, kb⟩)).symm

theorem asin_spec {x : ℝ} (h : -1 ≤ x) (k : x ≤ 1) :
    sin (arcsin x) = x ∧ -(π / 2) ≤ arcsin x ∧ arcsin x ≤ π / 2 ∧ (0 ≤ x ↔ 0 ≤ arcsin x) :=
  ⟨sin_arcsin h k, neg_pi_div_two_le_arcsin x, arcsin_le_pi_div_two x, arcsin_nonneg.symm⟩

/-- sin 85° ≤ 0.9962, as cos 85° = sin 5° ≥ 0.0872 - 0.0872³/4. -/
theorem sin_85 {a : ℝ} (h : 0 ≤ a) (k : a ≤ 85 * π / 180) : 0 ≤ sin a ∧ sin a ≤ 0.9962 := by
  have hp := pi_bounds
  have h0 : 0 ≤ sin a := sin_nonneg_of_nonneg_of_le_pi h (by linarith [pi_pos])
  refine ⟨h0, ?_⟩
  have hm : sin a ≤ sin (85 * π / 180) := by
    apply (sin_strict (by linarith [pi_pos]) (by linarith [pi_pos]) (by linarith [pi_pos]) (by linarith [pi_pos])).mp k
  have hc : (0.0871 : ℝ) ≤ cos (85 * π / 180) := by
    have e : cos (85 * π / 180) = sin (π / 36) := by
      rw [← cos_pi_div_two_sub]; ring_nf
    rw [e]
    have l1 : (0.0872 : ℝ) ≤ π / 36 := by linarith
    have l2 : π / 36 ≤ 0.0873 := by linarith
    have := sin_gt_sub_cube (x := π / 36) (by linarith)
    nlinarith [mul_nonneg (by linarith : (0:ℝ) ≤ π / 36) (by linarith : (0:ℝ) ≤ π / 36), pow_le_pow_left₀ (by linarith : (0:ℝ) ≤ π / 36) l2 3]
  have hs := sin_sq_add_cos_sq (85 * π / 180)
  have hn : 0 ≤ sin (85 * π / 180) := sin_nonneg_of_nonneg_of_le_pi (by linarith [pi_pos]) (by linarith [pi_pos])
  have : sin (85 * π / 180) ≤ 0.9962 := by
    by_contra hh
    rw [not_le] at hh
    nlinarith
  linarith

/-- sin p = k sin z with 0 < k ≤ 1: p ≤ k z, so z - p ≥ (1 - k) z ≥ (1 - k) sin z. -/
theorem centre_angle {k z p : ℝ} (hk : 0 < k) (kk : k ≤ 1) (hz : 0 ≤ z) (kz : z ≤ π / 2) (hp : 0 ≤ p) (kp : p ≤ π / 2)
    (e : sin p = k * sin z) : (1 - k) * sin z ≤ z - p := by
  have hkz : 0 ≤ k * z := by positivity
  have c : k * sin z ≤ sin (k * z) := by
    have := strictConcaveOn_sin_Icc.concaveOn.2 (Set.mem_Icc.mpr ⟨hz, by linarith [pi_pos]⟩) (Set.mem_Icc.mpr ⟨le_refl 0, pi_pos.le⟩)
      hk.le (by linarith : (0:ℝ) ≤ 1 - k) (by ring)
    simpa using this
  have hle : k * z ≤ π / 2 := by nlinarith
  have : p ≤ k * z := (sin_strict (by linarith [pi_pos]) kp (by linarith [pi_pos]) hle).mpr (by rw [e]; exact c)
  have hs := sin_le hz
  nlinarith

/-- sin p = k sin z, sin q = k sin y with 0 < k ≤ 1: z - p grows with z. -/
theorem centre_monotone {k z p y q : ℝ} (hk : 0 < k) (kk : k ≤ 1) (hz : 0 ≤ z) (hzy : z ≤ y) (ky : y ≤ π / 2)
    (hp : 0 ≤ p) (kp : p ≤ π / 2) (hq : 0 ≤ q) (kq : q ≤ π / 2)
    (e : sin p = k * sin z) (f : sin q = k * sin y) : z - p ≤ y - q := by
  have pp := pi_pos
  have sz : 0 ≤ sin z := sin_nonneg_of_nonneg_of_le_pi hz (by linarith)
  have sy : 0 ≤ sin y := sin_nonneg_of_nonneg_of_le_pi (by linarith) (by linarith)
  have pz : p ≤ z := (sin_strict (by linarith) kp (by linarith) (by linarith)).mpr (by rw [e]; nlinarith)
  have qy : q ≤ y := (sin_strict (by linarith) kq (by linarith) ky).mpr (by rw [f]; nlinarith)
  have zy : sin z ≤ sin y := (sin_strict (by linarith) (by linarith) (by linarith) ky).mp hzy
  have pq : p ≤ q := (sin_strict (by linarith) kp (by linarith) kq).mpr (by rw [e, f]; nlinarith)
  -- sin y - sin z = 2 sin ((y - z) / 2) cos ((y + z) / 2), and the same for q, p
  have d1 := sin_sub_sin y z
  have d2 := sin_sub_sin q p
  have cc : cos ((y + z) / 2) ≤ cos ((q + p) / 2) := cos_le_cos_of_nonneg_of_le_pi (by linarith) (by linarith) (by linarith)
  have c0 : 0 ≤ cos ((y + z) / 2) := cos_nonneg_of_neg_pi_div_two_le_of_le (by linarith) (by linarith)
  by_contra hh
  rw [not_le] at hh
  have hlt : (y - z) / 2 < (q - p) / 2 := by linarith
  have hs : sin ((y - z) / 2) < sin ((q - p) / 2) := by
    apply strictMonoOn_sin (Set.mem_Icc.mpr ⟨by linarith, by linarith⟩) (Set.mem_Icc.mpr ⟨by linarith, by linarith⟩) hlt
  have s0 : 0 ≤ sin ((y - z) / 2) := sin_nonneg_of_nonneg_of_le_pi (by linarith) (by linarith)
  have cq : 0 < cos ((q + p) / 2) := cos_pos_of_mem_Ioo ⟨by linarith, by linarith⟩
  have h1 : sin ((y - z) / 2) * cos ((y + z) / 2) < sin ((q - p) / 2) * cos ((q + p) / 2) := by
    calc sin ((y - z) / 2) * cos ((y + z) / 2) ≤ sin ((y - z) / 2) * cos ((q + p) / 2) := mul_le_mul_of_nonneg_left cc s0
      _ < _ := mul_lt_mul_of_pos_right hs cq
  have h2 : sin q - sin p = k * (sin y - sin z) := by rw [e, f]; ring
  nlinarith
