/-
Mathematical facts the contracts use as hypotheses (see S.assume in contracts/): each is a lemma here, so none of them is an assumption.
-/
import Mathlib.Analysis.SpecialFunctions.Log.Base
import Mathlib.Analysis.SpecialFunctions.Pow.Real

/-- C08: 2**-t < 1 for t > 0 -/
theorem two_pow_neg_lt_one (t : ℝ) (ht : 0 < t) : (2 : ℝ) ^ (-t) < 1 :=
  Real.rpow_lt_one_of_one_lt_of_neg (by norm_num) (by linarith)

/-- C14: the logarithm is strictly increasing; f <= 3/4 fs 2**-j exactly when j <= log2 (3/4 fs / f) -/
theorem log2_strict_mono (x y : ℝ) (hx : 0 < x) (h : x < y) : Real.log x / Real.log 2 < Real.log y / Real.log 2 :=
  div_lt_div_of_pos_right (Real.log_lt_log hx h) (Real.log_pos (by norm_num))

/-- C06-C09: log2 (F + 1) > 0 for a filter of at least one sample -/
theorem log2_succ_pos (F : ℕ) (h : 1 ≤ F) : 0 < Real.log ((F : ℝ) + 1) / Real.log 2 := by
  have : (1 : ℝ) ≤ F := by exact_mod_cast h
  exact div_pos (Real.log_pos (by linarith)) (Real.log_pos (by norm_num))

/-- C06-C09: N >= (F + 1) 2**floor(log2(N / (F + 1))) -/
theorem length_bound (N F : ℕ) (hN : 1 ≤ N) :
    ((F : ℝ) + 1) * (2 : ℝ) ^ (⌊Real.log ((N : ℝ) / (F + 1)) / Real.log 2⌋) ≤ N := by
  have hF : (0 : ℝ) < (F : ℝ) + 1 := by positivity
  have hNr : (0 : ℝ) < (N : ℝ) := by exact_mod_cast hN
  have hq : (0 : ℝ) < (N : ℝ) / (F + 1) := div_pos hNr hF
  have h2 : (0 : ℝ) < Real.log 2 := Real.log_pos (by norm_num)
  have h : (2 : ℝ) ^ (⌊Real.log ((N : ℝ) / (F + 1)) / Real.log 2⌋) ≤ (N : ℝ) / (F + 1) := by
    rw [← Real.rpow_intCast, ← Real.log_le_log_iff (by positivity) hq, Real.log_rpow (by norm_num)]
    have := Int.floor_le (Real.log ((N : ℝ) / (F + 1)) / Real.log 2)
    rwa [le_div_iff₀ h2] at this
  calc ((F : ℝ) + 1) * (2 : ℝ) ^ (⌊Real.log ((N : ℝ) / (F + 1)) / Real.log 2⌋) ≤ ((F : ℝ) + 1) * ((N : ℝ) / (F + 1)) :=
        mul_le_mul_of_nonneg_left h hF.le
    _ = N := by field_simp

/-- C06-C09: 2**(J - i) = 2 * 2**(J - i - 1) -/
theorem pow_step (x : ℤ) : (2 : ℝ) ^ x = 2 * (2 : ℝ) ^ (x - 1) := by
  rw [zpow_sub₀ (by norm_num : (2 : ℝ) ≠ 0)]
  ring

/-- floor (floor (x / 2) ...): halving an integer length again and again keeps lengths above F + 1 (C09) -/
theorem half_floor (n m : ℕ) (h : 2 * m ≤ n) : m ≤ n / 2 := by omega

#print axioms two_pow_neg_lt_one
#print axioms log2_strict_mono
#print axioms log2_succ_pos
#print axioms length_bound
#print axioms pow_step
