/-
Covariance of a process synthesised from the eigenvalues of a circulant matrix (used by C19 and C20).

For an even real sequence `c` on Z/M with non-negative transform `lam`, the process
  X t = Re (sum_k z k * sqrt (lam k / M) * w^(k t)),   w = exp (-2 pi i / M),   z k = x k + i y k
with x, y independent standard normal is the linear form
  X t = sum_k (x k * Re (a k w^(k t)) + y k * Re (i a k w^(k t))),   a k = sqrt (lam k / M),
and the covariance of two linear forms in standard white noise is the inner product of their coefficients.
`circulant_covariance` says that this inner product is c (t - s).
-/
import Mathlib.Analysis.Fourier.ZMod

open ZMod Complex Finset
open scoped ComplexConjugate ZMod

variable {M : ℕ} [NeZero M]

/-- the transform of the sequence, as numpy.fft.fft computes it -/
noncomputable def lam (c : ZMod M → ℝ) (k : ZMod M) : ℂ := ∑ m, stdAddChar (-(m * k)) * (c m : ℂ)

theorem lam_eq_dft (c : ZMod M → ℝ) : lam c = dft (fun m => (c m : ℂ)) := by
  funext k
  simp [lam, dft_apply, smul_eq_mul]

/-- stdAddChar (-(k t)) is w^(k t) -/
theorem char_eq_exp (k t : ℕ) :
    stdAddChar (-((k : ZMod M) * (t : ZMod M))) = Complex.exp (-(2 * Real.pi * I * (k * t) / M)) := by
  have h : -((k : ZMod M) * (t : ZMod M)) = ((-((k : ℤ) * (t : ℤ)) : ℤ) : ZMod M) := by push_cast; ring
  rw [h, stdAddChar_coe]
  congr 1
  push_cast
  ring

theorem conj_char (x : ZMod M) : conj (stdAddChar x) = stdAddChar (-x) := by
  rw [AddChar.map_neg_eq_conj]

/-- the transform of a real even sequence is real -/
theorem lam_real (c : ZMod M → ℝ) (hc : ∀ m, c (-m) = c m) (k : ZMod M) : ((lam c k).re : ℂ) = lam c k := by
  rw [← Complex.conj_eq_iff_re]
  unfold lam
  rw [map_sum]
  rw [← Equiv.sum_comp (Equiv.neg (ZMod M))]
  refine Finset.sum_congr rfl fun m _ => ?_
  simp only [map_mul, conj_char, Equiv.neg_apply, Complex.conj_ofReal, hc]
  congr 2
  ring

theorem inversion (c : ZMod M → ℝ) (t : ZMod M) : ∑ k, (lam c k / M) * stdAddChar (k * t) = (c t : ℂ) := by
  have h := congrFun (dft.symm_apply_apply (fun m => (c m : ℂ))) t
  rw [invDFT_apply, ← lam_eq_dft] at h
  rw [← h, smul_eq_mul, Finset.mul_sum]
  refine Finset.sum_congr rfl fun k _ => ?_
  rw [smul_eq_mul]
  ring

theorem circulant_covariance (c : ZMod M → ℝ) (hc : ∀ m, c (-m) = c m) (hpos : ∀ k, 0 ≤ (lam c k).re) (t s : ZMod M) :
    ∑ k, (((Real.sqrt ((lam c k).re / M) : ℂ) * stdAddChar (-(k * t))).re * ((Real.sqrt ((lam c k).re / M) : ℂ) * stdAddChar (-(k * s))).re
        + (I * ((Real.sqrt ((lam c k).re / M) : ℂ) * stdAddChar (-(k * t)))).re * (I * ((Real.sqrt ((lam c k).re / M) : ℂ) * stdAddChar (-(k * s)))).re)
      = c (t - s) := by
  have key : ∀ u v : ℂ, u.re * v.re + (I * u).re * (I * v).re = (u * conj v).re := by
    intro u v
    simp [Complex.mul_re]
  have h2 : ∀ k : ZMod M, ((Real.sqrt ((lam c k).re / M) : ℂ) * stdAddChar (-(k * t))) * conj ((Real.sqrt ((lam c k).re / M) : ℂ) * stdAddChar (-(k * s)))
      = (lam c k / M) * stdAddChar (k * (s - t)) := by
    intro k
    have hs : (Real.sqrt ((lam c k).re / M) : ℂ) * (Real.sqrt ((lam c k).re / M) : ℂ) = lam c k / M := by
      rw [← Complex.ofReal_mul, Real.mul_self_sqrt (div_nonneg (hpos k) (Nat.cast_nonneg M))]
      push_cast
      rw [lam_real c hc k]
    rw [map_mul, Complex.conj_ofReal, conj_char, neg_neg]
    have ha : (stdAddChar (k * (s - t)) : ℂ) = stdAddChar (-(k * t)) * stdAddChar (k * s) := by
      rw [← AddChar.map_add_eq_mul]
      congr 1
      ring
    rw [ha, ← hs]
    ring
  have h3 : ((∑ k, (lam c k / M) * stdAddChar (k * (s - t)) : ℂ)).re = c (t - s) := by
    rw [inversion, Complex.ofReal_re, ← hc (t - s)]
    congr 1
    ring
  rw [← h3, Complex.re_sum]
  refine Finset.sum_congr rfl fun k _ => ?_
  rw [key, h2]

/-- the same for a factor of the covariance matrix -/
theorem factor_covariance {n : ℕ} (L S : Matrix (Fin n) (Fin n) ℝ) (h : L * L.transpose = S) (t s : Fin n) :
    ∑ k, L t k * L s k = S t s := by
  rw [← h, Matrix.mul_apply]
  rfl

#print axioms circulant_covariance
#print axioms factor_covariance
#print axioms char_eq_exp
