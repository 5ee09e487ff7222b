/- From the contracts of the pricing kernels to bounds on the power.
   The constants above this line are generated from dv/kernels.py on every run.

   F = 2^127 (the fixed-point one).  All quantities are integers of the code, here real numbers; only the
   inequalities proved for the code are used, never that they are integers.
     x  argument of the logarithm, l its result, X argument of the exponential, (R, P) the power and its scale -/
open Real

/-- general exponential with precision p: P = 2^p, s = 2^(127-p) -/
theorem general_exp_scaled {R P y s X : ℝ} (hP : 0 < P) (hs : s * P = F) (hs0 : 0 < s) (hy : y * s ≤ X)
    (hR : R ≤ P * exp (y / P)) : R ≤ P * exp (X / F) * (1 + EU) := by
  have hF : (0:ℝ) < F := by unfold F; positivity
  have hEU : (0:ℝ) ≤ EU := by unfold EU; positivity
  have h1 : y / P ≤ X / F := by
    rw [← hs, div_le_div_iff₀ hP (by positivity)]
    nlinarith
  have h2 : exp (y / P) ≤ exp (X / F) := exp_le_exp.mpr h1
  have h3 : 0 ≤ P * exp (X / F) := by positivity
  nlinarith [mul_le_mul_of_nonneg_left h2 hP.le]

/-- the exponent, from above -/
theorem exponent_le {bn bd en ed x l X : ℝ} (hbd : 1 ≤ bd) (_hbn : bd ≤ bn) (hen : 1 ≤ en) (hed : 1 ≤ ed)
    (hx : x * bd ≤ bn * F) (hxF : F ≤ x) (hl : l ≤ F * (log (x / F) + LU)) (hX : X * ed ≤ l * en) :
    X / F ≤ (log (bn / bd) + LU) * (en / ed) := by
  have hF : (0:ℝ) < F := by unfold F; positivity
  have hbd0 : 0 < bd := by linarith
  have hed0 : 0 < ed := by linarith
  have hxp : 0 < x / F := div_pos (by linarith) hF
  have h1 : x / F ≤ bn / bd := by
    rw [div_le_div_iff₀ hF hbd0]; linarith
  have h2 : log (x / F) ≤ log (bn / bd) := log_le_log hxp h1
  have h3 : l ≤ F * (log (bn / bd) + LU) := by nlinarith
  have h4 : X * ed ≤ F * (log (bn / bd) + LU) * en := by nlinarith
  rw [div_le_iff₀ hF, mul_div_assoc', div_mul_eq_mul_div, le_div_iff₀ hed0]
  nlinarith

theorem ratio_le {en ed : ℝ} (hen : 1 ≤ en) (henM : en ≤ 10 ^ 6) (hed : 1 ≤ ed) : 0 < en / ed ∧ en / ed ≤ 10 ^ 6 := by
  have hed0 : 0 < ed := by linarith
  constructor
  · exact div_pos (by linarith) hed0
  · rw [div_le_iff₀ hed0]; nlinarith

theorem power_eq {b e : ℝ} (hb : 0 < b) : b ^ e = exp (log b * e) := rpow_def_of_pos hb e

/-- e^u <= 1/(1-u) -/
theorem exp_le_inv {u : ℝ} (_hu : u < 1) : exp u * (1 - u) ≤ 1 := by
  have h := add_one_le_exp (-u)
  have h2 : exp u * exp (-u) = 1 := by rw [← exp_add]; simp
  have h3 : 0 < exp u := exp_pos u
  nlinarith

/-- the power is never above the exact power by more than 2^-100 of it -/
theorem power_upper {bn bd en ed x l X R P : ℝ} (hbd : 1 ≤ bd) (hbn : bd ≤ bn) (hen : 1 ≤ en) (henM : en ≤ 10 ^ 6)
    (hed : 1 ≤ ed) (hP : 0 < P) (hx : x * bd ≤ bn * F) (hxF : F ≤ x) (hl : l ≤ F * (log (x / F) + LU))
    (hX : X * ed ≤ l * en) (hR : R ≤ P * exp (X / F) * (1 + EU)) :
    R * 2 ^ 100 ≤ P * (bn / bd) ^ (en / ed) * (2 ^ 100 + 1) := by
  have hb : 0 < bn / bd := div_pos (by linarith) (by linarith)
  obtain ⟨hr0, hr⟩ := ratio_le hen henM hed
  have hexp := exponent_le hbd hbn hen hed hx hxF hl hX
  have hLU : (0:ℝ) ≤ LU := by unfold LU; positivity
  have hu : X / F ≤ log (bn / bd) * (en / ed) + LU * 10 ^ 6 := by nlinarith
  set G := (bn / bd) ^ (en / ed) with hG
  have hGp : 0 < G := rpow_pos_of_pos hb _
  have h1 : exp (X / F) ≤ G * exp (LU * 10 ^ 6) := by
    rw [hG, power_eq hb, ← exp_add]; exact exp_le_exp.mpr hu
  have h2 : exp (LU * 10 ^ 6) * (1 - LU * 10 ^ 6) ≤ 1 := exp_le_inv (by unfold LU; norm_num)
  have h3 : exp (LU * 10 ^ 6) * (1 + EU) * 2 ^ 100 ≤ 2 ^ 100 + 1 := by
    have hc : (1 + EU) * 2 ^ 100 ≤ (2 ^ 100 + 1) * (1 - LU * 10 ^ 6) := by unfold EU LU; norm_num
    have := mul_le_mul_of_nonneg_left hc (exp_pos (LU * 10 ^ 6)).le
    nlinarith
  have hEU : (0:ℝ) ≤ EU := by unfold EU; positivity
  calc R * 2 ^ 100 ≤ P * exp (X / F) * (1 + EU) * 2 ^ 100 := by nlinarith
    _ ≤ P * (G * exp (LU * 10 ^ 6)) * (1 + EU) * 2 ^ 100 := by
        have : P * exp (X / F) ≤ P * (G * exp (LU * 10 ^ 6)) := mul_le_mul_of_nonneg_left h1 hP.le
        have h5 : (0:ℝ) ≤ (1 + EU) * 2 ^ 100 := by positivity
        nlinarith [mul_le_mul_of_nonneg_right this h5]
    _ = P * G * (exp (LU * 10 ^ 6) * (1 + EU) * 2 ^ 100) := by ring
    _ ≤ P * G * (2 ^ 100 + 1) := mul_le_mul_of_nonneg_left h3 (by positivity)

/-- with the accurate exponential the power is never below the exact power by more than 2^-91 of it -/
theorem power_lower {bn bd en ed x l X R P : ℝ} (hbd : 1 ≤ bd) (hbn : bd ≤ bn) (hen : 1 ≤ en) (henM : en ≤ 10 ^ 6)
    (hed : 1 ≤ ed) (hP : 0 < P) (hx : bn * F < x * bd + bd) (_hxF : F ≤ x) (hl : F * (log (x / F) - LL) ≤ l)
    (hX : l * en < X * ed + ed) (hR : P * exp (X / F) * (1 - EL) ≤ R) :
    P * (bn / bd) ^ (en / ed) * (2 ^ 91 - 1) ≤ R * 2 ^ 91 := by
  have hF : (0:ℝ) < F := by unfold F; positivity
  have hF1 : (1:ℝ) < F := by unfold F; norm_num
  have hbd0 : 0 < bd := by linarith
  have hed0 : 0 < ed := by linarith
  have hb1 : 1 ≤ bn / bd := by rw [le_div_iff₀ hbd0]; linarith
  have hb : 0 < bn / bd := by linarith
  obtain ⟨hr0, hr⟩ := ratio_le hen henM hed
  have hz : (0:ℝ) < 1 - 1 / F := by unfold F; norm_num
  have h0 : bn / bd * (1 - 1 / F) ≤ x / F := by
    have h01 : bn / bd ≤ x / F + 1 / F := by
      rw [← add_div, div_le_div_iff₀ hbd0 hF]; nlinarith
    have h02 : 1 / F ≤ bn / bd * (1 / F) := le_mul_of_one_le_left (by positivity) hb1
    nlinarith
  have h1 : log (bn / bd) - 2 / F ≤ log (x / F) := by
    have h11 : log (bn / bd * (1 - 1 / F)) ≤ log (x / F) := log_le_log (mul_pos hb hz) h0
    rw [log_mul hb.ne' hz.ne'] at h11
    have h12 := one_sub_inv_le_log_of_pos hz
    have h13 : -(2 / F) ≤ 1 - (1 - 1 / F)⁻¹ := by unfold F; norm_num
    linarith
  have h2 : F * (log (bn / bd) - 2 / F - LL) ≤ l := by nlinarith
  have h3 : log (bn / bd) * (en / ed) - ((2 / F + LL) * 10 ^ 6 + 1 / F) ≤ X / F := by
    have h31 : F * (log (bn / bd) - 2 / F - LL) * en < X * ed + ed := by nlinarith
    have h32 : (log (bn / bd) - 2 / F - LL) * (en / ed) - 1 / F ≤ X / F := by
      rw [mul_div_assoc', sub_le_iff_le_add, ← add_div, div_le_div_iff₀ hed0 hF]
      nlinarith
    have h33 : (0:ℝ) ≤ 2 / F + LL := by unfold F LL; positivity
    nlinarith
  set v := (2 / F + LL) * 10 ^ 6 + 1 / F with hv
  set G := (bn / bd) ^ (en / ed) with hG
  have hGp : 0 < G := rpow_pos_of_pos hb _
  have h4 : G * exp (-v) ≤ exp (X / F) := by
    rw [hG, power_eq hb, ← exp_add]; exact exp_le_exp.mpr (by linarith)
  have h5 : 1 - v ≤ exp (-v) := by linarith [add_one_le_exp (-v)]
  have h6 : (2:ℝ) ^ 91 - 1 ≤ (1 - v) * (1 - EL) * 2 ^ 91 := by
    rw [hv]; unfold F LL EL; norm_num
  have hEL : (0:ℝ) ≤ 1 - EL := by unfold EL; norm_num
  have h7 : G * (1 - v) ≤ exp (X / F) := le_trans (mul_le_mul_of_nonneg_left h5 hGp.le) h4
  have h8 : P * (G * (1 - v)) * (1 - EL) ≤ R := by
    have := mul_le_mul_of_nonneg_right (mul_le_mul_of_nonneg_left h7 hP.le) hEL
    linarith
  calc P * G * (2 ^ 91 - 1) ≤ P * G * ((1 - v) * (1 - EL) * 2 ^ 91) := mul_le_mul_of_nonneg_left h6 (by positivity)
    _ = P * (G * (1 - v)) * (1 - EL) * 2 ^ 91 := by ring
    _ ≤ R * 2 ^ 91 := by nlinarith

/-- beyond the accurate exponential the exact power is above the limit -/
theorem accurate_branch {bn bd en ed x l X : ℝ} (hbd : 1 ≤ bd) (hbn : bd ≤ bn) (hen : 1 ≤ en) (henM : en ≤ 10 ^ 6)
    (hed : 1 ≤ ed) (hx : x * bd ≤ bn * F) (hxF : F ≤ x) (hl : l ≤ F * (log (x / F) + LU)) (hX : X * ed ≤ l * en)
    (hbig : 16 * F ≤ X) : LIMIT < (bn / bd) ^ (en / ed) := by
  have hF : (0:ℝ) < F := by unfold F; positivity
  have hb : 0 < bn / bd := div_pos (by linarith) (by linarith)
  obtain ⟨hr0, hr⟩ := ratio_le hen henM hed
  have hexp := exponent_le hbd hbn hen hed hx hxF hl hX
  have h16 : 16 ≤ X / F := by rw [le_div_iff₀ hF]; linarith
  have hLU : (0:ℝ) ≤ LU := by unfold LU; positivity
  have hu : 16 + -(LU * 10 ^ 6) ≤ log (bn / bd) * (en / ed) := by nlinarith
  have h1 : exp 16 * exp (-(LU * 10 ^ 6)) ≤ (bn / bd) ^ (en / ed) := by
    rw [power_eq hb, ← exp_add]; exact exp_le_exp.mpr hu
  have h2 : 1 - LU * 10 ^ 6 ≤ exp (-(LU * 10 ^ 6)) := by linarith [add_one_le_exp (-(LU * 10 ^ 6))]
  have h3 : (2.7182818283:ℝ) ^ 16 ≤ exp 16 := by
    have : exp 16 = exp 1 ^ 16 := by rw [← exp_nat_mul]; norm_num
    rw [this]
    exact pow_le_pow_left₀ (by norm_num) exp_one_gt_d9.le 16
  have h4 : LIMIT < (2.7182818283:ℝ) ^ 16 * (1 - LU * 10 ^ 6) := by unfold LIMIT LU; norm_num
  have h5 : (0:ℝ) ≤ 1 - LU * 10 ^ 6 := by unfold LU; norm_num
  calc LIMIT < (2.7182818283:ℝ) ^ 16 * (1 - LU * 10 ^ 6) := h4
    _ ≤ exp 16 * (1 - LU * 10 ^ 6) := mul_le_mul_of_nonneg_right h3 h5
    _ ≤ exp 16 * exp (-(LU * 10 ^ 6)) := mul_le_mul_of_nonneg_left h2 (exp_pos 16).le
    _ ≤ _ := h1

/-- beyond the limit an accurate power stays above the floor -/
theorem floor_far {R P G : ℝ} (hP : 0 < P) (hG : LIMIT < G) (h : P * G * (2 ^ 91 - 1) ≤ R * 2 ^ 91) : FLOOR * P ≤ R := by
  have h1 : P * LIMIT ≤ P * G := mul_le_mul_of_nonneg_left hG.le hP.le
  have h2 : P * LIMIT * (2 ^ 91 - 1) ≤ R * 2 ^ 91 := by nlinarith
  unfold LIMIT at h2; unfold FLOOR
  nlinarith

/-- no argument of the exponential exceeds the range over which the precision search is verified -/
theorem exponent_top {bn bd en ed x l X : ℝ} (hbd : 1 ≤ bd) (hbn : bd ≤ bn) (hmax : bn ≤ 2 ^ 129) (hen : 1 ≤ en)
    (henM : en ≤ 10 ^ 6) (hed : 1 ≤ ed) (hx : x * bd ≤ bn * F) (hxF : F ≤ x) (hl : l ≤ F * (log (x / F) + LU))
    (hX : X * ed ≤ l * en) : X ≤ TOP * F := by
  have hF : (0:ℝ) < F := by unfold F; positivity
  have hbd0 : 0 < bd := by linarith
  have hb : 0 < bn / bd := div_pos (by linarith) hbd0
  obtain ⟨hr0, hr⟩ := ratio_le hen henM hed
  have hexp := exponent_le hbd hbn hen hed hx hxF hl hX
  have h1 : log (bn / bd) ≤ 129 * log 2 := by
    have : log ((2:ℝ) ^ 129) = 129 * log 2 := by rw [log_pow]; norm_num
    rw [← this]
    apply log_le_log hb
    rw [div_le_iff₀ hbd0]; nlinarith [show (0:ℝ) < 2 ^ 129 by positivity]
  have h2 := log_two_lt_d9
  have h3 : (log (bn / bd) + LU) ≤ 90 := by
    have : LU ≤ (0.1:ℝ) := by unfold LU; norm_num
    linarith
  have h4 : X / F ≤ 90 * 10 ^ 6 := by
    have h41 : (log (bn / bd) + LU) * (en / ed) ≤ 90 * (en / ed) := mul_le_mul_of_nonneg_right h3 hr0.le
    linarith
  rw [div_le_iff₀ hF] at h4
  unfold TOP; linarith

/-- there and back: the second power undoes at most the first -/
theorem round_trip {b B en ed x l X R P bn2 bd2 x2 l2 X2 R2 P2 : ℝ} (hb : 1 ≤ b) (hB : b ≤ B) (hen : 1 ≤ en)
    (_henM : en ≤ 10 ^ 6) (hed : 1 ≤ ed) (hedM : ed ≤ 10 ^ 6) (hP : 0 < P) (hP2 : 0 < P2)
    (hx : x * b ≤ B * F) (hxF : F ≤ x) (hl : l ≤ F * (log (x / F) + LU)) (hX : X * ed ≤ l * en)
    (hR : R ≤ P * exp (X / F) * (1 + EU))
    (hbd2 : 1 ≤ bd2) (hbn2 : bd2 ≤ bn2) (hbase : bn2 * P ≤ bd2 * R)
    (hx2 : x2 * bd2 ≤ bn2 * F) (hxF2 : F ≤ x2) (hl2 : l2 ≤ F * (log (x2 / F) + LU)) (hX2 : X2 * en ≤ l2 * ed)
    (hR2 : R2 ≤ P2 * exp (X2 / F) * (1 + EU)) :
    R2 * b * 2 ^ 100 ≤ P2 * B * (2 ^ 100 + 1) := by
  have hEU : (0:ℝ) ≤ EU := by unfold EU; positivity
  have hLU : (0:ℝ) ≤ LU := by unfold LU; positivity
  have hb0 : 0 < b := by linarith
  have hb2 : 0 < bn2 / bd2 := div_pos (by linarith) (by linarith)
  have hBb : 0 < B / b := div_pos (by linarith) hb0
  obtain ⟨hr0, _⟩ := ratio_le hen _henM hed
  obtain ⟨hq0, hq⟩ := ratio_le hed hedM hen
  have hrq : (en / ed) * (ed / en) = 1 := by
    have : ed ≠ 0 := by linarith
    have : en ≠ 0 := by linarith
    field_simp
  have e1 := exponent_le hb hB hen hed hx hxF hl hX
  have e2 := exponent_le hbd2 hbn2 hed hen hx2 hxF2 hl2 hX2
  have h1 : log (bn2 / bd2) ≤ X / F + EU := by
    have h11 : bn2 / bd2 ≤ exp (X / F + EU) := by
      rw [div_le_iff₀ (by linarith)]
      have h12 : 1 + EU ≤ exp EU := by linarith [add_one_le_exp EU]
      have h13 : R ≤ P * exp (X / F + EU) := by
        rw [exp_add]
        have : P * exp (X / F) * (1 + EU) ≤ P * exp (X / F) * exp EU := mul_le_mul_of_nonneg_left h12 (by positivity)
        linarith
      have h14 : bn2 * P ≤ bd2 * (P * exp (X / F + EU)) := le_trans hbase (mul_le_mul_of_nonneg_left h13 (by linarith))
      have h15 : bn2 * P ≤ exp (X / F + EU) * bd2 * P := by linarith
      exact le_of_mul_le_mul_right h15 hP
    calc log (bn2 / bd2) ≤ log (exp (X / F + EU)) := log_le_log hb2 h11
      _ = X / F + EU := log_exp _
  have h2 : X2 / F ≤ log (B / b) + (LU + (EU + LU) * 10 ^ 6) := by
    have h21 : (log (bn2 / bd2) + LU) * (ed / en) ≤ ((log (B / b) + LU) * (en / ed) + EU + LU) * (ed / en) :=
      mul_le_mul_of_nonneg_right (by linarith) hq0.le
    have h22 : ((log (B / b) + LU) * (en / ed) + EU + LU) * (ed / en) = (log (B / b) + LU) * ((en / ed) * (ed / en)) + (EU + LU) * (ed / en) := by ring
    rw [h22, hrq] at h21
    have h23 : (EU + LU) * (ed / en) ≤ (EU + LU) * 10 ^ 6 := mul_le_mul_of_nonneg_left hq (by linarith)
    linarith
  set w := LU + (EU + LU) * 10 ^ 6 with hw
  have h3 : exp (X2 / F) ≤ B / b * exp w := by
    calc exp (X2 / F) ≤ exp (log (B / b) + w) := exp_le_exp.mpr h2
      _ = B / b * exp w := by rw [exp_add, exp_log hBb]
  have h4 : exp w * (1 - w) ≤ 1 := exp_le_inv (by rw [hw]; unfold LU EU; norm_num)
  have h5 : exp w * (1 + EU) * 2 ^ 100 ≤ 2 ^ 100 + 1 := by
    have hc : (1 + EU) * 2 ^ 100 ≤ (2 ^ 100 + 1) * (1 - w) := by rw [hw]; unfold EU LU; norm_num
    have := mul_le_mul_of_nonneg_left hc (exp_pos w).le
    nlinarith
  have h6 : R2 ≤ P2 * (B / b * exp w) * (1 + EU) := by
    have := mul_le_mul_of_nonneg_right (mul_le_mul_of_nonneg_left h3 hP2.le) (show (0:ℝ) ≤ 1 + EU by linarith)
    linarith
  have h7 : R2 * b ≤ P2 * B * (exp w * (1 + EU)) := by
    have h71 := mul_le_mul_of_nonneg_right h6 hb0.le
    have h72 : P2 * (B / b * exp w) * (1 + EU) * b = P2 * B * (exp w * (1 + EU)) := by field_simp
    linarith
  have h8 : 0 ≤ P2 * B := mul_nonneg hP2.le (by linarith)
  nlinarith [mul_le_mul_of_nonneg_left h5 h8]
