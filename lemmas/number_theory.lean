import Mathlib.NumberTheory.LegendreSymbol.JacobiSymbol
import Mathlib.FieldTheory.IsAlgClosed.AlgebraicClosure
open scoped NumberTheorySymbols
namespace Rmath
/-- the symbol `js` of specs/p_jac.py -/
def js (a b : ℤ) : ℤ := jacobiSym a b.toNat
def ip (a n : ℤ) : ℤ := a ^ n.toNat
def prime (p : ℤ) : Prop := p ≥ 2 ∧ ∀ d : ℤ, 2 ≤ d → d < p → p % d ≠ 0

theorem axiom_js_range (a b : ℤ) : js a b = -1 ∨ js a b = 0 ∨ js a b = 1 := by
  rcases jacobiSym.trichotomy a b.toNat with h | h | h <;> simp [js, h]
theorem axiom_js_one (a : ℤ) : js a 1 = 1 := by simp [js]
theorem axiom_js_mod (a b : ℤ) (hb : b > 0) : js (a % b) b = js a b := by
  unfold js
  rw [jacobiSym.mod_left a b.toNat, Int.toNat_of_nonneg hb.le]
theorem axiom_js_zero (b : ℤ) (hb : b > 1) : js 0 b = 0 := by
  unfold js
  exact jacobiSym.zero_left (by omega)
theorem axiom_js_two (a b : ℤ) (hb : b > 0) (ho : b % 2 = 1) :
    js (2 * a) b = if b % 8 = 1 ∨ b % 8 = 7 then js a b else - js a b := by
  obtain ⟨n, rfl⟩ : ∃ n : ℕ, b = n := ⟨b.toNat, by omega⟩
  have hodd : Odd n := by rw [Nat.odd_iff]; omega
  unfold js
  rw [jacobiSym.mul_left]
  simp only [Int.toNat_natCast]
  rw [jacobiSym.at_two hodd, ZMod.χ₈_nat_eq_if_mod_eight]
  have h1 : ¬ (n % 2 = 0) := by omega
  rw [if_neg h1]
  by_cases h : n % 8 = 1 ∨ n % 8 = 7
  · rw [if_pos h, if_pos (by omega)]; ring
  · rw [if_neg h, if_neg (by omega)]; ring
theorem axiom_js_rec (a b : ℤ) (ha : a > 0) (hb : b > 0) (ao : a % 2 = 1) (bo : b % 2 = 1) :
    js a b = if a % 4 = 3 ∧ b % 4 = 3 then - js b a else js b a := by
  obtain ⟨m, rfl⟩ : ∃ n : ℕ, a = n := ⟨a.toNat, by omega⟩
  obtain ⟨n, rfl⟩ : ∃ n : ℕ, b = n := ⟨b.toNat, by omega⟩
  unfold js
  simp only [Int.toNat_natCast]
  by_cases h : (m:ℤ) % 4 = 3 ∧ (n:ℤ) % 4 = 3
  · rw [if_pos h, jacobiSym.quadratic_reciprocity_three_mod_four (by omega) (by omega)]
  · rw [if_neg h]
    by_cases h2 : m % 4 = 1
    · exact jacobiSym.quadratic_reciprocity_one_mod_four h2 (by rw [Nat.odd_iff]; omega)
    · exact (jacobiSym.quadratic_reciprocity_one_mod_four (a := n) (b := m) (by omega) (by rw [Nat.odd_iff]; omega)).symm

theorem prime_nat (p : ℤ) (h : prime p) : ∃ n : ℕ, p = n ∧ n.Prime := by
  obtain ⟨h2, hd⟩ := h
  obtain ⟨n, rfl⟩ : ∃ n : ℕ, p = n := ⟨p.toNat, by omega⟩
  refine ⟨n, rfl, Nat.prime_def_lt'.2 ⟨by omega, fun m hm hl hdvd => ?_⟩⟩
  exact hd m (by omega) (by omega) (Int.emod_eq_zero_of_dvd (by exact_mod_cast hdvd))

theorem axiom_euler (a p : ℤ) (hp : prime p) (ho : p % 2 = 1) : (ip a ((p - 1) / 2) - js a p) % p = 0 := by
  obtain ⟨n, rfl, hn⟩ := prime_nat p hp
  have : Fact n.Prime := ⟨hn⟩
  unfold ip js
  have e : (((n:ℤ) - 1) / 2).toNat = n / 2 := by omega
  rw [e, Int.toNat_natCast, ← jacobiSym.legendreSym.to_jacobiSym]
  apply Int.emod_eq_zero_of_dvd
  rw [← ZMod.intCast_zmod_eq_zero_iff_dvd]
  rw [Int.cast_sub, legendreSym.eq_pow]; push_cast; ring
theorem axiom_js_nonsq (a p y : ℤ) (hp : prime p) (h : js a p = -1) : (y * y - a) % p ≠ 0 := by
  obtain ⟨n, rfl, hn⟩ := prime_nat p hp
  have : Fact n.Prime := ⟨hn⟩
  unfold js at h
  rw [Int.toNat_natCast, ← jacobiSym.legendreSym.to_jacobiSym, legendreSym.eq_neg_one_iff] at h
  intro hz
  apply h
  refine ⟨(y : ZMod n), ?_⟩
  have := (ZMod.intCast_zmod_eq_zero_iff_dvd (y * y - a) n).2 (Int.dvd_of_emod_eq_zero hz)
  push_cast at this
  exact (sub_eq_zero.1 this).symm
theorem axiom_js_pzero (a p : ℤ) (hp : prime p) (h : js a p = 0) : a % p = 0 := by
  obtain ⟨n, rfl, hn⟩ := prime_nat p hp
  have : Fact n.Prime := ⟨hn⟩
  unfold js at h
  rw [Int.toNat_natCast, ← jacobiSym.legendreSym.to_jacobiSym, legendreSym.eq_zero_iff] at h
  exact Int.emod_eq_zero_of_dvd ((ZMod.intCast_zmod_eq_zero_iff_dvd a n).1 h)
theorem axiom_pm1 (z p : ℤ) (hp : prime p) (h : (z * z - 1) % p = 0) : (z - 1) % p = 0 ∨ (z + 1) % p = 0 := by
  obtain ⟨n, rfl, hn⟩ := prime_nat p hp
  have hd : (n : ℤ) ∣ (z - 1) * (z + 1) := by
    have := Int.dvd_of_emod_eq_zero h
    have e : (z - 1) * (z + 1) = z * z - 1 := by ring
    rwa [e]
  rcases (Nat.prime_iff_prime_int.1 hn).dvd_or_dvd hd with h | h
  · exact Or.inl (Int.emod_eq_zero_of_dvd h)
  · exact Or.inr (Int.emod_eq_zero_of_dvd h)
theorem axiom_nonres (p : ℤ) (hp : prime p) (ho : p % 2 = 1) : ∃ n : ℤ, 2 ≤ n ∧ n < p ∧ js n p = -1 := by
  obtain ⟨q, rfl, hq⟩ := prime_nat p hp
  have : Fact q.Prime := ⟨hq⟩
  have h2 : ringChar (ZMod q) ≠ 2 := by rw [ZMod.ringChar_zmod_n]; omega
  obtain ⟨a, ha⟩ := FiniteField.exists_nonsquare h2
  have hl : legendreSym q (a.val : ℤ) = -1 := by
    rw [legendreSym.eq_neg_one_iff]; simpa using ha
  refine ⟨a.val, ?_, ?_, ?_⟩
  · by_contra hc
    have : a.val = 0 ∨ a.val = 1 := by omega
    rcases this with h | h
    · rw [h] at hl; simp at hl
    · rw [h] at hl; simp at hl
  · exact_mod_cast ZMod.val_lt a
  · unfold js; rw [Int.toNat_natCast, ← jacobiSym.legendreSym.to_jacobiSym]; exact hl
theorem axiom_prime_mul (a b p : ℤ) (hp : prime p) (h : (a * b) % p = 0) : a % p = 0 ∨ b % p = 0 := by
  obtain ⟨n, rfl, hn⟩ := prime_nat p hp
  rcases (Nat.prime_iff_prime_int.1 hn).dvd_or_dvd (Int.dvd_of_emod_eq_zero h) with h | h
  · exact Or.inl (Int.emod_eq_zero_of_dvd h)
  · exact Or.inr (Int.emod_eq_zero_of_dvd h)

def lvn (P : ℤ) : ℕ → ℤ
  | 0 => 2
  | 1 => P
  | (k+2) => P * lvn P (k+1) - lvn P k
/-- `lv` of specs/r_prime.py -/
def lv (P k : ℤ) : ℤ := lvn P k.toNat

theorem lvn_cast {K : Type*} [Field K] (P : ℤ) (a : K) (h0 : a ≠ 0) (h : a * a - P * a + 1 = 0) (k : ℕ) :
    ((lvn P k : ℤ) : K) = a ^ k + (a⁻¹) ^ k ∧ ((lvn P (k+1) : ℤ) : K) = a ^ (k+1) + (a⁻¹) ^ (k+1) := by
  have hp : (P : K) = a + a⁻¹ := by
    have : a * a + 1 = P * a := by linear_combination h
    field_simp
    linear_combination -this
  induction k with
  | zero => simp [lvn, hp]; norm_num
  | succ k ih =>
    refine ⟨ih.2, ?_⟩
    have e : lvn P (k+1+1) = P * lvn P (k+1) - lvn P k := rfl
    rw [e]; push_cast; rw [ih.1, ih.2, hp]
    have e1 : a * a⁻¹ = 1 := mul_inv_cancel₀ h0
    have : (a + a⁻¹) * (a ^ (k+1) + a⁻¹ ^ (k+1)) = a ^ (k+2) + a⁻¹ ^ (k+2) + (a * a⁻¹) * (a ^ k + a⁻¹ ^ k) := by ring
    rw [this, e1]; ring


theorem lucas_order {K : Type*} [Field K] (q : ℕ) [Fact q.Prime] [CharP K q] (h2 : (2 : K) ≠ 0) (P : ℤ) (w a : K)
    (hw : w * w = (P : K) * P - 4) (h2a : 2 * a = P + w) (ho : q % 2 = 1) (he : ((P * P - 4 : ℤ) : K) ^ (q / 2) = -1) :
    a ^ (q + 1) = 1 := by
  have hwq : w ^ q = - w := by
    have e : q = 2 * (q / 2) + 1 := by omega
    have : w ^ q = (w * w) ^ (q / 2) * w := by
      conv_lhs => rw [e]
      rw [pow_succ, pow_mul, pow_two]
    rw [this, hw]
    push_cast at he
    rw [he]; ring
  have hP : ((P : K)) ^ q = P := by
    have := map_intCast (frobenius K q) P
    rwa [frobenius_def] at this
  have h2q : ((2 : K)) ^ q = 2 := by
    have := map_ofNat (frobenius K q) 2
    rwa [frobenius_def] at this
  have h1 := congrArg (frobenius K q) h2a
  simp only [map_add, map_mul, frobenius_def] at h1
  rw [hP, hwq, h2q] at h1
  have h4 : (4 : K) * (a ^ (q + 1) - 1) = 0 := by
    have e : (4 : K) * (a ^ (q + 1) - 1) = (2 * a ^ q) * (2 * a) - 4 := by rw [pow_succ]; ring
    rw [e, h1, h2a]
    linear_combination -hw
  have h40 : (4 : K) ≠ 0 := by
    have : (4 : K) = 2 * 2 := by norm_num
    rw [this]; exact mul_ne_zero h2 h2
  exact sub_eq_zero.1 ((mul_eq_zero.1 h4).resolve_left h40)

theorem lucas_alt {K : Type*} [Field K] (P : ℤ) (a : K) (m e : ℕ) (h0 : a ≠ 0) (ha : a * a - P * a + 1 = 0)
    (hx : (a ^ m) ^ (2 ^ e) = 1) :
    (((lvn P m : ℤ) : K) - 2 = 0 ∧ P * ((lvn P m : ℤ) : K) - 2 * ((lvn P (m+1) : ℤ) : K) = 0)
    ∨ (((lvn P m : ℤ) : K) + 2 = 0 ∧ P * ((lvn P m : ℤ) : K) - 2 * ((lvn P (m+1) : ℤ) : K) = 0)
    ∨ ∃ t : ℕ, t + 1 < e ∧ ((lvn P (m * 2 ^ t) : ℤ) : K) = 0 := by
  classical
  have hex : ∃ j, (a ^ m) ^ (2 ^ j) = 1 := ⟨e, hx⟩
  obtain ⟨j, hj1, hjm⟩ : ∃ j, (a ^ m) ^ (2 ^ j) = 1 ∧ ∀ i < j, (a ^ m) ^ (2 ^ i) ≠ 1 :=
    ⟨Nat.find hex, Nat.find_spec hex, fun i hi => Nat.find_min hex hi⟩
  have hje : j ≤ e := by
    by_contra hcon
    exact hjm e (by omega) hx
  have hV (k : ℕ) : ((lvn P k : ℤ) : K) = a ^ k + (a⁻¹) ^ k := (lvn_cast P a h0 ha k).1
  have hPa : (P : K) = a + a⁻¹ := by
    field_simp; linear_combination -ha
  have step (j : ℕ) (h1 : (a ^ m) ^ (2 ^ (j+1)) = 1) (h2 : (a ^ m) ^ (2 ^ j) ≠ 1) : (a ^ m) ^ (2 ^ j) = -1 := by
    have : ((a ^ m) ^ (2 ^ j) - 1) * ((a ^ m) ^ (2 ^ j) + 1) = 0 := by
      have e : (a ^ m) ^ (2 ^ (j+1)) = ((a ^ m) ^ (2 ^ j)) * ((a ^ m) ^ (2 ^ j)) := by
        rw [← pow_add]; congr 1; ring
      rw [e] at h1; linear_combination h1
    rcases mul_eq_zero.1 this with h | h
    · exact absurd (sub_eq_zero.1 h) h2
    · linear_combination h
  match j, hj1, hjm, hje with
  | 0, hj1, _, _ =>
    left
    have hx : a ^ m = 1 := by simpa using hj1
    have hxi : a⁻¹ ^ m = 1 := by rw [inv_pow, hx, inv_one]
    refine ⟨?_, ?_⟩
    · rw [hV, hx, hxi]; ring
    · rw [hV, hV, pow_succ, pow_succ, hx, hxi, hPa]; ring
  | 1, hj1, hjm, _ =>
    right; left
    have hx : a ^ m = -1 := by
      have := step 0 (by simpa using hj1) (hjm 0 (by norm_num)); simpa using this
    have hxi : a⁻¹ ^ m = -1 := by rw [inv_pow, hx]; norm_num
    refine ⟨?_, ?_⟩
    · rw [hV, hx, hxi]; ring
    · rw [hV, hV, pow_succ, pow_succ, hx, hxi, hPa]; ring
  | (i+2), hj1, hjm, hje =>
    right; right
    refine ⟨i, by omega, ?_⟩
    rw [hV, inv_pow]
    have hy := step (i+1) hj1 (hjm (i+1) (by omega))
    rw [← pow_mul] at hy
    have e : a ^ (m * 2 ^ (i + 1)) = a ^ (m * 2 ^ i) * a ^ (m * 2 ^ i) := by
      rw [← pow_add]; congr 1; ring
    rw [e] at hy
    have hne : a ^ (m * 2 ^ i) ≠ 0 := pow_ne_zero _ h0
    field_simp
    linear_combination hy

theorem axiom_lucas (P n s r : ℤ) (hp : prime n) (ho : n % 2 = 1) (hj : js (P * P - 4) n = -1)
    (hs : s ≥ 1) (hr : r ≥ 0) (hn : n + 1 = s * 2 ^ r.toNat) :
    ((lv P s - 2) % n = 0 ∧ (P * lv P s - 2 * lv P (s + 1)) % n = 0)
    ∨ ((lv P s + 2) % n = 0 ∧ (P * lv P s - 2 * lv P (s + 1)) % n = 0)
    ∨ ∃ t : ℤ, 0 ≤ t ∧ t + 1 < r ∧ lv P (s * 2 ^ t.toNat) % n = 0 := by
  obtain ⟨q, rfl, hq⟩ := prime_nat n hp
  obtain ⟨m, rfl⟩ : ∃ m : ℕ, s = m := ⟨s.toNat, by omega⟩
  obtain ⟨e, rfl⟩ : ∃ m : ℕ, r = m := ⟨r.toNat, by omega⟩
  have : Fact q.Prime := ⟨hq⟩
  obtain ⟨K, _, _, hc, w, hw⟩ : ∃ (K : Type) (_ : Field K) (_ : Algebra (ZMod q) K) (_ : CharP K q) (w : K), w * w = (P : K) * P - 4 := by
    have hc : CharP (AlgebraicClosure (ZMod q)) q := charP_of_injective_algebraMap (algebraMap (ZMod q) (AlgebraicClosure (ZMod q))).injective q
    obtain ⟨w, hw⟩ := IsAlgClosed.exists_pow_nat_eq ((P : AlgebraicClosure (ZMod q)) * P - 4) (n := 2) (by norm_num)
    exact ⟨AlgebraicClosure (ZMod q), inferInstance, inferInstance, hc, w, by rw [← pow_two]; exact hw⟩
  have z (x : ℤ) (h : (x : K) = 0) : x % q = 0 :=
    Int.emod_eq_zero_of_dvd ((CharP.intCast_eq_zero_iff K q x).1 h)
  have h2 : (2 : K) ≠ 0 := by
    intro h
    have := z 2 (by exact_mod_cast h)
    have h2 := hq.two_le
    have : (q:ℤ) ≤ 2 := Int.le_of_dvd (by norm_num) (Int.dvd_of_emod_eq_zero this)
    omega
  have he : ((P * P - 4 : ℤ) : K) ^ (q / 2) = -1 := by
    unfold js at hj
    rw [Int.toNat_natCast, ← jacobiSym.legendreSym.to_jacobiSym] at hj
    have h := legendreSym.eq_pow q (P * P - 4)
    rw [hj] at h
    have h := congrArg (algebraMap (ZMod q) K) h
    simp only [map_intCast, map_pow] at h
    rw [← h]; norm_num
  have hd : (2 : K) * ((P + w) / 2) = P + w := by field_simp
  have ha : ((P + w) / 2) * ((P + w) / 2) - P * ((P + w) / 2) + 1 = 0 := by
    have h4 : (4 : K) ≠ 0 := by
      have : (4 : K) = 2 * 2 := by norm_num
      rw [this]; exact mul_ne_zero h2 h2
    field_simp
    linear_combination hw
  generalize (P + w) / 2 = a at ha hd
  have h0 : a ≠ 0 := by
    intro h; rw [h] at ha; simp at ha
  have h1 := lucas_order q h2 P w a hw hd (by omega) he
  have hexp : q + 1 = m * 2 ^ e := by
    simp only [Int.toNat_natCast] at hn; exact_mod_cast hn
  have hx : (a ^ m) ^ (2 ^ e) = 1 := by rw [← pow_mul, ← hexp, h1]
  have l1 : lv P (m : ℤ) = lvn P m := by simp [lv]
  have l2 : lv P ((m : ℤ) + 1) = lvn P (m + 1) := by
    unfold lv; congr 1
  rw [l1, l2]
  rcases lucas_alt P a m e h0 ha hx with ⟨h1, h2⟩ | ⟨h1, h2⟩ | ⟨t, h1, h2⟩
  · left; exact ⟨z _ (by push_cast; exact h1), z _ (by push_cast; exact h2)⟩
  · right; left; exact ⟨z _ (by push_cast; exact h1), z _ (by push_cast; exact h2)⟩
  · right; right
    refine ⟨t, by omega, by omega, ?_⟩
    have l3 : lv P ((m : ℤ) * 2 ^ (t : ℤ).toNat) = lvn P (m * 2 ^ t) := by
      unfold lv; congr 1
    rw [l3]; exact z _ h2
end Rmath
#print axioms Rmath.axiom_lucas
#print axioms Rmath.axiom_nonres
