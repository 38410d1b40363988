import Mathlib.FieldTheory.Finite.Basic
import Mathlib.LinearAlgebra.Lagrange
import Mathlib.NumberTheory.LucasPrimality
import Mathlib.Tactic

/-! Mathematics behind the contracts of the secret-sharing functions. `p` is the field size of the code. -/
open Polynomial Finset

abbrev p : ℕ := 2147483659

theorem p_prime : p.Prime := by
  refine lucas_primality 2147483659 (2 : ZMod 2147483659) ?_ ?_
  · norm_num; reduce_mod_char
  · intro q hq hd
    have h : q ∣ 2 * 3 * 149 * 2402107 := by simpa using hd
    have h2 : Nat.Prime 2402107 := by norm_num
    have h3 : Nat.Prime 149 := by norm_num
    rcases (hq.dvd_mul).1 h with h | h
    · rcases (hq.dvd_mul).1 h with h | h
      · rcases (hq.dvd_mul).1 h with h | h
        · rw [(Nat.prime_dvd_prime_iff_eq hq Nat.prime_two).1 h]; norm_num; reduce_mod_char; decide
        · rw [(Nat.prime_dvd_prime_iff_eq hq Nat.prime_three).1 h]; norm_num; reduce_mod_char; decide
      · rw [(Nat.prime_dvd_prime_iff_eq hq h3).1 h]; norm_num; reduce_mod_char; decide
    · rw [(Nat.prime_dvd_prime_iff_eq hq h2).1 h]; norm_num; reduce_mod_char; decide

instance : Fact p.Prime := ⟨p_prime⟩

/-- The value `EvaluatePolynomial` computes from the coefficients of degree one and more. -/
def G (x : ℕ) : List ℕ → ℕ
  | [] => 0
  | c :: cs => ((G x cs + c) * x) % p

/-- The polynomial with these coefficients, lowest degree first. -/
noncomputable def poly : List ℕ → (ZMod p)[X]
  | [] => 0
  | c :: cs => C (c : ZMod p) + X * poly cs

theorem G_eval (x : ℕ) (cs : List ℕ) : ((G x cs : ℕ) : ZMod p) = (x : ZMod p) * (poly cs).eval (x : ZMod p) := by
  induction cs with
  | nil => simp [G, poly]
  | cons c cs ih =>
    simp only [G, poly, eval_add, eval_C, eval_mul, eval_X, ZMod.natCast_mod]
    push_cast
    rw [ih]; ring

/-- The share computed by the code is the value of the polynomial. -/
theorem share_is_value (x c : ℕ) (cs : List ℕ) :
    (((G x cs + c) % p : ℕ) : ZMod p) = (poly (c :: cs)).eval (x : ZMod p) := by
  rw [ZMod.natCast_mod]; push_cast; rw [G_eval]; simp [poly]; ring

theorem poly_degree (cs : List ℕ) : (poly cs).degree < (cs.length : WithBot ℕ) ∨ poly cs = 0 := by
  induction cs with
  | nil => right; rfl
  | cons c cs ih =>
    left
    have hX : (X * poly cs).degree < ((cs.length + 1 : ℕ) : WithBot ℕ) := by
      rcases ih with h | h
      · rw [degree_mul, degree_X]
        have : (1 : WithBot ℕ) + (poly cs).degree < 1 + (cs.length : WithBot ℕ) := by
          exact WithBot.add_lt_add_left (by decide) h
        calc _ < 1 + (cs.length : WithBot ℕ) := this
          _ = _ := by push_cast; rw [add_comm]
      · rw [h]; simp
    have hC : (C (c : ZMod p)).degree < ((cs.length + 1 : ℕ) : WithBot ℕ) :=
      lt_of_le_of_lt degree_C_le (by exact_mod_cast Nat.succ_pos _)
    simpa [poly] using lt_of_le_of_lt (degree_add_le _ _) (max_lt hC hX)

/-- Interpolation at zero from any `s.card` distinct points. -/
theorem lagrange_zero {ι : Type} [DecidableEq ι] (s : Finset ι) (v : ι → ZMod p) (hv : Set.InjOn v s)
    (f : (ZMod p)[X]) (hf : f.degree < s.card) :
    ∑ i ∈ s, f.eval (v i) * ∏ j ∈ s.erase i, (v j * (v j - v i)⁻¹) = f.eval 0 := by
  conv_rhs => rw [Lagrange.eq_interpolate hv hf]
  rw [Lagrange.interpolate_apply, eval_finsetSum]
  refine Finset.sum_congr rfl fun i _ => ?_
  rw [eval_mul, eval_C, Lagrange.basis, eval_prod]
  congr 1
  refine Finset.prod_congr rfl fun j _ => ?_
  rw [Lagrange.basisDivisor, eval_mul, eval_C, eval_sub, eval_X, eval_C, zero_sub]
  rw [← neg_sub (v j) (v i), inv_neg]; ring

/-- What reconstruction adds up is the secret. -/
theorem reconstructs {ι : Type} [DecidableEq ι] (s : Finset ι) (x : ι → ℕ) (hx : ∀ i ∈ s, x i < p)
    (hinj : Set.InjOn x s) (c : ℕ) (cs : List ℕ) (hlen : (c :: cs).length ≤ s.card) :
    (∑ i ∈ s, (((G (x i) cs + c) % p : ℕ) : ZMod p) * ∏ j ∈ s.erase i, ((x j : ZMod p) * ((x j : ZMod p) - (x i : ZMod p))⁻¹)) = (c : ZMod p) := by
  have hinj' : Set.InjOn (fun i => (x i : ZMod p)) s := by
    intro a ha b hb hab
    have := (ZMod.natCast_eq_natCast_iff' _ _ _).mp hab
    rw [Nat.mod_eq_of_lt (hx a ha), Nat.mod_eq_of_lt (hx b hb)] at this
    exact hinj ha hb this
  have hdeg : (poly (c :: cs)).degree < s.card := by
    rcases poly_degree (c :: cs) with h | h
    · exact lt_of_lt_of_le h (by exact_mod_cast hlen)
    · rw [h, degree_zero]; exact WithBot.bot_lt_coe _
  have := lagrange_zero s (fun i => (x i : ZMod p)) hinj' (poly (c :: cs)) hdeg
  simp only [share_is_value]
  rw [this]; simp [poly]

/-- Powers as the recursive helper computes them. -/
def M (a b : ℕ) : ℕ := (a * b) % p
def E (a e : ℕ) : ℕ := (a ^ e) % p
theorem E_zero (a : ℕ) : E a 0 = 1 := by norm_num [E, p]
theorem E_even (a e : ℕ) : E a (2 * e) = M (E a e) (E a e) := by
  unfold E M; rw [two_mul, pow_add, Nat.mul_mod]
theorem E_odd (a e : ℕ) : E a (2 * e + 1) = M a (M (E a e) (E a e)) := by
  rw [← E_even]; unfold E M; rw [pow_succ, Nat.mul_mod_mod, Nat.mul_comm]
theorem M_comm (a b : ℕ) : M a b = M b a := by unfold M; rw [Nat.mul_comm]
theorem M_assoc (a b c : ℕ) : M (M a b) c = M a (M b c) := by
  unfold M; rw [Nat.mod_mul_mod, Nat.mul_mod_mod, Nat.mul_assoc]
theorem inverse {a : ℕ} (h0 : 0 < a) (h1 : a < p) : ((E a (p - 2) : ℕ) : ZMod p) = (a : ZMod p)⁻¹ := by
  have hne : (a : ZMod p) ≠ 0 := by
    intro h
    rw [ZMod.natCast_eq_zero_iff] at h
    exact absurd (Nat.le_of_dvd h0 h) (by omega)
  unfold E
  rw [ZMod.natCast_mod, eq_comm, inv_eq_of_mul_eq_one_right]
  push_cast
  rw [← pow_succ']
  have := ZMod.pow_card_sub_one_eq_one hne
  simpa [p] using this
/-- The factor of one other point, as the code computes it on the two sides of the point. -/
theorem factor_above {a b : ℕ} (h : b < a) (ha : a < p) :
    ((M a (E (a - b) (p - 2)) : ℕ) : ZMod p) = (a : ZMod p) * ((a : ZMod p) - (b : ZMod p))⁻¹ := by
  unfold M
  rw [ZMod.natCast_mod]; push_cast
  rw [inverse (by omega) (by omega), Nat.cast_sub h.le]
theorem factor_below {a b : ℕ} (h : a < b) (hb : b < p) :
    ((M (M a (p - 1)) (E (b - a) (p - 2)) : ℕ) : ZMod p) = (a : ZMod p) * ((a : ZMod p) - (b : ZMod p))⁻¹ := by
  unfold M
  rw [ZMod.natCast_mod]; push_cast
  rw [inverse (by omega) (by omega), Nat.cast_sub h.le]
  have h1 : ((p - 1 : ℕ) : ZMod p) = -1 := by
    rw [Nat.cast_sub (by norm_num [p]), ZMod.natCast_self]; simp
  rw [ZMod.natCast_mod]; push_cast
  rw [h1, ← neg_sub (b : ZMod p) (a : ZMod p), inv_neg]; ring
