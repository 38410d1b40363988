import Mathlib.FieldTheory.Finite.Basic
import Mathlib.Data.Nat.ModEq

/-! Facts about modular multiplication and powers used as lemmas by the contract of InverseModPrime.
`M z x y` is the exact product reduced modulo z, `P z x e` the e-th power reduced modulo z. -/
def M (z x y : ℕ) : ℕ := (x * y) % z
def P (z x e : ℕ) : ℕ := (x ^ e) % z

theorem M_lt {z : ℕ} (x y : ℕ) (hz : 0 < z) : M z x y < z := Nat.mod_lt _ hz
theorem M_comm (z x y : ℕ) : M z x y = M z y x := by unfold M; rw [Nat.mul_comm]
theorem M_assoc (z x y w : ℕ) : M z (M z x y) w = M z x (M z y w) := by
  unfold M; rw [Nat.mod_mul_mod, Nat.mul_mod_mod, Nat.mul_assoc]
theorem M_one {z x : ℕ} (h : x < z) : M z x 1 = x := by unfold M; simp [Nat.mod_eq_of_lt h]
theorem P_lt {z : ℕ} (x e : ℕ) (hz : 0 < z) : P z x e < z := Nat.mod_lt _ hz
theorem P_zero {z : ℕ} (x : ℕ) (hz : 1 < z) : P z x 0 = 1 := by unfold P; simp [Nat.mod_eq_of_lt hz]
theorem P_even (z x e : ℕ) : P z x (2 * e) = P z (M z x x) e := by
  unfold P M; rw [pow_mul, ← Nat.pow_mod, pow_two]
theorem P_odd (z x e : ℕ) : P z x (2 * e + 1) = M z x (P z (M z x x) e) := by
  unfold P M; rw [← Nat.pow_mod, Nat.mul_mod_mod, pow_succ, pow_mul, pow_two, Nat.mul_comm]
theorem fermat {z a : ℕ} (hz : z.Prime) (h0 : 0 < a) (h1 : a < z) : M z a (P z a (z - 2)) = 1 := by
  have := Fact.mk hz
  unfold M P
  rw [Nat.mul_mod_mod, ← pow_succ']
  have h2 : z - 2 + 1 = z - 1 := by have := hz.two_le; omega
  rw [h2]
  have hne : (a : ZMod z) ≠ 0 := by
    intro h
    rw [ZMod.natCast_eq_zero_iff] at h
    exact absurd (Nat.le_of_dvd h0 h) (by omega)
  have h3 : ((a ^ (z - 1) : ℕ) : ZMod z) = ((1 : ℕ) : ZMod z) := by
    push_cast; exact ZMod.pow_card_sub_one_eq_one hne
  have h4 := (ZMod.natCast_eq_natCast_iff' _ _ _).mp h3
  rw [h4, Nat.mod_eq_of_lt hz.one_lt]
