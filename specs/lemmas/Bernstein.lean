/-
The axioms used by specs/C01.gvc, proved. B, P, W and T below are the recursive
definitions of that file (its integer arguments are never negative where the axioms apply;
reals are mathematical reals).
-/
import Mathlib

open Finset

noncomputable def B (m : ℕ) : ℕ → ℝ
  | 0 => 1
  | j + 1 => B m j * (((m : ℝ) + 1 - ((j : ℝ) + 1)) / ((j : ℝ) + 1))

noncomputable def P (t : ℝ) : ℕ → ℝ
  | 0 => 1
  | j + 1 => P t j * t

noncomputable def W (m : ℕ) (t : ℝ) (j : ℕ) : ℝ := B m j * P t j

/-- `T m t k` for `k ≤ m`: the last `k + 1` of the weights. -/
noncomputable def T (m : ℕ) (t : ℝ) : ℕ → ℝ
  | 0 => 0 + W m t m * P (1 - t) 0
  | k + 1 => T m t k + W m t (m - (k + 1)) * P (1 - t) (k + 1)

theorem P_eq (t : ℝ) (j : ℕ) : P t j = t ^ j := by
  induction j with
  | zero => simp [P]
  | succ j ih => simp [P, ih, pow_succ]

theorem B_eq (m j : ℕ) (h : j ≤ m) : B m j = (m.choose j : ℝ) := by
  induction j with
  | zero => simp [B]
  | succ j ih =>
    have hj : j ≤ m := by omega
    have hs : ((m.choose (j + 1) : ℕ) : ℝ) * ((j : ℝ) + 1) = (m.choose j : ℝ) * ((m : ℝ) - j) := by
      have := Nat.choose_succ_right_eq m j
      have h2 : ((m.choose (j + 1) * (j + 1) : ℕ) : ℝ) = ((m.choose j * (m - j) : ℕ) : ℝ) := by
        exact_mod_cast this
      push_cast [Nat.cast_sub hj] at h2
      exact h2
    have hp : ((j : ℝ) + 1) ≠ 0 := by positivity
    rw [B, ih hj]
    field_simp
    linarith

theorem T_eq (m : ℕ) (t : ℝ) (k : ℕ) (h : k ≤ m) :
    T m t k = ∑ i ∈ range (k + 1), W m t (m - i) * P (1 - t) i := by
  induction k with
  | zero => simp [T]
  | succ k ih => rw [T, ih (by omega), ← sum_range_succ]

/-- axiom [binomial] -/
theorem binomial (m : ℕ) (t : ℝ) : T m t m = 1 := by
  rw [T_eq m t m le_rfl]
  have h := add_pow (1 - t) t m
  simp only [sub_add_cancel, one_pow] at h
  refine Eq.trans ?_ h.symm
  apply sum_congr rfl
  intro i hi
  have him : i ≤ m := by simp at hi; omega
  rw [W, B_eq m (m - i) (Nat.sub_le _ _), P_eq, P_eq, Nat.choose_symm him]
  ring

/-- axiom [binomialPositive] -/
theorem binomialPositive (m j : ℕ) (h : j ≤ m) : 0 ≤ B m j := by
  rw [B_eq m j h]; positivity

/-- axiom [binomialLast] -/
theorem binomialLast (m : ℕ) : B m m = 1 := by
  rw [B_eq m m le_rfl]; simp

/-- axiom [powerPositive] -/
theorem powerPositive (t : ℝ) (j : ℕ) (h : 0 ≤ t) : 0 ≤ P t j := by
  rw [P_eq]; positivity

/-- axiom [powerZero] -/
theorem powerZero (t : ℝ) : P t 0 = 1 := rfl

/-- axiom [powerOfOne] -/
theorem powerOfOne (j : ℕ) : P 1 j = 1 := by
  rw [P_eq]; simp

/-- axiom [powerOfZero] -/
theorem powerOfZero (j : ℕ) (h : 1 ≤ j) : P 0 j = 0 := by
  rw [P_eq]; exact zero_pow (by omega)
