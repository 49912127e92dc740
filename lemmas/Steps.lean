/-
What a contract script takes from one arbitrary iteration to the whole loop, stated without reference to any code.
A script discharges the hypotheses (obligations over the real code); these theorems give the conclusion.
-/
namespace Steps

/-- Executions of a loop: the states at the head, one after the other. -/
inductive Exec {S : Type} (step : S → S → Prop) : S → List (S × S) → S → Prop
  | stop {s} : Exec step s [] s
  | next {s t u l} : step s t → Exec step t l u → Exec step s ((s, t) :: l) u

/-- Metatheorem 1. An invariant that holds at first and is kept by one arbitrary iteration holds at the end, and what one
arbitrary iteration is shown to do from a state of the invariant, every iteration does. -/
theorem arbitrary_iteration {S : Type} (step : S → S → Prop) (Inv : S → Prop) (Does : S → S → Prop)
    (keeps : ∀ s t, Inv s → step s t → Inv t) (does : ∀ s t, Inv s → step s t → Does s t) :
    ∀ {s l u}, Inv s → Exec step s l u → Inv u ∧ ∀ p, p ∈ l → Does p.1 p.2 := by
  intro s l u hs he
  induction he with
  | stop => exact ⟨hs, by intro p hp; cases hp⟩
  | @next s t u l hst he ih =>
    have ht := keeps s t hs hst
    refine ⟨(ih ht).1, ?_⟩
    intro p hp
    cases hp with
    | head => exact does s t hs hst
    | tail _ hp => exact (ih ht).2 p hp

/-- An event that every step logs exactly when it happens: the log is the list of the events of the steps. -/
theorem counter_counts {S : Type} (step : S → S → Prop) (n : S → Nat) (inc : ∀ s t, step s t → n t = n s + 1) :
    ∀ {s l u}, Exec step s l u → n u = n s + l.length := by
  intro s l u he
  induction he with
  | stop => simp
  | next hst _ ih => have := inc _ _ hst; simp only [List.length_cons]; omega

/-- One store. -/
def store {A V : Type} [DecidableEq A] (m : A → V) (a : A) (v : V) : A → V := fun b => if b = a then v else m b

/-- A loop over `n` rows that stores `F i` at `addr i`. -/
def rows {A V : Type} [DecidableEq A] (addr : Nat → A) (F : Nat → V) (m : A → V) : Nat → A → V
  | 0 => m
  | n + 1 => store (rows addr F m n) (addr n) (F n)

theorem rows_other {A V : Type} [DecidableEq A] (addr : Nat → A) (F : Nat → V) (m : A → V) (n : Nat) (a : A)
    (h : ∀ i, i < n → addr i ≠ a) : rows addr F m n a = m a := by
  induction n with
  | zero => rfl
  | succ n ih =>
    have hn : a ≠ addr n := fun e => h n (Nat.lt_succ_self n) e.symm
    simp only [rows, store, hn, if_false]
    exact ih (fun i hi => h i (Nat.lt_succ_of_lt hi))

/-- Metatheorem 2. Distinct addresses: afterwards the table holds F. -/
theorem rowwise {A V : Type} [DecidableEq A] (addr : Nat → A) (F : Nat → V) (m : A → V) (n : Nat)
    (inj : ∀ i j, i < n → j < n → addr i = addr j → i = j) : ∀ i, i < n → rows addr F m n (addr i) = F i := by
  induction n with
  | zero => intro i hi; omega
  | succ n ih =>
    intro i hi
    by_cases e : i = n
    · subst e; simp [rows, store]
    · have hin : i < n := by omega
      have hne : addr i ≠ addr n := fun h => e (inj i n hi (Nat.lt_succ_self n) h)
      simp only [rows, store, hne, if_false]
      exact ih (fun a b ha hb => inj a b (Nat.lt_succ_of_lt ha) (Nat.lt_succ_of_lt hb)) i hin

/-- Sum of the first n. -/
def psum (w : Nat → Nat) : Nat → Nat
  | 0 => 0
  | n + 1 => psum w n + w n

theorem psum_mono (w : Nat → Nat) {i j : Nat} (h : i ≤ j) : psum w i ≤ psum w j := by
  induction h with
  | refl => exact Nat.le_refl _
  | step _ ih => exact Nat.le_trans ih (Nat.le_add_right _ _)

/-- Records of a stream one after the other: each ends before a later one begins. -/
theorem prefix_disjoint (w : Nat → Nat) {i j : Nat} (h : i < j) : psum w i + w i ≤ psum w j :=
  psum_mono w (i := i + 1) h

/-- Consecutive ranges [b i, b (i+1)) with boundaries that do not decrease: an earlier range ends before a later one begins. -/
theorem ranges_disjoint (b : Nat → Nat) (n : Nat) (h : ∀ i, i < n → b i ≤ b (i + 1)) {i j : Nat} (hij : i < j) (hj : j ≤ n) : b (i + 1) ≤ b j := by
  induction j with
  | zero => omega
  | succ j ih =>
    by_cases e : i = j
    · subst e; exact Nat.le_refl _
    · exact Nat.le_trans (ih (by omega) (by omega)) (h j (by omega))

/-- Metatheorem 3. Two nested loops that advance a cursor by `w i j`: positions are ordered like the iterations. -/
theorem lexicographic (m : Nat → Nat) (w : Nat → Nat → Nat) {i j i' j' : Nat} (hj : j < m i)
    (h : i < i' ∨ (i = i' ∧ j < j')) :
    (psum (fun k => psum (w k) (m k)) i + psum (w i) j) + w i j ≤ psum (fun k => psum (w k) (m k)) i' + psum (w i') j' := by
  cases h with
  | inl h =>
    have h1 := prefix_disjoint (fun k => psum (w k) (m k)) h
    have h2 := prefix_disjoint (w i) hj
    omega
  | inr h =>
    obtain ⟨e, h⟩ := h
    subst e
    have h2 := prefix_disjoint (w i) h
    omega

/-- A list of `n` entries of which some are kept, a code below `m` for each, different codes for different entries kept: the kept ones,
stored one after the other, fit in `m` places. -/
theorem kept_entries_fit (kept : Nat → Bool) (code : Nat → Nat) :
    ∀ (n m : Nat), (∀ i, i < n → kept i = true → code i < m) →
      (∀ i j, i < n → j < n → kept i = true → kept j = true → code i = code j → i = j) →
      psum (fun i => if kept i then 1 else 0) n ≤ m := by
  intro n
  induction n generalizing code with
  | zero => intro m _ _; exact Nat.zero_le _
  | succ n ih =>
    intro m hc hi
    by_cases hk : kept n = true
    · have hn := hc n (Nat.lt_succ_self n) hk
      have hm : m = (m - 1) + 1 := by omega
      -- entry n gives up its code: the code m - 1, if used, moves there
      have := ih (fun i => if code i = m - 1 then code n else code i) (m - 1) (by
        intro i hin hki
        have h1 := hc i (by omega) hki
        have h2 : code i ≠ code n := fun e => by have := hi i n (by omega) (by omega) hki hk e; omega
        by_cases e : code i = m - 1
        · simp only [e, if_true]; omega
        · simp only [e, if_false]; omega) (by
        intro i j hin hjn hki hkj h
        have hin' : code i ≠ code n := fun e => by have := hi i n (by omega) (by omega) hki hk e; omega
        have hjn' : code j ≠ code n := fun e => by have := hi j n (by omega) (by omega) hkj hk e; omega
        apply hi i j (by omega) (by omega) hki hkj
        by_cases e : code i = m - 1
        · by_cases e' : code j = m - 1
          · rw [e, e']
          · simp only [e, e', if_true, if_false] at h; exact absurd h.symm hjn'
        · by_cases e' : code j = m - 1
          · simp only [e, e', if_true, if_false] at h; exact absurd h hin'
          · simp only [e, e', if_false] at h; exact h)
      simp only [psum, hk, if_true]
      omega
    · have := ih code m (fun i h => hc i (by omega)) (fun i j h h' => hi i j (by omega) (by omega))
      simp only [psum, hk]
      simpa using this

/-- Metatheorem 4. A set built by insertions holds what some iteration inserted. -/
def insertions {A : Type} (ins : Nat → A → Prop) (s : A → Prop) : Nat → A → Prop
  | 0 => s
  | n + 1 => fun x => insertions ins s n x ∨ ins n x

theorem union_of_insertions {A : Type} (ins : Nat → A → Prop) (s : A → Prop) (n : Nat) (x : A) :
    insertions ins s n x ↔ s x ∨ ∃ i, i < n ∧ ins i x := by
  induction n with
  | zero =>
    constructor
    · intro h; exact Or.inl h
    · intro h
      cases h with
      | inl h => exact h
      | inr h => obtain ⟨i, hi, _⟩ := h; omega
  | succ n ih =>
    constructor
    · intro h
      cases h with
      | inl h =>
        cases ih.mp h with
        | inl h => exact Or.inl h
        | inr h => obtain ⟨i, hi, hx⟩ := h; exact Or.inr ⟨i, by omega, hx⟩
      | inr h => exact Or.inr ⟨n, Nat.lt_succ_self n, h⟩
    · intro h
      cases h with
      | inl h => exact Or.inl (ih.mpr (Or.inl h))
      | inr h =>
        obtain ⟨i, hi, hx⟩ := h
        by_cases e : i = n
        · subst e; exact Or.inr hx
        · exact Or.inl (ih.mpr (Or.inr ⟨i, by omega, hx⟩))

end Steps
