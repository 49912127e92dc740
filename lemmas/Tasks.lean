/-
Tasks with an upwind relation: what the per-step contracts of a traversal or a schedule give for whole runs.
`up u t`: task u is upwind of task t.
-/
namespace Tasks
variable {T : Type}

/-- What the contract of one step allows: a task not taken before, all of its upwind tasks taken. Latest first. -/
inductive Run (up : T → T → Prop) : List T → Prop
  | nil : Run up []
  | take {h t} : Run up h → t ∉ h → (∀ u, up u t → u ∈ h) → Run up (t :: h)

/-- Each task at most once. -/
theorem once {up : T → T → Prop} {h : List T} (r : Run up h) : h.Nodup := by
  induction r with
  | nil => exact List.nodup_nil
  | take _ ht _ ih => exact List.nodup_cons.mpr ⟨ht, ih⟩

/-- Whatever was taken, its upwind tasks were taken earlier. -/
theorem after {up : T → T → Prop} (l : List T) {t : T} {r : List T} (h : Run up (l ++ t :: r)) : ∀ u, up u t → u ∈ r := by
  induction l with
  | nil => cases h with | take _ _ hu => exact hu
  | cons a l ih => cases h with | take h _ _ => exact ih h

theorem closed {up : T → T → Prop} {h : List T} (r : Run up h) : ∀ t, t ∈ h → ∀ u, up u t → u ∈ h := by
  induction r with
  | nil => intro t ht; cases ht
  | @take h t _ _ hu ih =>
    intro s hs u us
    cases hs with
    | head => exact List.mem_cons_of_mem _ (hu u us)
    | tail _ hs => exact List.mem_cons_of_mem _ (ih s hs u us)

/-- In an acyclic relation, as long as a task is missing there is one whose upwind tasks are all there. -/
theorem ready {up : T → T → Prop} (wf : WellFounded up) (h : T → Prop) (t : T) (ht : ¬ h t) :
    ∃ s, ¬ h s ∧ ∀ u, up u s → h u := by
  induction t using wf.induction with
  | _ t ih =>
    by_cases hu : ∀ u, up u t → h u
    · exact ⟨t, ht, hu⟩
    · have ⟨u, hu⟩ := Classical.not_forall.mp hu
      have ⟨hut, hnu⟩ := Classical.not_imp.mp hu
      exact ih u hut hnu

/-! ### Ranks and messages: the state of all ranks together.
`taken` tasks; `heard` dependencies (u, t) the rank of t has been told of (by its own step or by a packet). -/

structure State (T : Type) where
  taken : List T
  heard : List (T × T)

/-- One move of some rank: take a task of which everything awaited has been heard; or a packet arrives that was sent when its task was taken. -/
inductive Move (up : T → T → Prop) : State T → State T → Prop
  | take {s t} : t ∉ s.taken → (∀ u, up u t → (u, t) ∈ s.heard) → Move up s ⟨t :: s.taken, s.heard⟩
  | hear {s u t} : up u t → u ∈ s.taken → (u, t) ∉ s.heard → Move up s ⟨s.taken, (u, t) :: s.heard⟩

inductive Moves (up : T → T → Prop) : State T → Nat → Prop
  | start : Moves up ⟨[], []⟩ 0
  | move {s t n} : Moves up s n → Move up s t → Moves up t (n + 1)

/-- What was heard was taken. -/
theorem heard_taken {up : T → T → Prop} {s : State T} {n : Nat} (m : Moves up s n) : ∀ u t, (u, t) ∈ s.heard → up u t ∧ u ∈ s.taken := by
  induction m with
  | start => intro u t h; cases h
  | move _ mv ih =>
    cases mv with
    | take _ _ =>
      intro u t h
      exact ⟨(ih u t h).1, List.mem_cons_of_mem _ (ih u t h).2⟩
    | hear hu ht _ =>
      intro u t h
      cases h with
      | head => exact ⟨hu, ht⟩
      | tail _ h => exact ih u t h

/-- The tasks taken by all ranks, in their order, are a run: once each, after their upwind tasks on any rank. -/
theorem moves_run {up : T → T → Prop} {s : State T} {n : Nat} (m : Moves up s n) : Run up s.taken := by
  induction m with
  | start => exact Run.nil
  | move m mv ih =>
    cases mv with
    | take ht hu => exact Run.take ih ht (fun u us => (heard_taken m u _ (hu u us)).2)
    | hear _ _ _ => exact ih

/-- No deadlock: when no rank can move and the relation is acyclic, every task has been taken. -/
theorem stuck_is_complete {up : T → T → Prop} (wf : WellFounded up) {s : State T}
    (stuck : ∀ s', ¬ Move up s s') : ∀ t, t ∈ s.taken := by
  intro t
  by_cases ht : t ∈ s.taken
  · exact ht
  · have ⟨x, hx, hu⟩ := ready wf (fun x => x ∈ s.taken) t ht
    exfalso
    by_cases hh : ∀ u, up u x → (u, x) ∈ s.heard
    · exact stuck _ (Move.take hx hh)
    · have ⟨u, hu'⟩ := Classical.not_forall.mp hh
      have ⟨hux, hn⟩ := Classical.not_imp.mp hu'
      exact stuck _ (Move.hear hux (hu u hux) hn)

/-- A list without repetition of elements of another is not longer. -/
theorem length_le {A : Type} : ∀ (l k : List A), l.Nodup → (∀ x, x ∈ l → x ∈ k) → l.length ≤ k.length := by
  intro l
  induction l with
  | nil => intro k _ _; exact Nat.zero_le _
  | cons a l ih =>
    intro k hd hs
    have ha := hs a (List.mem_cons_self)
    obtain ⟨x, y, e⟩ := List.append_of_mem ha
    subst e
    have hn := List.nodup_cons.mp hd
    have := ih (x ++ y) hn.2 (by
      intro z hz
      have hk := hs z (List.mem_cons_of_mem _ hz)
      have hne : z ≠ a := fun e => hn.1 (e ▸ hz)
      simp only [List.mem_append, List.mem_cons] at hk ⊢
      cases hk with
      | inl h => exact Or.inl h
      | inr h => cases h with
        | inl h => exact absurd h hne
        | inr h => exact Or.inr h)
    simp only [List.length_append, List.length_cons] at this ⊢
    omega

/-- Termination: with finitely many tasks and dependencies there are at most as many moves as there are of both. -/
theorem bounded {up : T → T → Prop} (tasks : List T) (deps : List (T × T)) (ht : ∀ t, t ∈ tasks)
    (hd : ∀ u t, up u t → (u, t) ∈ deps) {s : State T} {n : Nat} (m : Moves up s n) : n ≤ tasks.length + deps.length := by
  have key : n = s.taken.length + s.heard.length ∧ s.heard.Nodup := by
    induction m with
    | start => exact ⟨rfl, List.nodup_nil⟩
    | move _ mv ih =>
      cases mv with
      | take _ _ => simp only [List.length_cons]; exact ⟨by omega, ih.2⟩
      | hear _ _ hn => simp only [List.length_cons]; exact ⟨by omega, List.nodup_cons.mpr ⟨hn, ih.2⟩⟩
  have h1 := length_le s.taken tasks (once (moves_run m)) (fun x _ => ht x)
  have h2 := length_le s.heard deps key.2 (fun x hx => hd x.1 x.2 (heard_taken m x.1 x.2 hx).1)
  omega

/-! ### A schedule: a step number for every task, larger than those of its upwind tasks. -/

/-- Going through the steps in order is a run, in whatever order the tasks of a step are done. -/
theorem schedule_run {up : T → T → Prop} (step : T → Nat) (lt : ∀ u t, up u t → step u < step t) (all : List T)
    (dup : all.Nodup) (sorted : all.Pairwise (fun later earlier => step earlier ≤ step later)) (mem : ∀ t, t ∈ all → ∀ u, up u t → u ∈ all) :
    Run up all := by
  induction all with
  | nil => exact Run.nil
  | cons t l ih =>
    have hd := List.nodup_cons.mp dup
    have hs := List.pairwise_cons.mp sorted
    have up_in : ∀ s, (s = t ∨ s ∈ l) → ∀ u, up u s → u ∈ l := by
      intro s hs' u hu
      have hlt := lt u s hu
      have hm := mem s (by cases hs' with
        | inl e => exact e ▸ List.mem_cons_self
        | inr h => exact List.mem_cons_of_mem _ h) u hu
      cases hm with
      | head =>
        cases hs' with
        | inl e => subst e; omega
        | inr h => have := hs.1 s h; omega
      | tail _ h => exact h
    refine Run.take (ih hd.2 hs.2 ?_) hd.1 ?_
    · intro s hs' u hu; exact up_in s (Or.inr hs') u hu
    · intro u hu; exact up_in t (Or.inl rfl) u hu

/-- Such step numbers exclude cycles. -/
theorem schedule_acyclic {up : T → T → Prop} (step : T → Nat) (lt : ∀ u t, up u t → step u < step t) : WellFounded up :=
  Subrelation.wf (fun {u t} h => lt u t h) (measure step).wf

/-! ### Values -/
variable {V : Type}

/-- The value of a task is a function of those of its upwind tasks. -/
def Local (up : T → T → Prop) (F : T → (T → V) → V) : Prop :=
  ∀ t x y, (∀ u, up u t → x u = y u) → F t x = F t y

/-- The equations have at most one solution. -/
theorem unique {up : T → T → Prop} (wf : WellFounded up) (F : T → (T → V) → V) (loc : Local up F) (x y : T → V)
    (hx : ∀ t, x t = F t x) (hy : ∀ t, y t = F t y) : ∀ t, x t = y t := by
  intro t
  induction t using wf.induction with
  | _ t ih => rw [hx t, hy t]; exact loc t x y ih

/-- Storing the value of each task as it is taken. -/
noncomputable def eval (F : T → (T → V) → V) (x0 : T → V) : List T → T → V
  | [] => x0
  | t :: h => fun s => @ite _ (s = t) (Classical.propDecidable _) (F t (eval F x0 h)) (eval F x0 h s)

/-- A run solves the equation of every task it took, whatever was stored before. -/
theorem run_solves {up : T → T → Prop} (F : T → (T → V) → V) (loc : Local up F) (x0 : T → V) {h : List T} (r : Run up h) :
    ∀ t, t ∈ h → eval F x0 h t = F t (eval F x0 h) := by
  induction r with
  | nil => intro t ht; cases ht
  | @take h t r hn hu ih =>
    have same : ∀ u, u ∈ h → eval F x0 (t :: h) u = eval F x0 h u := by
      intro u hm
      have : u ≠ t := fun e => hn (e ▸ hm)
      simp [eval, this]
    intro s hs
    by_cases e : s = t
    · subst e
      have : eval F x0 (s :: h) s = F s (eval F x0 h) := by simp [eval]
      rw [this]
      exact loc s _ _ (fun u us => (same u (hu u us)).symm)
    · have hm : s ∈ h := by
        cases hs with
        | head => exact absurd rfl e
        | tail _ h => exact h
      rw [same s hm, ih s hm]
      exact loc s _ _ (fun u us => (same u (closed r s hm u us)).symm)

/-- All complete runs, of whatever order, from whatever contents, store the same: the solution. -/
theorem one_result {up : T → T → Prop} (wf : WellFounded up) (F : T → (T → V) → V) (loc : Local up F) (x0 y0 : T → V)
    {h k : List T} (rh : Run up h) (rk : Run up k) (ah : ∀ t, t ∈ h) (ak : ∀ t, t ∈ k) :
    ∀ t, eval F x0 h t = eval F y0 k t :=
  unique wf F loc _ _ (fun t => run_solves F loc x0 rh t (ah t)) (fun t => run_solves F loc y0 rk t (ak t))

/-! ### Races -/

/-- An access: thread, place, and whether it obeys the discipline (owned by its thread, or under the lock of the place). If an
execution that has been free of races so far only makes disciplined accesses, and disciplined accesses do not race with each other, no
execution has a race. `conflict a b`: the two accesses race. -/
theorem no_first_race {A : Type} (disciplined : A → Prop) (conflict : A → A → Prop) (possible : List A → Prop)
    (prefix_closed : ∀ a p, possible (a :: p) → possible p)
    (no_conflict : ∀ a b, disciplined a → disciplined b → ¬ conflict a b)
    (next : ∀ a p, possible (a :: p) → (p.Pairwise fun x y => ¬ conflict x y) → (∀ x, x ∈ p → disciplined x) → disciplined a) :
    ∀ p, possible p → (p.Pairwise fun x y => ¬ conflict x y) ∧ ∀ x, x ∈ p → disciplined x := by
  intro p
  induction p with
  | nil => intro _; exact ⟨List.Pairwise.nil, by intro x hx; cases hx⟩
  | cons a p ih =>
    intro hp
    have ⟨h1, h2⟩ := ih (prefix_closed a p hp)
    have ha := next a p hp h1 h2
    refine ⟨List.pairwise_cons.mpr ⟨fun b hb => no_conflict a b ha (h2 b hb), h1⟩, ?_⟩
    intro x hx
    cases hx with
    | head => exact ha
    | tail _ hx => exact h2 x hx

end Tasks
