/-
Background facts that the verifier uses as axioms (contracts/*.py, pyvc/solve.py), proved here.
A relation between nodes is r : ℤ → ℤ → Prop; reach r is its transitive closure; a set is ℤ → Prop.
The axioms name the witnesses of existential statements by functions (Skolem form).
Check: lake env lean Background.lean (or `lean` with Mathlib on its path); axioms used: propext, choice, Quot.sound.
-/
import Mathlib

open Relation

namespace Background

abbrev Rel := ℤ → ℤ → Prop
abbrev reach (r : Rel) := TransGen r

theorem reach_edge (r : Rel) (a b : ℤ) (h : r a b) : reach r a b := TransGen.single h

theorem reach_step (r : Rel) (a b c : ℤ) (h : r a c) (k : reach r c b) : reach r a b := TransGen.head h k

theorem reach_mono (r q : Rel) : (∃ x y, r x y ∧ ¬ q x y) ∨ ∀ a b, reach r a b → reach q a b := by
  by_cases h : ∃ x y, r x y ∧ ¬ q x y
  · exact Or.inl h
  · push Not at h
    exact Or.inr fun a b k => TransGen.mono h a b k

theorem reach_closed (r : Rel) (S : ℤ → Prop) : (∃ x y, S x ∧ r x y ∧ ¬ S y) ∨
    ∀ b, (∃ w, S w ∧ r w b) ∨ ∀ a, S a → ¬ reach r a b := by
  by_cases h : ∃ x y, S x ∧ r x y ∧ ¬ S y
  · exact Or.inl h
  · push Not at h
    refine Or.inr fun b => ?_
    by_cases w : ∃ w, S w ∧ r w b
    · exact Or.inl w
    · refine Or.inr fun a ha k => ?_
      have all : ∀ c, ReflTransGen r a c → S c := by
        intro c hc
        induction hc with
        | refl => exact ha
        | tail _ e ih => exact h _ _ ih e
      obtain ⟨c, hc, e⟩ := (TransGen.tail'_iff).1 k
      exact w ⟨c, all c hc, e⟩

theorem reach_add (r q : Rel) (u v : ℤ) : u = v ∨ reach r v u ∨ (∃ x y, q x y ∧ ¬ r x y ∧ ¬ (x = u ∧ y = v)) ∨
    ∀ a, reach q a a → reach r a a := by
  by_cases huv : u = v
  · exact Or.inl huv
  by_cases hvu : reach r v u
  · exact Or.inr (Or.inl hvu)
  by_cases h : ∃ x y, q x y ∧ ¬ r x y ∧ ¬ (x = u ∧ y = v)
  · exact Or.inr (Or.inr (Or.inl h))
  refine Or.inr (Or.inr (Or.inr fun a ha => ?_))
  push Not at h
  have no : ¬ ReflTransGen r v u := by
    intro k
    rcases (reflTransGen_iff_eq_or_transGen).1 k with k | k
    · exact huv k
    · exact hvu k
  have key : ∀ x y, reach q x y → reach r x y ∨ (ReflTransGen r x u ∧ ReflTransGen r v y) := by
    intro x y k
    induction k with
    | single e =>
      rename_i b
      by_cases g : r x b
      · exact Or.inl (TransGen.single g)
      · obtain ⟨rfl, rfl⟩ := h _ _ e g
        exact Or.inr ⟨ReflTransGen.refl, ReflTransGen.refl⟩
    | tail _ e ih =>
      rename_i b c _
      by_cases g : r b c
      · rcases ih with ih | ih
        · exact Or.inl (TransGen.tail ih g)
        · exact Or.inr ⟨ih.1, ReflTransGen.tail ih.2 g⟩
      · obtain ⟨rfl, rfl⟩ := h _ _ e g
        rcases ih with ih | ih
        · exact Or.inr ⟨ih.to_reflTransGen, ReflTransGen.refl⟩
        · exact absurd ih.2 no
  rcases key a a ha with k | k
  · exact k
  · exact absurd (k.2.trans k.1) no

theorem reach_up (r : Rel) : (∃ x y, r x y ∧ x ≥ y) ∨ ∀ a, ¬ reach r a a := by
  by_cases h : ∃ x y, r x y ∧ x ≥ y
  · exact Or.inl h
  · push Not at h
    refine Or.inr fun a k => ?_
    have : ∀ x y, reach r x y → x < y := by
      intro x y k
      induction k with
      | single e => exact h _ _ e
      | tail _ e ih => exact ih.trans (h _ _ e)
    exact lt_irrefl _ (this a a k)

theorem acyclic_source (r : Rel) (l : ℤ → ℤ) (n : ℤ) : n ≤ 0 ∨ (∃ c, reach r c c) ∨
    ∃ m, 0 ≤ m ∧ m < n ∧ ∀ j, 0 ≤ j → j < n → ¬ r (l j) (l m) := by
  by_cases hn : n ≤ 0
  · exact Or.inl hn
  by_cases hc : ∃ c, reach r c c
  · exact Or.inr (Or.inl hc)
  push Not at hn hc
  refine Or.inr (Or.inr ?_)
  let q : Fin n.toNat → Fin n.toNat → Prop := fun i j => reach r (l i) (l j)
  have : IsTrans (Fin n.toNat) q := ⟨fun _ _ _ h k => TransGen.trans h k⟩
  have : Std.Irrefl q := ⟨fun i => hc (l i)⟩
  have wf : WellFounded q := Finite.wellFounded_of_trans_of_irrefl q
  have pos : 0 < n.toNat := by omega
  obtain ⟨m, -, hm⟩ := wf.has_min Set.univ ⟨⟨0, pos⟩, trivial⟩
  refine ⟨m, by omega, by omega, fun j h0 h1 e => ?_⟩
  have := hm ⟨j.toNat, by omega⟩ trivial
  apply this
  have hj : ((j.toNat : ℕ) : ℤ) = j := by omega
  show reach r (l ((j.toNat : ℕ) : ℤ)) (l m)
  rw [hj]
  exact TransGen.single e

/-! connectedness: links count in either direction -/
def connected (ns : ℤ → Prop) (r : Rel) := ∀ a b, ns a → ns b → EqvGen r a b

theorem conn_mono (ns : ℤ → Prop) (r q : Rel) : (∃ x y, r x y ∧ ¬ q x y ∧ ¬ q y x) ∨ (connected ns r → connected ns q) := by
  by_cases h : ∃ x y, r x y ∧ ¬ q x y ∧ ¬ q y x
  · exact Or.inl h
  · push Not at h
    refine Or.inr fun c a b ha hb => ?_
    have := c a b ha hb
    clear ha hb
    induction this with
    | rel x y e =>
      by_cases g : q x y
      · exact EqvGen.rel _ _ g
      · exact EqvGen.symm _ _ (EqvGen.rel _ _ (h x y e g))
    | refl x => exact EqvGen.refl x
    | symm x y _ ih => exact EqvGen.symm _ _ ih
    | trans x y z _ _ ih1 ih2 => exact EqvGen.trans _ _ _ ih1 ih2

theorem conn_chain (ns : ℤ → Prop) (r : Rel) (n : ℤ) :
    (∃ x, (ns x ∧ ¬ (0 ≤ x ∧ x < n)) ∨ (0 ≤ x ∧ x + 1 < n ∧ ¬ r x (x + 1))) ∨ connected ns r := by
  by_cases h : ∃ x, (ns x ∧ ¬ (0 ≤ x ∧ x < n)) ∨ (0 ≤ x ∧ x + 1 < n ∧ ¬ r x (x + 1))
  · exact Or.inl h
  · push Not at h
    refine Or.inr fun a b ha hb => ?_
    have up : ∀ k : ℕ, (k : ℤ) < n → EqvGen r 0 k := by
      intro k
      induction k with
      | zero => intro _; exact EqvGen.refl _
      | succ k ih =>
        intro hk
        push_cast at hk ⊢
        exact EqvGen.trans _ _ _ (ih (by omega)) (EqvGen.rel _ _ ((h k).2 (by omega) hk))
    have all : ∀ x, ns x → EqvGen r 0 x := by
      intro x hx
      have := (h x).1 hx
      have k := up x.toNat (by omega)
      have e : ((x.toNat : ℕ) : ℤ) = x := by omega
      rwa [e] at k
    exact EqvGen.trans _ _ _ (EqvGen.symm _ _ (all a ha)) (all b hb)

/-! number of arcs of a finite relation -/
theorem arcs_put (A : Finset (ℤ × ℤ)) (a b : ℤ) :
    (insert (a, b) A).card = A.card + (if (a, b) ∈ A then 0 else 1) ∧
    ((A.erase (a, b)).card : ℤ) = A.card - (if (a, b) ∈ A then 1 else 0) := by
  constructor
  · by_cases h : (a, b) ∈ A <;> simp [h]
  · by_cases h : (a, b) ∈ A
    · have := Finset.card_pos.2 ⟨_, h⟩
      simp [h, Finset.card_erase_of_mem h]
      omega
    · simp [h]

/-! a connected graph on 0, .., n-1 with n - 1 arcs has no directed cycle -/
noncomputable def vec (p : ℤ × ℤ) : ℤ →₀ ℚ := Finsupp.single p.2 1 - Finsupp.single p.1 1

theorem tree_acyclic (n : ℕ) (A : Finset (ℤ × ℤ)) (hA : A.card + 1 = n)
    (hc : connected (fun x => 0 ≤ x ∧ x < (n : ℤ)) (fun x y => (x, y) ∈ A)) (a : ℤ) :
    ¬ reach (fun x y => (x, y) ∈ A) a a := by
  intro cyc
  let f : A → (ℤ →₀ ℚ) := fun p => vec p.1
  have mem : ∀ x y, EqvGen (fun x y => (x, y) ∈ A) x y → vec (x, y) ∈ Submodule.span ℚ (Set.range f) := by
    intro x y h
    induction h with
    | rel x y e => exact Submodule.subset_span ⟨⟨(x, y), e⟩, rfl⟩
    | refl x => simp [vec]
    | symm x y _ ih =>
      have : vec (y, x) = - vec (x, y) := by simp [vec]
      rw [this]
      exact Submodule.neg_mem _ ih
    | trans x y z _ _ ih1 ih2 =>
      have : vec (x, z) = vec (x, y) + vec (y, z) := by simp [vec]
      rw [this]
      exact Submodule.add_mem _ ih1 ih2
  let g : Fin A.card → (ℤ →₀ ℚ) := fun i => vec (0, (i : ℤ) + 1)
  have gl : LinearIndependent ℚ g := by
    rw [Fintype.linearIndependent_iff]
    intro c h i
    have := DFunLike.congr_fun h ((i : ℤ) + 1)
    simp only [g, vec, Finsupp.coe_finsetSum, Finset.sum_apply, Finsupp.smul_apply, Finsupp.sub_apply, smul_eq_mul] at this
    rw [Finset.sum_eq_single i] at this
    · have z : (0 : ℤ) ≠ (i : ℤ) + 1 := by positivity
      simpa [Finsupp.single_apply, z] using this
    · intro j _ hj
      have z : (0 : ℤ) ≠ (i : ℤ) + 1 := by positivity
      have w : (j : ℤ) ≠ (i : ℤ) := by
        intro e
        exact hj (Fin.ext (by exact_mod_cast e))
      simp [Finsupp.single_apply, z, w]
    · simp
  have hfin : A.card ≤ (Set.range f).finrank ℚ := by
    have hle : Submodule.span ℚ (Set.range g) ≤ Submodule.span ℚ (Set.range f) := by
      rw [Submodule.span_le]
      rintro _ ⟨i, rfl⟩
      refine mem _ _ (hc _ _ ⟨le_refl _, by omega⟩ ⟨by positivity, ?_⟩)
      have := i.2
      omega
    have e := finrank_span_eq_card gl
    rw [Fintype.card_fin] at e
    have : FiniteDimensional ℚ (Submodule.span ℚ (Set.range f)) := FiniteDimensional.span_of_finite ℚ (Set.finite_range f)
    have := Submodule.finrank_mono hle
    rw [e] at this
    exact this
  have fl : LinearIndependent ℚ f := by
    rw [linearIndependent_iff_card_le_finrank_span]
    simpa using hfin
  have comb : ∀ x y, reach (fun x y => (x, y) ∈ A) x y →
      ∃ c : A → ℚ, (∀ i, 0 ≤ c i) ∧ (∃ i, 0 < c i) ∧ ∑ i, c i • f i = vec (x, y) := by
    intro x y h
    induction h with
    | single e =>
      rename_i b
      refine ⟨Pi.single ⟨(x, b), e⟩ 1, fun i => ?_, ⟨⟨(x, b), e⟩, by simp⟩, ?_⟩
      · by_cases hi : i = ⟨(x, b), e⟩
        · subst hi; simp
        · simp [hi]
      · rw [Finset.sum_eq_single ⟨(x, b), e⟩]
        · simp [f]
        · intro j _ hj; simp [hj]
        · simp
    | tail _ e ih =>
      rename_i b d _
      obtain ⟨c, h0, ⟨i, hi⟩, hs⟩ := ih
      refine ⟨c + Pi.single ⟨(b, d), e⟩ 1, fun j => ?_, ⟨i, ?_⟩, ?_⟩
      · have : 0 ≤ (Pi.single (⟨(b, d), e⟩ : A) (1 : ℚ) : A → ℚ) j := by
          by_cases hj : j = ⟨(b, d), e⟩
          · subst hj; simp
          · simp [hj]
        simp only [Pi.add_apply]
        exact add_nonneg (h0 j) this
      · have : 0 ≤ (Pi.single (⟨(b, d), e⟩ : A) (1 : ℚ) : A → ℚ) i := by
          by_cases hj : i = ⟨(b, d), e⟩
          · subst hj; simp
          · simp [hj]
        simp only [Pi.add_apply]
        exact add_pos_of_pos_of_nonneg hi this
      · simp only [Pi.add_apply, add_smul, Finset.sum_add_distrib]
        rw [hs, Finset.sum_eq_single (⟨(b, d), e⟩ : A)]
        · simp [f, vec]
        · intro j _ hj; simp [hj]
        · simp
  obtain ⟨c, -, ⟨i, hi⟩, hs⟩ := comb a a cyc
  have z : vec (a, a) = 0 := by simp [vec]
  rw [z] at hs
  have := Fintype.linearIndependent_iff.1 fl c hs i
  rw [this] at hi
  exact lt_irrefl _ hi

/-! forests: links are symmetric; cycles of the graph of the links -/
def graph (r : Rel) : SimpleGraph ℤ := SimpleGraph.fromRel r
def forest (r : Rel) := (graph r).IsAcyclic

theorem forest_empty (r : Rel) : (∃ x y, r x y) ∨ forest r := by
  by_cases h : ∃ x y, r x y
  · exact Or.inl h
  · push Not at h
    refine Or.inr ?_
    have : graph r = ⊥ := by
      ext x y
      simp [graph, h]
    rw [forest, this]
    exact SimpleGraph.isAcyclic_bot

theorem reach_of_reachable (r : Rel) (hs : ∀ x y, r x y → r y x) (x y : ℤ) (h : (graph r).Reachable x y) :
    x = y ∨ reach r x y := by
  obtain ⟨p⟩ := h
  induction p with
  | nil => exact Or.inl rfl
  | cons e _ ih =>
    rename_i a b c _
    right
    have e' : r a b := by
      have := e
      simp only [graph, SimpleGraph.fromRel_adj] at this
      rcases this.2 with k | k
      · exact k
      · exact hs _ _ k
    rcases ih with rfl | ih
    · exact TransGen.single e'
    · exact TransGen.head e' ih

theorem forest_add (r q : Rel) (u v s : ℤ) (hf : forest r) (hr : ¬ reach r u v) (huv : u ≠ v)
    (iso : ∀ x, ¬ r s x) (su : s ≠ u) (sv : s ≠ v) (sym : ∀ x y, r x y → r y x)
    (hq : ∀ x y, q x y → r x y ∨ (x = u ∧ y = s) ∨ (x = s ∧ y = u) ∨ (x = v ∧ y = s) ∨ (x = s ∧ y = v)) : forest q := by
  have siso : ∀ x, (graph r).Reachable s x → x = s := by
    intro x h
    rcases reach_of_reachable r sym s x h with k | k
    · exact k.symm
    · obtain ⟨c, e, -⟩ := (TransGen.head'_iff).1 k
      exact absurd e (iso c)
  have n1 : ¬ (graph r).Reachable u s := fun h => su (siso u h.symm).symm
  have f1 := hf.sup_edge_of_not_reachable n1
  have n2 : ¬ (graph r ⊔ SimpleGraph.edge u s).Reachable v s := by
    have all : ∀ x, (graph r ⊔ SimpleGraph.edge u s).Reachable v x → (graph r).Reachable v x := by
      intro x h
      rw [SimpleGraph.reachable_iff_reflTransGen] at h
      induction h with
      | refl => exact SimpleGraph.Reachable.refl _
      | tail _ e ih =>
        rename_i b c _
        rw [SimpleGraph.sup_adj] at e
        rcases e with e | e
        · exact ih.trans e.reachable
        · rw [SimpleGraph.edge_adj] at e
          rcases e.1 with ⟨rfl, rfl⟩ | ⟨rfl, rfl⟩
          · rcases reach_of_reachable r sym _ _ ih.symm with k | k
            · exact absurd k huv
            · exact absurd k hr
          · exact absurd (siso v ih.symm).symm sv
    intro h
    exact sv (siso v (all s h).symm).symm
  have f2 := f1.sup_edge_of_not_reachable n2
  refine SimpleGraph.IsAcyclic.anti ?_ f2
  have one : ∀ x y, x ≠ y → q x y → ((graph r ⊔ SimpleGraph.edge u s) ⊔ SimpleGraph.edge v s).Adj x y := by
    intro x y ne h
    rcases hq x y h with k | ⟨rfl, rfl⟩ | ⟨rfl, rfl⟩ | ⟨rfl, rfl⟩ | ⟨rfl, rfl⟩
    · exact Or.inl (Or.inl ((SimpleGraph.fromRel_adj _ _ _).2 ⟨ne, Or.inl k⟩))
    · exact Or.inl (Or.inr ((SimpleGraph.edge_adj _ _ _ _).2 ⟨Or.inl ⟨rfl, rfl⟩, ne⟩))
    · exact Or.inl (Or.inr ((SimpleGraph.edge_adj _ _ _ _).2 ⟨Or.inr ⟨rfl, rfl⟩, ne⟩))
    · exact Or.inr ((SimpleGraph.edge_adj _ _ _ _).2 ⟨Or.inl ⟨rfl, rfl⟩, ne⟩)
    · exact Or.inr ((SimpleGraph.edge_adj _ _ _ _).2 ⟨Or.inr ⟨rfl, rfl⟩, ne⟩)
  intro x y e
  rcases ((SimpleGraph.fromRel_adj _ _ _).1 e) with ⟨ne, k | k⟩
  · exact one x y ne k
  · exact (one y x ne.symm k).symm

/-! cutting q * s elements into pieces of s -/
theorem pieces (q s x : ℤ) (hs : 1 ≤ s) (hq : 1 ≤ q) (hx : x = q * s) : (x - 0 + s - 1) / s = q ∧ 1 ≤ x := by
  subst hx
  constructor
  · rw [show q * s - 0 + s - 1 = (s - 1) + q * s by ring, Int.add_mul_ediv_right _ _ (by omega : s ≠ 0), Int.ediv_eq_zero_of_lt (by omega) (by omega)]
    ring
  · nlinarith

theorem piece (q s x n : ℤ) (hs : 1 ≤ s) (hx : x = q * s) (h0 : 0 ≤ n) (h1 : n < q) : 0 ≤ n * s ∧ n * s + s ≤ x := by
  subst hx
  constructor <;> nlinarith

/-! finite sums, products and counts -/
noncomputable def S {K : Type} [CommRing K] (a : ℤ → K) (n : ℤ) : K := ∑ i ∈ Finset.range n.toNat, a i
noncomputable def P {K : Type} [CommRing K] (a : ℤ → K) (n : ℤ) : K := ∏ i ∈ Finset.range n.toNat, a i

theorem sum_nonpos {K : Type} [CommRing K] (a : ℤ → K) (n : ℤ) (h : n ≤ 0) : S a n = 0 := by
  simp [S, Int.toNat_of_nonpos h]

theorem sum_succ {K : Type} [CommRing K] (a : ℤ → K) (n : ℤ) (h : 0 ≤ n) : S a (n + 1) = S a n + a n := by
  have e : (n + 1).toNat = n.toNat + 1 := by omega
  have f : ((n.toNat : ℕ) : ℤ) = n := by omega
  rw [S, S, e, Finset.sum_range_succ, f]

theorem sum_ext {K : Type} [CommRing K] (a b : ℤ → K) (n : ℤ) : (∃ d, 0 ≤ d ∧ d < n ∧ a d ≠ b d) ∨ S a n = S b n := by
  by_cases h : ∃ d, 0 ≤ d ∧ d < n ∧ a d ≠ b d
  · exact Or.inl h
  · push Not at h
    refine Or.inr (Finset.sum_congr rfl fun i hi => h i (by omega) ?_)
    have := Finset.mem_range.1 hi
    omega

theorem prod_nonpos {K : Type} [CommRing K] (a : ℤ → K) (n : ℤ) (h : n ≤ 0) : P a n = 1 := by
  simp [P, Int.toNat_of_nonpos h]

theorem prod_succ {K : Type} [CommRing K] (a : ℤ → K) (n : ℤ) (h : 0 ≤ n) : P a (n + 1) = P a n * a n := by
  have e : (n + 1).toNat = n.toNat + 1 := by omega
  have f : ((n.toNat : ℕ) : ℤ) = n := by omega
  rw [P, P, e, Finset.prod_range_succ, f]

theorem prod_ext {K : Type} [CommRing K] (a b : ℤ → K) (n : ℤ) : (∃ d, 0 ≤ d ∧ d < n ∧ a d ≠ b d) ∨ P a n = P b n := by
  by_cases h : ∃ d, 0 ≤ d ∧ d < n ∧ a d ≠ b d
  · exact Or.inl h
  · push Not at h
    refine Or.inr (Finset.prod_congr rfl fun i hi => h i (by omega) ?_)
    have := Finset.mem_range.1 hi
    omega

theorem prod_nonneg (a : ℤ → ℤ) (n : ℤ) : (∃ w, 0 ≤ w ∧ w < n ∧ a w < 0) ∨ 0 ≤ P a n := by
  by_cases h : ∃ w, 0 ≤ w ∧ w < n ∧ a w < 0
  · exact Or.inl h
  · push Not at h
    refine Or.inr (Finset.prod_nonneg fun i hi => h i (by omega) ?_)
    have := Finset.mem_range.1 hi
    omega

theorem prod_single (a : ℤ → ℝ) (n j : ℤ) (h0 : 0 ≤ j) (h1 : j < n) : (∃ w, 0 ≤ w ∧ w < n ∧ w ≠ j ∧ a w ≠ 1) ∨ P a n = a j := by
  by_cases h : ∃ w, 0 ≤ w ∧ w < n ∧ w ≠ j ∧ a w ≠ 1
  · exact Or.inl h
  · push Not at h
    refine Or.inr ?_
    have f : ((j.toNat : ℕ) : ℤ) = j := by omega
    rw [P, Finset.prod_eq_single j.toNat]
    · rw [f]
    · intro i hi hij
      have := Finset.mem_range.1 hi
      exact h i (by omega) (by omega) (by omega)
    · intro hj
      exact absurd (Finset.mem_range.2 (by omega)) hj

theorem sum_scaled (a b : ℤ → ℝ) (n : ℤ) (t : ℝ) : (∃ w, 0 ≤ w ∧ w < n ∧ b w ≠ a w / t) ∨ S b n = S a n / t := by
  rcases sum_ext b (fun i => a i / t) n with h | h
  · exact Or.inl h
  · refine Or.inr (h.trans ?_)
    rw [S, S, Finset.sum_div]

section ordered
variable {K : Type} [CommRing K] [LinearOrder K] [IsStrictOrderedRing K]

theorem sum_nonneg (a : ℤ → K) (n : ℤ) : (∃ w, 0 ≤ w ∧ w < n ∧ a w < 0) ∨ 0 ≤ S a n := by
  by_cases h : ∃ w, 0 ≤ w ∧ w < n ∧ a w < 0
  · exact Or.inl h
  · push Not at h
    refine Or.inr (Finset.sum_nonneg fun i hi => h i (by omega) ?_)
    have := Finset.mem_range.1 hi
    omega

theorem sum_zero (a : ℤ → K) (n : ℤ) : (∃ w, 0 ≤ w ∧ w < n ∧ a w ≠ 0) ∨ S a n = 0 := by
  rcases sum_ext a 0 n with ⟨d, h⟩ | h
  · exact Or.inl ⟨d, by simpa using h⟩
  · exact Or.inr (h.trans (by simp [S]))

theorem sum_one_ge (a : ℤ → K) (n : ℤ) : (∃ w, 0 ≤ w ∧ w < n ∧ a w < 0) ∨ ∀ i, 0 ≤ i → i < n → a i ≤ S a n := by
  by_cases h : ∃ w, 0 ≤ w ∧ w < n ∧ a w < 0
  · exact Or.inl h
  · push Not at h
    refine Or.inr fun i h0 h1 => ?_
    have f : ((i.toNat : ℕ) : ℤ) = i := by omega
    have := Finset.single_le_sum (f := fun k : ℕ => a k) (s := Finset.range n.toNat) (fun k hk => h k (by omega) (by
      have := Finset.mem_range.1 hk
      omega)) (Finset.mem_range.2 (by omega : i.toNat < n.toNat))
    simpa [S, f] using this

theorem sum_at_most_one (a : ℤ → K) (n : ℤ) (hs : S a n = n) : (∃ w, 0 ≤ w ∧ w < n ∧ 1 < a w) ∨ ∀ i, 0 ≤ i → i < n → 1 ≤ a i := by
  by_cases h : ∃ w, 0 ≤ w ∧ w < n ∧ 1 < a w
  · exact Or.inl h
  · push Not at h
    refine Or.inr fun i h0 h1 => ?_
    rcases sum_one_ge (fun k => 1 - a k) n with ⟨w, hw0, hw1, hw⟩ | k
    · have := h w hw0 hw1
      exact absurd hw (by simp; exact this)
    · have := k i h0 h1
      have e : S (fun k => 1 - a k) n = (n.toNat : K) - S a n := by
        simp [S, Finset.sum_sub_distrib]
      have f : ((n.toNat : ℕ) : K) = ((n : ℤ) : K) := by
        have : ((n.toNat : ℕ) : ℤ) = n := by omega
        exact_mod_cast congrArg (Int.cast : ℤ → K) this
      rw [e, hs, f] at this
      linarith

theorem sum_of_ones (a : ℤ → K) (n : ℤ) (hn : 0 ≤ n) : (∃ w, 0 ≤ w ∧ w < n ∧ a w ≠ 1) ∨ S a n = n := by
  rcases sum_ext a 1 n with ⟨d, h⟩ | h
  · exact Or.inl ⟨d, by simpa using h⟩
  · refine Or.inr (h.trans ?_)
    have : ((n.toNat : ℕ) : ℤ) = n := by omega
    have f : ((n.toNat : ℕ) : K) = ((n : ℤ) : K) := by exact_mod_cast congrArg (Int.cast : ℤ → K) this
    simp [S, f]

end ordered

open Classical in
noncomputable def cset (g : ℤ → Prop) (n : ℤ) : Finset ℤ := (Finset.Ico 0 n).filter g
noncomputable def C (g : ℤ → Prop) (n : ℤ) : ℤ := (cset g n).card

theorem mem_cset (g : ℤ → Prop) (n i : ℤ) : i ∈ cset g n ↔ (0 ≤ i ∧ i < n) ∧ g i := by
  simp [cset]

theorem cnt_bounds (g : ℤ → Prop) (n : ℤ) : 0 ≤ C g n ∧ (0 ≤ n → C g n ≤ n) := by
  refine ⟨by simp [C], fun h => ?_⟩
  have k : (cset g n).card ≤ (Finset.Ico 0 n).card := Finset.card_le_card (by
    intro x hx
    rw [mem_cset] at hx
    exact Finset.mem_Ico.2 hx.1)
  rw [Int.card_Ico] at k
  simp only [C]
  omega

theorem cnt_pos (g : ℤ → Prop) (n : ℤ) (h : 0 < C g n) : ∃ w, 0 ≤ w ∧ w < n ∧ g w := by
  have : (cset g n).Nonempty := Finset.card_pos.1 (by simpa [C] using h)
  obtain ⟨w, hw⟩ := this
  rw [mem_cset] at hw
  exact ⟨w, hw.1.1, hw.1.2, hw.2⟩

theorem cnt_one (g : ℤ → Prop) (n i : ℤ) (h0 : 0 ≤ i) (h1 : i < n) (h : g i) : 1 ≤ C g n := by
  have : 0 < (cset g n).card := Finset.card_pos.2 ⟨i, (mem_cset g n i).2 ⟨⟨h0, h1⟩, h⟩⟩
  simp only [C]
  omega

theorem cnt_two (g : ℤ → Prop) (n i j : ℤ) (h0 : 0 ≤ i) (h1 : i < j) (h2 : j < n) (hi : g i) (hj : g j) : 2 ≤ C g n := by
  have : 1 < (cset g n).card := Finset.one_lt_card.2 ⟨i, (mem_cset g n i).2 ⟨⟨h0, by omega⟩, hi⟩, j, (mem_cset g n j).2 ⟨⟨by omega, h2⟩, hj⟩, by omega⟩
  simp only [C]
  omega

theorem cnt_second (g : ℤ → Prop) (n w : ℤ) (h : 2 ≤ C g n) : ∃ x, 0 ≤ x ∧ x < n ∧ g x ∧ x ≠ w := by
  have : 1 < (cset g n).card := by
    simp only [C] at h
    omega
  obtain ⟨x, hx, hw⟩ := Finset.exists_mem_ne this w
  rw [mem_cset] at hx
  exact ⟨x, hx.1.1, hx.1.2, hx.2, hw⟩

theorem cnt_ext (g h : ℤ → Prop) (n : ℤ) : (∃ d, 0 ≤ d ∧ d < n ∧ ¬ (g d ↔ h d)) ∨ C g n = C h n := by
  by_cases e : ∃ d, 0 ≤ d ∧ d < n ∧ ¬ (g d ↔ h d)
  · exact Or.inl e
  · push Not at e
    refine Or.inr ?_
    have : cset g n = cset h n := by
      ext x
      rw [mem_cset, mem_cset]
      constructor
      · rintro ⟨⟨a, b⟩, c⟩
        have := e x a b
        tauto
      · rintro ⟨⟨a, b⟩, c⟩
        have := e x a b
        tauto
    rw [C, C, this]

open Classical in
theorem cnt_succ (g : ℤ → Prop) (n : ℤ) (hn : 0 ≤ n) : C g (n + 1) = C g n + (if g n then 1 else 0) := by
  by_cases h : g n
  · have : cset g (n + 1) = insert n (cset g n) := by
      ext x
      rw [mem_cset, Finset.mem_insert, mem_cset]
      constructor
      · rintro ⟨⟨a, b⟩, c⟩
        by_cases hx : x = n
        · exact Or.inl hx
        · exact Or.inr ⟨⟨a, by omega⟩, c⟩
      · rintro (rfl | ⟨⟨a, b⟩, c⟩)
        · exact ⟨⟨hn, by omega⟩, h⟩
        · exact ⟨⟨a, by omega⟩, c⟩
    have nm : n ∉ cset g n := by
      rw [mem_cset]
      omega
    rw [C, C, this, Finset.card_insert_of_notMem nm]
    simp [h]
  · have : cset g (n + 1) = cset g n := by
      ext x
      rw [mem_cset, mem_cset]
      constructor
      · rintro ⟨⟨a, b⟩, c⟩
        refine ⟨⟨a, ?_⟩, c⟩
        by_contra hx
        have : x = n := by omega
        exact h (this ▸ c)
      · rintro ⟨⟨a, b⟩, c⟩
        exact ⟨⟨a, by omega⟩, c⟩
    rw [C, C, this]
    simp [h]

theorem cnt_neg (g : ℤ → Prop) (n : ℤ) (hn : 0 ≤ n) : C (fun i => ¬ g i) n = n - C g n := by
  have d : Disjoint (cset g n) (cset (fun i => ¬ g i) n) := by
    rw [Finset.disjoint_left]
    intro x h1 h2
    rw [mem_cset] at h1 h2
    exact h2.2 h1.2
  have u : cset g n ∪ cset (fun i => ¬ g i) n = Finset.Ico 0 n := by
    ext x
    rw [Finset.mem_union, mem_cset, mem_cset, Finset.mem_Ico]
    tauto
  have := Finset.card_union_of_disjoint d
  rw [u, Int.card_Ico] at this
  simp only [C]
  omega

theorem cnt_all (g : ℤ → Prop) (n : ℤ) (h : C g n = n) (i : ℤ) (h0 : 0 ≤ i) (h1 : i < n) : g i := by
  by_contra k
  have a := cnt_neg g n (by omega)
  have b := cnt_one (fun i => ¬ g i) n i h0 h1 k
  omega

theorem cnt_same (g h : ℤ → Prop) (n : ℤ) (hn : 0 ≤ n) : (∃ d, 0 ≤ d ∧ d < n ∧ (g d ↔ h d)) ∨ C g n + C h n = n := by
  rcases cnt_ext (fun i => ¬ g i) h n with ⟨d, a, b, c⟩ | e
  · exact Or.inl ⟨d, a, b, by tauto⟩
  · have := cnt_neg g n hn
    right
    omega

theorem cnt_both (g h : ℤ → Prop) (n i : ℤ) (h0 : 0 ≤ i) (h1 : i < n) (hc : n ≤ C g n + C h n) (hg : ¬ g i) (hh : ¬ h i) :
    ∃ d, 0 ≤ d ∧ d < n ∧ g d ∧ h d := by
  by_contra k
  push Not at k
  have d : Disjoint (cset g n) (cset h n) := by
    rw [Finset.disjoint_left]
    intro x a b
    rw [mem_cset] at a b
    exact k x a.1.1 a.1.2 a.2 b.2
  have s : cset g n ∪ cset h n ⊆ (Finset.Ico 0 n).erase i := by
    intro x hx
    rw [Finset.mem_union, mem_cset, mem_cset] at hx
    rw [Finset.mem_erase, Finset.mem_Ico]
    refine ⟨?_, by tauto⟩
    rintro rfl
    tauto
  have c := Finset.card_le_card s
  rw [Finset.card_union_of_disjoint d, Finset.card_erase_of_mem (Finset.mem_Ico.2 ⟨h0, h1⟩), Int.card_Ico] at c
  simp only [C] at hc
  omega

/-! finite sets -/
theorem card_facts (g : Finset ℤ) (i : ℤ) : (0 < g.card → ∃ w, w ∈ g) ∧ (i ∈ g → 0 < g.card) ∧
    (insert i g).card = g.card + (if i ∈ g then 0 else 1) ∧ (∅ : Finset ℤ).card = 0 := by
  refine ⟨Finset.card_pos.1, fun h => Finset.card_pos.2 ⟨i, h⟩, ?_, rfl⟩
  by_cases h : i ∈ g <;> simp [h]

/-! itertools.product: the k-th combination of a 0, .., a (m-1) choices (digits in mixed radix) -/
theorem digits (m : ℕ) (a : Fin m → ℕ) : ∃ (dig : ℕ → Fin m → ℕ) (rank : (Fin m → ℕ) → ℕ),
    (∀ k, k < ∏ i, a i → ∀ j, dig k j < a j) ∧
    (∀ k n, k < ∏ i, a i → n < ∏ i, a i → k ≠ n → ∃ j, dig k j ≠ dig n j) ∧
    (∀ c : Fin m → ℕ, (∀ j, c j < a j) → rank c < ∏ i, a i ∧ dig (rank c) = c) ∧
    (m = 1 → ∀ k j, k < a j → dig k j = k) := by
  classical
  let e := finPiFinEquiv (n := a)
  refine ⟨fun k j => if h : k < ∏ i, a i then (e.symm ⟨k, h⟩ j : ℕ) else 0,
    fun c => if h : ∀ j, c j < a j then (e fun j => ⟨c j, h j⟩ : ℕ) else 0, ?_, ?_, ?_, ?_⟩
  · intro k h j
    simp [h]
  · intro k n hk hn ne
    by_contra all
    push Not at all
    apply ne
    have : e.symm ⟨k, hk⟩ = e.symm ⟨n, hn⟩ := by
      funext j
      have := all j
      simp only [hk, hn, dif_pos] at this
      exact Fin.ext this
    have := e.symm.injective this
    exact congrArg Fin.val this
  · intro c h
    have lt := (e fun j => ⟨c j, h j⟩).2
    refine ⟨by simp [h], ?_⟩
    funext j
    simp [h]
  · rintro rfl k j h
    have hj : j = 0 := Subsingleton.elim _ _
    subst hj
    have hk : k < ∏ i, a i := by simpa using h
    have : e (fun i => ⟨k, by have : i = 0 := Subsingleton.elim _ _; subst this; exact h⟩) = ⟨k, hk⟩ := by
      apply Fin.ext
      simp [e, finPiFinEquiv_apply]
    show (if h : k < ∏ i, a i then (e.symm ⟨k, h⟩ 0 : ℕ) else 0) = k
    rw [dif_pos hk, ← this]
    simp

/-! matrices -/
section matrices
variable {l m n o : Type} [Fintype m] [Fintype n]

theorem sel_ext {α : Type} (M : m → α) (a b : l → m) : (∃ d, a d ≠ b d) ∨ M ∘ a = M ∘ b := by
  by_cases h : ∃ d, a d ≠ b d
  · exact Or.inl h
  · push Not at h
    exact Or.inr (by rw [funext h])

theorem mat_rows_cols {l' o' : Type} (M : Matrix l o ℝ) (a : l' → l) (b : o' → o) :
    (M.submatrix id b).submatrix a id = (M.submatrix a id).submatrix id b := rfl

theorem mat_tr_rows {l' : Type} (M : Matrix l o ℝ) (a : l' → l) : (M.submatrix a id).transpose = M.transpose.submatrix id a := rfl

theorem mat_assoc (A : Matrix l m ℝ) (B : Matrix m n ℝ) (D : Matrix n o ℝ) : A * B * D = A * (B * D) := Matrix.mul_assoc A B D

theorem mat_vec_assoc (A : Matrix l m ℝ) (B : Matrix m n ℝ) (x : n → ℝ) : (A * B).mulVec x = A.mulVec (B.mulVec x) :=
  (Matrix.mulVec_mulVec x A B).symm

theorem principal_invertible [DecidableEq m] [DecidableEq n] (M : Matrix n n ℝ) (h : M.PosDef) (a : m → n) (ha : Function.Injective a) :
    IsUnit (M.submatrix a a) := (h.submatrix ha).isUnit

end matrices

end Background

#print axioms Background.reach_add
#print axioms Background.tree_acyclic
#print axioms Background.forest_add
#print axioms Background.cnt_both
#print axioms Background.principal_invertible
