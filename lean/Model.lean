/- A model of the axioms of the specifications: every axiom vgo assumes about
   its sum, product and table symbols (Axioms.lean, generated from the
   contracts) is a theorem about the functions defined here. -/
import Mathlib
import Axioms
open Classical
namespace Vgo

/-- Two functions that differ in finitely many places. -/
def close {A : Type} [AddCommGroup A] : Setoid (ℤ → A) where
  r h g := (Function.support (h - g)).Finite
  iseqv :=
    { refl := fun h => by simp
      symm := fun {h g} p => by
        have : g - h = -(h - g) := by abel
        rw [this, Function.support_neg]; exact p
      trans := fun {h g k} p q => by
        have : h - k = (h - g) + (g - k) := by abel
        rw [this]
        exact (p.union q).subset (Function.support_add _ _) }

noncomputable def rep {A : Type} [AddCommGroup A] (h : ℤ → A) : ℤ → A :=
  Quotient.out (Quotient.mk close h)

theorem rep_close {A : Type} [AddCommGroup A] (h : ℤ → A) : (Function.support (h - rep h)).Finite := by
  have : (close (A := A)).r (rep h) h := Quotient.mk_out (s := close) h
  exact close.iseqv.symm this

theorem rep_eq {A : Type} [AddCommGroup A] {h g : ℤ → A} (p : (Function.support (h - g)).Finite) : rep h = rep g := by
  have : Quotient.mk close h = Quotient.mk close g := Quotient.sound (s := close) p
  unfold rep; rw [this]

noncomputable def gpre {A : Type} [AddCommGroup A] (h : ℤ → A) : A := ∑ᶠ x, (h - rep h) x

/-- The sum of h: the ordinary sum when h is zero almost everywhere; otherwise
    some value that changes by the ordinary sum of the differences. -/
noncomputable def gsum {A : Type} [AddCommGroup A] (h : ℤ → A) : A :=
  gpre h - (if (Function.support h).Finite then gpre (0 : ℤ → A) else 0)

theorem gpre_diff {A : Type} [AddCommGroup A] {h g : ℤ → A} (p : (Function.support (h - g)).Finite) :
    gpre h = gpre g + ∑ᶠ x, (h - g) x := by
  unfold gpre
  have e := rep_eq p
  have hh := rep_close h
  have hg := rep_close g
  rw [← finsum_add_distrib hg p]
  apply finsum_congr; intro x
  simp only [Pi.sub_apply]; rw [e]; abel

theorem gsum_diff {A : Type} [AddCommGroup A] {h g : ℤ → A} (p : (Function.support (h - g)).Finite) :
    gsum h = gsum g + ∑ᶠ x, (h - g) x := by
  have q : (Function.support h).Finite ↔ (Function.support g).Finite := by
    constructor
    · intro f
      have : g = h - (h - g) := by abel
      rw [this]; exact (f.union p).subset (Function.support_sub _ _)
    · intro f
      have : h = g + (h - g) := by abel
      rw [this]; exact (f.union p).subset (Function.support_add _ _)
  unfold gsum
  rw [gpre_diff p]
  by_cases f : (Function.support g).Finite
  · rw [if_pos f, if_pos (q.mpr f)]; abel
  · rw [if_neg f, if_neg (fun c => f (q.mp c))]; abel

theorem gsum_zero {A : Type} [AddCommGroup A] : gsum (0 : ℤ → A) = 0 := by
  unfold gsum; rw [if_pos (by simp)]; simp

theorem gsum_fin {A : Type} [AddCommGroup A] {h : ℤ → A} (p : (Function.support h).Finite) :
    gsum h = ∑ᶠ x, h x := by
  have := gsum_diff (h := h) (g := 0) (by simpa using p)
  rw [gsum_zero] at this; simpa using this

/-- One place changes. -/
theorem gsum_point {A : Type} [AddCommGroup A] {h g : ℤ → A} (a : ℤ) (e : ∀ x, x ≠ a → h x = g x) :
    gsum h = gsum g + (h a - g a) := by
  have s : Function.support (h - g) ⊆ {a} := by
    intro x hx
    by_contra c
    exact hx (by simp [e x c])
  rw [gsum_diff ((Set.finite_singleton a).subset s)]
  congr 1
  rw [finsum_eq_single _ a (fun x hx => by simp [e x hx])]
  simp

/-- h i for i < n, from the front: the sum that starts at o. -/
noncomputable def nsum {A : Type} [AddCommMonoid A] (h : ℤ → A) (n : ℤ) : A :=
  ∑ i ∈ Finset.range n.toNat, h i

theorem nsum_zero {A : Type} [AddCommMonoid A] (h : ℤ → A) : nsum h 0 = 0 := by simp [nsum]

theorem nsum_succ {A : Type} [AddCommMonoid A] (h : ℤ → A) (n : ℤ) (p : 0 < n) :
    nsum h n = nsum h (n - 1) + h (n - 1) := by
  obtain ⟨k, rfl⟩ : ∃ k : ℕ, n = k + 1 := ⟨(n - 1).toNat, by omega⟩
  have a : ((k : ℤ) + 1).toNat = k + 1 := by omega
  have b : ((k : ℤ) + 1 - 1) = k := by omega
  simp only [nsum, a, b, Int.toNat_natCast, Finset.sum_range_succ]

noncomputable def std : Sym where
  ssum F S := gsum (fun x => if F x ≠ 0 then S (F x) else 0)
  fin F := (Function.support F).Finite
  isum D V := gsum (fun x => if D x then V x else 0)
  dsum D V S := gsum (fun x => if D x then S (V x) else 0)
  rsum r o n := nsum (fun i => r (o + i)) n
  psum W F S n := nsum (fun i => S (F (W i))) n
  lsum r o v n := nsum (fun i => v (r (o + i))) n
  asum r o t n := nsum (fun i => if r (o + i) = 0 then 0 else t - r (o + i)) n
  inl r o n x := ∃ i, 0 ≤ i ∧ i < n ∧ r (o + i) = x
  prod L a b := ∏ i ∈ Finset.range (b - a).toNat, L (a + i)
  sfx c w j n := ∑ i ∈ Finset.range (n - j).toNat, c (j + i) * w (j + i)
  trunc F P k x := if F x ≠ 0 ∧ 0 ≤ P x ∧ P x < k then 0 else F x
  stp _ := True
  m_exp := Real.exp
  m_pow := Real.rpow
  wval c n size mean alpha beta gamma :=
    if c = 1 then alpha * n + beta * size + gamma * mean
    else if c = 2 then Real.rpow n alpha + Real.rpow size beta + Real.rpow mean gamma
    else Real.rpow n alpha * Real.rpow size beta * Real.rpow mean gamma

theorem ssumStore : Ax.ssumStore std := by
  intro F S x r
  simp only [std]
  rw [gsum_point (g := fun y => if F y ≠ 0 then S (F y) else 0) x
    (fun y hy => by simp only [Function.update_of_ne hy])]
  simp only [Function.update_self]
  norm_num
  ring

theorem ssumNonneg : Ax.ssumNonneg std := by
  rintro F S ⟨f, p⟩
  simp only [std] at *
  rw [gsum_fin]
  · norm_num
    apply finsum_nonneg
    intro x
    split_ifs with h
    · exact le_refl _
    · exact p x h
  · refine f.subset ?_
    intro x hx
    by_contra c
    simp only [Function.mem_support, not_not] at c
    exact hx (by simp [c])

theorem finStore : Ax.finStore std := by
  intro F x r f
  simp only [std] at *
  refine (f.union (Set.finite_singleton x)).subset ?_
  intro y hy
  by_cases e : y = x
  · right; exact e
  · left; simpa [Function.update_of_ne e] using hy

theorem finTrunc : Ax.finTrunc std := by
  intro F P k f
  simp only [std] at *
  refine f.subset ?_
  intro y hy c
  apply hy
  simp only [c]; simp

theorem finSub : Ax.finSub std := by
  rintro F G ⟨f, p⟩
  exact f.subset (fun y hy => p y hy)

theorem isumStore : Ax.isumStore std := by
  intro D V x
  simp only [std]
  rw [gsum_point (g := fun y => if D y then V y else 0) x
    (fun y hy => by simp only [Function.update_of_ne hy])]
  simp only [Function.update_self]
  by_cases h : D x <;> simp [h]

theorem isumVal : Ax.isumVal std := by
  intro D V x v
  simp only [std]
  rw [gsum_point (g := fun y => if D y then V y else 0) x
    (fun y hy => by simp only [Function.update_of_ne hy])]
  simp only [Function.update_self]
  by_cases h : D x <;> simp [h]

theorem dsumAdd : Ax.dsumAdd std := by
  intro D V S x
  simp only [std]
  rw [gsum_point (g := fun y => if D y then S (V y) else 0) x
    (fun y hy => by simp only [Function.update_of_ne hy])]
  simp only [Function.update_self]
  by_cases h : D x <;> simp [h, sub_eq_add_neg]

theorem dsumDel : Ax.dsumDel std := by
  intro D V S x
  simp only [std]
  rw [gsum_point (g := fun y => if D y then S (V y) else 0) x
    (fun y hy => by simp only [Function.update_of_ne hy])]
  simp only [Function.update_self]
  by_cases h : D x <;> simp [h, sub_eq_add_neg]

theorem zeroSum {A : Type} [AddCommGroup A] (h : ℤ → A) (p : ∀ x, h x = 0) : gsum h = 0 := by
  have : h = 0 := funext p
  rw [this, gsum_zero]

theorem prodS : Ax.prodS std := by
  intro L a b p
  simp only [std]
  have e : (b + 1 - a).toNat = (b - a).toNat + 1 := by omega
  rw [e, Finset.prod_range_succ]
  congr 2
  omega

theorem sfxS : Ax.sfxS std := by
  intro c w j n p
  simp only [std]
  have e : (n - j).toNat = (n - (j + 1)).toNat + 1 := by omega
  rw [e, Finset.sum_range_succ']
  simp only [Nat.cast_zero, add_zero]
  rw [add_comm]
  congr 1
  apply Finset.sum_congr rfl
  intro i _
  have : j + ((i + 1 : ℕ) : ℤ) = j + 1 + i := by push_cast; ring
  rw [this]

theorem inlS : Ax.inlS std := by
  intro r o n x p
  simp only [std]
  apply propext
  constructor
  · rintro ⟨i, a, b, c⟩
    by_cases e : i = n - 1
    · right; rw [← e]; exact c
    · left; exact ⟨i, a, by omega, c⟩
  · rintro (⟨i, a, b, c⟩ | c)
    · exact ⟨i, a, by omega, c⟩
    · exact ⟨n - 1, by omega, by omega, c⟩

/-- Every axiom holds of the model. -/
theorem axioms_hold : Axioms std := by
  unfold Axioms
  refine ⟨?ssumEmpty, ssumStore, ?ssumCong, ssumNonneg, finStore, finTrunc, finSub, ?isumEmpty, ?isum0,
    isumStore, isumVal, ?isumCong, ?isumZero, ?dsumEmpty, ?dsum0, dsumAdd, ?dsumSame, dsumDel, ?dsumCong,
    ?rsum0, ?rsumS, ?truncDef, ?stpT, ?rest⟩
  case ssumEmpty =>
    intro F S p
    refine ⟨?_, ?_⟩
    · exact zeroSum _ (fun x => by simp [p x])
    · have : F = 0 := funext p
      simp [std, this]
  case ssumCong =>
    intro F S T p
    simp only [std]
    congr 1; funext x
    split_ifs with h
    · exact p x h
    · rfl
  case isumEmpty => intro D V p; exact zeroSum _ (fun x => by simp [p x])
  case isum0 => intro V; exact zeroSum _ (fun x => by simp)
  case isumCong =>
    intro D E V p
    have : D = E := funext p
    rw [this]
  case isumZero =>
    intro D V p
    refine zeroSum _ (fun x => ?_)
    split_ifs with h
    · exact p x h
    · rfl
  case dsumEmpty => intro D V S p; exact zeroSum _ (fun x => by simp [p x])
  case dsum0 => intro V S; exact zeroSum _ (fun x => by simp)
  case dsumSame =>
    intro D E V S p
    have : D = E := funext p
    rw [this]
  case dsumCong =>
    intro D V U S T p
    simp only [std]
    congr 1; funext x
    split_ifs with h
    · exact p x h
    · rfl
  case rsum0 => intro r o; exact nsum_zero (fun i => r (o + i))
  case rsumS => intro r o n p; exact nsum_succ (fun i => r (o + i)) n p
  case truncDef => intro F P k x; simp [std]
  case stpT => intro n; trivial
  case rest =>
    refine ⟨?inl0, inlS, ?psum0, ?psumS, ?wvalAdd, ?wvalExp, ?wvalMul, ?asum0, ?asumS, ?prod0, prodS, ?sfx0, sfxS, ?expMono, ?expPos, ?expZero, ?lsum0, ?lsumS⟩
    case inl0 => rintro r o n x p ⟨i, a, b, _⟩; omega
    case psum0 => intro W F S; exact nsum_zero (fun i => S (F (W i)))
    case psumS => intro W F S n p; exact nsum_succ (fun i => S (F (W i))) n p
    case asum0 => intro r o t; exact nsum_zero (fun i => if r (o + i) = 0 then 0 else t - r (o + i))
    case asumS => intro r o t n p; exact nsum_succ (fun i => if r (o + i) = 0 then 0 else t - r (o + i)) n p
    case wvalAdd => intro n s m a b g; simp [std]
    case wvalExp => intro n s m a b g; simp [std]
    case wvalMul => intro n s m a b g; simp [std]
    case prod0 => intro L a; simp [std]
    case sfx0 => intro c w n; simp [std]
    case expMono => intro x y p; exact Real.exp_le_exp.mpr p
    case expPos => intro x; exact Real.exp_pos x
    case expZero => intro x p; subst p; simp [std]
    case lsum0 => intro r o v; exact nsum_zero (fun i => v (r (o + i)))
    case lsumS => intro r o v n p; exact nsum_succ (fun i => v (r (o + i))) n p

#print axioms axioms_hold

end Vgo
