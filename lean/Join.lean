/- The axiom `joinStandard` of contracts/23_simulation.spec, for lists of strings:
   a header that has every standard column and whose cells join to the standard
   line is the list of the standard columns. The cells of the header may be any
   strings (a quoted cell of a CSV file may hold commas). -/
import Mathlib
namespace Vgo

/-- strings.Join(l, ",") -/
def joined : List (List Char) → List Char
  | [] => []
  | [a] => a
  | a :: b :: t => a ++ ',' :: joined (b :: t)

def weight (l : List (List Char)) : ℕ := (l.map (fun c => c.length + 1)).sum

theorem weight_joined : ∀ (l : List (List Char)), l ≠ [] → (joined l).length + 1 = weight l
  | [], h => absurd rfl h
  | [a], _ => by simp [joined, weight]
  | a :: b :: t, _ => by
    have := weight_joined (b :: t) (by simp)
    simp only [joined, List.length_append, List.length_cons, weight, List.map_cons, List.sum_cons] at *
    omega

theorem weight_len (l : List (List Char)) : l.length ≤ weight l := by
  induction l with
  | nil => simp [weight]
  | cons a t ih => simp only [weight, List.map_cons, List.sum_cons, List.length_cons] at *; omega

/-- A list with no element twice, contained in another of the same weight, is a
    rearrangement of it. -/
theorem perm_of_weight {c h : List (List Char)} (nd : c.Nodup) (sub : c ⊆ h) (w : weight h = weight c) : h.Perm c := by
  have le : (c : Multiset (List Char)) ≤ (h : Multiset (List Char)) := Multiset.coe_le.mpr (List.subperm_of_subset nd sub)
  obtain ⟨d, hd⟩ := Multiset.le_iff_exists_add.mp le
  have key : (Multiset.map (fun c : List Char => c.length + 1) d).sum = 0 := by
    have := congrArg (fun m : Multiset (List Char) => (Multiset.map (fun c : List Char => c.length + 1) m).sum) hd
    simp only [Multiset.map_add, Multiset.sum_add, Multiset.map_coe, Multiset.sum_coe] at this
    simp only [weight] at w
    omega
  have dz : d = 0 := by
    rw [Multiset.sum_eq_zero_iff] at key
    rw [Multiset.eq_zero_iff_forall_notMem]
    intro a ha
    have := key (a.length + 1) (Multiset.mem_map.mpr ⟨a, ha, rfl⟩)
    omega
  rw [dz, add_zero] at hd
  exact Multiset.coe_eq_coe.mp hd

theorem comma : ∀ {a b s t : List Char}, ',' ∉ a → ',' ∉ b → a ++ ',' :: s = b ++ ',' :: t → a = b ∧ s = t
  | [], [], _, _, _, _, e => by simpa using e
  | [], y :: b, _, _, _, hb, e => by
    simp only [List.nil_append, List.cons_append, List.cons.injEq] at e
    exact absurd (by rw [e.1]; simp) hb
  | x :: a, [], _, _, ha, _, e => by
    simp only [List.nil_append, List.cons_append, List.cons.injEq] at e
    exact absurd (by rw [← e.1]; simp) ha
  | x :: a, y :: b, _, _, ha, hb, e => by
    simp only [List.cons_append, List.cons.injEq] at e
    have := comma (fun m => ha (List.mem_cons_of_mem _ m)) (fun m => hb (List.mem_cons_of_mem _ m)) e.2
    exact ⟨by rw [e.1, this.1], this.2⟩

theorem splits : ∀ {c h : List (List Char)}, (∀ x ∈ c, ',' ∉ x) → (∀ x ∈ h, ',' ∉ x) →
    c.length = h.length → joined c = joined h → c = h
  | [], [], _, _, _, _ => rfl
  | [a], [b], _, _, _, e => by simpa [joined] using e
  | a :: b :: t, x :: y :: u, hc, hh, l, e => by
    have := comma (hc a (by simp)) (hh x (by simp)) e
    have r := splits (c := b :: t) (h := y :: u) (fun z m => hc z (List.mem_cons_of_mem _ m))
      (fun z m => hh z (List.mem_cons_of_mem _ m)) (by simpa using l) this.2
    rw [this.1, r]

/-- The columns have no commas and none is twice: the header is the columns. -/
theorem joined_eq {c h : List (List Char)} (nd : c.Nodup) (free : ∀ x ∈ c, ',' ∉ x) (ne : c ≠ [])
    (sub : c ⊆ h) (e : joined h = joined c) : h = c := by
  have nh : h ≠ [] := by
    intro z; subst z
    exact ne (List.eq_nil_of_subset_nil sub)
  have w : weight h = weight c := by
    rw [← weight_joined h nh, ← weight_joined c ne, e]
  have p := perm_of_weight nd sub w
  exact splits (fun x m => free x (p.mem_iff.mp m)) free p.length_eq e

def columns : List (List Char) :=
  (["Filename", "SiteName", "UserID", "TaskID", "TaskMonitorID", "JobID", "Protocol", "JobExecExitCode",
    "JobStart", "JobEnd", "NumCPU", "WrapWC", "WrapCPU", "Size", "DataType", "FileType", "JobLengthH",
    "JobLengthM", "JobSuccess", "CPUTime", "IOTime", "reqDay", "Region", "Campaign", "Process"].map String.toList)

def line : List Char := "Filename,SiteName,UserID,TaskID,TaskMonitorID,JobID,Protocol,JobExecExitCode,JobStart,JobEnd,NumCPU,WrapWC,WrapCPU,Size,DataType,FileType,JobLengthH,JobLengthM,JobSuccess,CPUTime,IOTime,reqDay,Region,Campaign,Process".toList

theorem joinStandard (h : List (List Char)) (all : ∀ j : Fin columns.length, columns[j] ∈ h) (e : joined h = line) :
    h.length = 25 ∧ h = columns := by
  have sub : columns ⊆ h := by
    intro x m
    obtain ⟨j, hj, rfl⟩ := List.getElem_of_mem m
    exact all ⟨j, hj⟩
  have r : h = columns := by
    refine joined_eq ?_ ?_ ?_ sub ?_
    · decide +kernel
    · decide +kernel
    · decide +kernel
    · rw [e]; decide +kernel
  exact ⟨by rw [r]; rfl, r⟩

#print axioms joinStandard

end Vgo
