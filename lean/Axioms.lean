/- Generated by `vgo -lean` from /verif/contracts; do not edit. -/
import Mathlib
open Classical
namespace Vgo

/-- The function symbols of the axioms. -/
structure Sym where
  asum : (ℤ → ℤ) → ℤ → ℤ → ℤ → ℤ
  dsum : (ℤ → Prop) → (ℤ → ℤ) → (ℤ → ℝ) → ℝ
  fin : (ℤ → ℤ) → Prop
  inl : (ℤ → ℤ) → ℤ → ℤ → ℤ → Prop
  isum : (ℤ → Prop) → (ℤ → ℤ) → ℤ
  lsum : (ℤ → ℤ) → ℤ → (ℤ → ℝ) → ℤ → ℝ
  m_exp : ℝ → ℝ
  m_pow : ℝ → ℝ → ℝ
  prod : (ℤ → ℤ) → ℤ → ℤ → ℤ
  psum : (ℤ → ℤ) → (ℤ → ℤ) → (ℤ → ℝ) → ℤ → ℝ
  rsum : (ℤ → ℝ) → ℤ → ℤ → ℝ
  sfx : (ℤ → ℤ) → (ℤ → ℤ) → ℤ → ℤ → ℤ
  ssum : (ℤ → ℤ) → (ℤ → ℝ) → ℝ
  stp : ℤ → Prop
  trunc : (ℤ → ℤ) → (ℤ → ℤ) → ℤ → (ℤ → ℤ)
  wval : ℤ → ℤ → ℝ → ℝ → ℝ → ℝ → ℝ → ℝ

def Ax.ssumEmpty (m : Sym) : Prop :=
  (∀ (ax_F : (ℤ → ℤ)) (ax_S : (ℤ → ℝ)), ((∀ (x_b1 : ℤ), ((ax_F x_b1) = (0 : ℤ))) → (((m.ssum ax_F ax_S) = (0 : ℝ)) ∧ (m.fin ax_F))))

def Ax.ssumStore (m : Sym) : Prop :=
  (∀ (ax_F : (ℤ → ℤ)) (ax_S : (ℤ → ℝ)) (ax_x : ℤ) (ax_r : ℤ), ((m.ssum (Function.update ax_F ax_x ax_r) ax_S) = (((m.ssum ax_F ax_S) - (if (¬ ((ax_F ax_x) = (0 : ℤ))) then (ax_S (ax_F ax_x)) else (0 : ℝ))) + (if (¬ (ax_r = (0 : ℤ))) then (ax_S ax_r) else (0 : ℝ)))))

def Ax.ssumCong (m : Sym) : Prop :=
  (∀ (ax_F : (ℤ → ℤ)) (ax_S : (ℤ → ℝ)) (ax_T : (ℤ → ℝ)), ((∀ (x_b1 : ℤ), ((¬ ((ax_F x_b1) = (0 : ℤ))) → ((ax_S (ax_F x_b1)) = (ax_T (ax_F x_b1))))) → ((m.ssum ax_F ax_S) = (m.ssum ax_F ax_T))))

def Ax.ssumNonneg (m : Sym) : Prop :=
  (∀ (ax_F : (ℤ → ℤ)) (ax_S : (ℤ → ℝ)), (((m.fin ax_F) ∧ (∀ (x_b1 : ℤ), ((¬ ((ax_F x_b1) = (0 : ℤ))) → ((0 : ℝ) ≤ (ax_S (ax_F x_b1)))))) → ((0 : ℝ) ≤ (m.ssum ax_F ax_S))))

def Ax.finStore (m : Sym) : Prop :=
  (∀ (ax_F : (ℤ → ℤ)) (ax_x : ℤ) (ax_r : ℤ), ((m.fin ax_F) → (m.fin (Function.update ax_F ax_x ax_r))))

def Ax.finTrunc (m : Sym) : Prop :=
  (∀ (ax_F : (ℤ → ℤ)) (ax_P : (ℤ → ℤ)) (ax_k : ℤ), ((m.fin ax_F) → (m.fin (m.trunc ax_F ax_P ax_k))))

def Ax.finSub (m : Sym) : Prop :=
  (∀ (ax_F : (ℤ → ℤ)) (ax_G : (ℤ → ℤ)), (((m.fin ax_F) ∧ (∀ (x_b1 : ℤ), ((¬ ((ax_G x_b1) = (0 : ℤ))) → (¬ ((ax_F x_b1) = (0 : ℤ)))))) → (m.fin ax_G)))

def Ax.isumEmpty (m : Sym) : Prop :=
  (∀ (ax_D : (ℤ → Prop)) (ax_V : (ℤ → ℤ)), ((∀ (x_b1 : ℤ), (¬ (ax_D x_b1))) → ((m.isum ax_D ax_V) = (0 : ℤ))))

def Ax.isum0 (m : Sym) : Prop :=
  (∀ (ax_V : (ℤ → ℤ)), ((m.isum (fun _ => False) ax_V) = (0 : ℤ)))

def Ax.isumStore (m : Sym) : Prop :=
  (∀ (ax_D : (ℤ → Prop)) (ax_V : (ℤ → ℤ)) (ax_x : ℤ), ((m.isum (Function.update ax_D ax_x True) ax_V) = ((m.isum ax_D ax_V) + (if (ax_D ax_x) then (0 : ℤ) else (ax_V ax_x)))))

def Ax.isumVal (m : Sym) : Prop :=
  (∀ (ax_D : (ℤ → Prop)) (ax_V : (ℤ → ℤ)) (ax_x : ℤ) (ax_v : ℤ), ((m.isum ax_D (Function.update ax_V ax_x ax_v)) = ((m.isum ax_D ax_V) + (if (ax_D ax_x) then (ax_v - (ax_V ax_x)) else (0 : ℤ)))))

def Ax.isumCong (m : Sym) : Prop :=
  (∀ (ax_D : (ℤ → Prop)) (ax_E : (ℤ → Prop)) (ax_V : (ℤ → ℤ)), ((∀ (x_b1 : ℤ), ((ax_D x_b1) = (ax_E x_b1))) → ((m.isum ax_D ax_V) = (m.isum ax_E ax_V))))

def Ax.isumZero (m : Sym) : Prop :=
  (∀ (ax_D : (ℤ → Prop)) (ax_V : (ℤ → ℤ)), ((∀ (x_b1 : ℤ), ((ax_D x_b1) → ((ax_V x_b1) = (0 : ℤ)))) → ((m.isum ax_D ax_V) = (0 : ℤ))))

def Ax.dsumEmpty (m : Sym) : Prop :=
  (∀ (ax_D : (ℤ → Prop)) (ax_V : (ℤ → ℤ)) (ax_S : (ℤ → ℝ)), ((∀ (x_b1 : ℤ), (¬ (ax_D x_b1))) → ((m.dsum ax_D ax_V ax_S) = (0 : ℝ))))

def Ax.dsum0 (m : Sym) : Prop :=
  (∀ (ax_V : (ℤ → ℤ)) (ax_S : (ℤ → ℝ)), ((m.dsum (fun _ => False) ax_V ax_S) = (0 : ℝ)))

def Ax.dsumAdd (m : Sym) : Prop :=
  (∀ (ax_D : (ℤ → Prop)) (ax_V : (ℤ → ℤ)) (ax_S : (ℤ → ℝ)) (ax_x : ℤ), ((m.dsum (Function.update ax_D ax_x True) ax_V ax_S) = ((m.dsum ax_D ax_V ax_S) + (if (ax_D ax_x) then (0 : ℝ) else (ax_S (ax_V ax_x))))))

def Ax.dsumSame (m : Sym) : Prop :=
  (∀ (ax_D : (ℤ → Prop)) (ax_E : (ℤ → Prop)) (ax_V : (ℤ → ℤ)) (ax_S : (ℤ → ℝ)), ((∀ (x_b1 : ℤ), ((ax_D x_b1) = (ax_E x_b1))) → ((m.dsum ax_D ax_V ax_S) = (m.dsum ax_E ax_V ax_S))))

def Ax.dsumDel (m : Sym) : Prop :=
  (∀ (ax_D : (ℤ → Prop)) (ax_V : (ℤ → ℤ)) (ax_S : (ℤ → ℝ)) (ax_x : ℤ), ((m.dsum (Function.update ax_D ax_x False) ax_V ax_S) = ((m.dsum ax_D ax_V ax_S) - (if (ax_D ax_x) then (ax_S (ax_V ax_x)) else (0 : ℝ)))))

def Ax.dsumCong (m : Sym) : Prop :=
  (∀ (ax_D : (ℤ → Prop)) (ax_V : (ℤ → ℤ)) (ax_U : (ℤ → ℤ)) (ax_S : (ℤ → ℝ)) (ax_T : (ℤ → ℝ)), ((∀ (x_b1 : ℤ), ((ax_D x_b1) → ((ax_S (ax_V x_b1)) = (ax_T (ax_U x_b1))))) → ((m.dsum ax_D ax_V ax_S) = (m.dsum ax_D ax_U ax_T))))

def Ax.rsum0 (m : Sym) : Prop :=
  (∀ (ax_r : (ℤ → ℝ)) (ax_o : ℤ), ((m.rsum ax_r ax_o (0 : ℤ)) = (0 : ℝ)))

def Ax.rsumS (m : Sym) : Prop :=
  (∀ (ax_r : (ℤ → ℝ)) (ax_o : ℤ) (ax_n : ℤ), (((0 : ℤ) < ax_n) → ((m.rsum ax_r ax_o ax_n) = ((m.rsum ax_r ax_o (ax_n - (1 : ℤ))) + (ax_r (ax_o + (ax_n - (1 : ℤ))))))))

def Ax.truncDef (m : Sym) : Prop :=
  (∀ (ax_F : (ℤ → ℤ)) (ax_P : (ℤ → ℤ)) (ax_k : ℤ) (ax_x : ℤ), (((m.trunc ax_F ax_P ax_k) ax_x) = (if ((¬ ((ax_F ax_x) = (0 : ℤ))) ∧ ((0 : ℤ) ≤ (ax_P ax_x)) ∧ ((ax_P ax_x) < ax_k)) then (0 : ℤ) else (ax_F ax_x))))

def Ax.stpT (m : Sym) : Prop :=
  (∀ (ax_n : ℤ), (m.stp ax_n))

def Ax.inl0 (m : Sym) : Prop :=
  (∀ (ax_r : (ℤ → ℤ)) (ax_o : ℤ) (ax_n : ℤ) (ax_x : ℤ), ((ax_n ≤ (0 : ℤ)) → (¬ (m.inl ax_r ax_o ax_n ax_x))))

def Ax.inlS (m : Sym) : Prop :=
  (∀ (ax_r : (ℤ → ℤ)) (ax_o : ℤ) (ax_n : ℤ) (ax_x : ℤ), (((0 : ℤ) < ax_n) → ((m.inl ax_r ax_o ax_n ax_x) = ((m.inl ax_r ax_o (ax_n - (1 : ℤ)) ax_x) ∨ ((ax_r (ax_o + (ax_n - (1 : ℤ)))) = ax_x)))))

def Ax.psum0 (m : Sym) : Prop :=
  (∀ (ax_W : (ℤ → ℤ)) (ax_F : (ℤ → ℤ)) (ax_S : (ℤ → ℝ)), ((m.psum ax_W ax_F ax_S (0 : ℤ)) = (0 : ℝ)))

def Ax.psumS (m : Sym) : Prop :=
  (∀ (ax_W : (ℤ → ℤ)) (ax_F : (ℤ → ℤ)) (ax_S : (ℤ → ℝ)) (ax_n : ℤ), (((0 : ℤ) < ax_n) → ((m.psum ax_W ax_F ax_S ax_n) = ((m.psum ax_W ax_F ax_S (ax_n - (1 : ℤ))) + (ax_S (ax_F (ax_W (ax_n - (1 : ℤ)))))))))

def Ax.wvalAdd (m : Sym) : Prop :=
  (∀ (ax_n : ℤ) (ax_size : ℝ) (ax_mean : ℝ) (ax_alpha : ℝ) (ax_beta : ℝ) (ax_gamma : ℝ), ((m.wval (1 : ℤ) ax_n ax_size ax_mean ax_alpha ax_beta ax_gamma) = (((ax_alpha * ((ax_n : ℤ) : ℝ)) + (ax_beta * ax_size)) + (ax_gamma * ax_mean))))

def Ax.wvalExp (m : Sym) : Prop :=
  (∀ (ax_n : ℤ) (ax_size : ℝ) (ax_mean : ℝ) (ax_alpha : ℝ) (ax_beta : ℝ) (ax_gamma : ℝ), ((m.wval (2 : ℤ) ax_n ax_size ax_mean ax_alpha ax_beta ax_gamma) = (((m.m_pow ((ax_n : ℤ) : ℝ) ax_alpha) + (m.m_pow ax_size ax_beta)) + (m.m_pow ax_mean ax_gamma))))

def Ax.wvalMul (m : Sym) : Prop :=
  (∀ (ax_n : ℤ) (ax_size : ℝ) (ax_mean : ℝ) (ax_alpha : ℝ) (ax_beta : ℝ) (ax_gamma : ℝ), ((m.wval (3 : ℤ) ax_n ax_size ax_mean ax_alpha ax_beta ax_gamma) = (((m.m_pow ((ax_n : ℤ) : ℝ) ax_alpha) * (m.m_pow ax_size ax_beta)) * (m.m_pow ax_mean ax_gamma))))

def Ax.asum0 (m : Sym) : Prop :=
  (∀ (ax_r : (ℤ → ℤ)) (ax_o : ℤ) (ax_t : ℤ), ((m.asum ax_r ax_o ax_t (0 : ℤ)) = (0 : ℤ)))

def Ax.asumS (m : Sym) : Prop :=
  (∀ (ax_r : (ℤ → ℤ)) (ax_o : ℤ) (ax_t : ℤ) (ax_n : ℤ), (((0 : ℤ) < ax_n) → ((m.asum ax_r ax_o ax_t ax_n) = ((m.asum ax_r ax_o ax_t (ax_n - (1 : ℤ))) + (if ((ax_r (ax_o + (ax_n - (1 : ℤ)))) = (0 : ℤ)) then (0 : ℤ) else (ax_t - (ax_r (ax_o + (ax_n - (1 : ℤ))))))))))

def Ax.prod0 (m : Sym) : Prop :=
  (∀ (ax_L : (ℤ → ℤ)) (ax_a : ℤ), ((m.prod ax_L ax_a ax_a) = (1 : ℤ)))

def Ax.prodS (m : Sym) : Prop :=
  (∀ (ax_L : (ℤ → ℤ)) (ax_a : ℤ) (ax_b : ℤ), ((ax_a ≤ ax_b) → ((m.prod ax_L ax_a (ax_b + (1 : ℤ))) = ((m.prod ax_L ax_a ax_b) * (ax_L ax_b)))))

def Ax.sfx0 (m : Sym) : Prop :=
  (∀ (ax_c : (ℤ → ℤ)) (ax_w : (ℤ → ℤ)) (ax_n : ℤ), ((m.sfx ax_c ax_w ax_n ax_n) = (0 : ℤ)))

def Ax.sfxS (m : Sym) : Prop :=
  (∀ (ax_c : (ℤ → ℤ)) (ax_w : (ℤ → ℤ)) (ax_j : ℤ) (ax_n : ℤ), ((ax_j < ax_n) → ((m.sfx ax_c ax_w ax_j ax_n) = (((ax_c ax_j) * (ax_w ax_j)) + (m.sfx ax_c ax_w (ax_j + (1 : ℤ)) ax_n)))))

def Ax.expMono (m : Sym) : Prop :=
  (∀ (ax_x : ℝ) (ax_y : ℝ), ((ax_x ≤ ax_y) → ((m.m_exp ax_x) ≤ (m.m_exp ax_y))))

def Ax.expPos (m : Sym) : Prop :=
  (∀ (ax_x : ℝ), ((0 : ℝ) < (m.m_exp ax_x)))

def Ax.expZero (m : Sym) : Prop :=
  (∀ (ax_x : ℝ), ((ax_x = (0 : ℝ)) → ((m.m_exp ax_x) = (1 : ℝ))))

def Ax.lsum0 (m : Sym) : Prop :=
  (∀ (ax_r : (ℤ → ℤ)) (ax_o : ℤ) (ax_v : (ℤ → ℝ)), ((m.lsum ax_r ax_o ax_v (0 : ℤ)) = (0 : ℝ)))

def Ax.lsumS (m : Sym) : Prop :=
  (∀ (ax_r : (ℤ → ℤ)) (ax_o : ℤ) (ax_v : (ℤ → ℝ)) (ax_n : ℤ), (((0 : ℤ) < ax_n) → ((m.lsum ax_r ax_o ax_v ax_n) = ((m.lsum ax_r ax_o ax_v (ax_n - (1 : ℤ))) + (ax_v (ax_r (ax_o + (ax_n - (1 : ℤ)))))))))

/-- Every axiom. -/
def Axioms (m : Sym) : Prop :=
  Ax.ssumEmpty m ∧ Ax.ssumStore m ∧ Ax.ssumCong m ∧ Ax.ssumNonneg m ∧ Ax.finStore m ∧ Ax.finTrunc m ∧ Ax.finSub m ∧ Ax.isumEmpty m ∧ Ax.isum0 m ∧ Ax.isumStore m ∧ Ax.isumVal m ∧ Ax.isumCong m ∧ Ax.isumZero m ∧ Ax.dsumEmpty m ∧ Ax.dsum0 m ∧ Ax.dsumAdd m ∧ Ax.dsumSame m ∧ Ax.dsumDel m ∧ Ax.dsumCong m ∧ Ax.rsum0 m ∧ Ax.rsumS m ∧ Ax.truncDef m ∧ Ax.stpT m ∧ Ax.inl0 m ∧ Ax.inlS m ∧ Ax.psum0 m ∧ Ax.psumS m ∧ Ax.wvalAdd m ∧ Ax.wvalExp m ∧ Ax.wvalMul m ∧ Ax.asum0 m ∧ Ax.asumS m ∧ Ax.prod0 m ∧ Ax.prodS m ∧ Ax.sfx0 m ∧ Ax.sfxS m ∧ Ax.expMono m ∧ Ax.expPos m ∧ Ax.expZero m ∧ Ax.lsum0 m ∧ Ax.lsumS m

end Vgo
