area sim
tags OCC = C01,C02,C03,C04,C09,C11,C12,C13,R06
tags QUIET = C02,C03,C04,C08,C09,C11,C12,C13,C16,R06
area all
// Sums over finite sets. ssum(F, S): total of S over the records of F (0 = none);
// isum(D, V): total of V over the set D; rsum(r, o, n): r[o] + ... + r[o+n-1].
uf ssum(int->int, int->real) real
uf fin(int->int) bool
uf isum(int->bool, int->int) int
uf rsum(int->real, int, int) real

axiom ssumEmpty(F: int->int, S: int->real)
  requires all(x, int, F[x] == 0, pat(F[x]))
  ensures ssum(F, S) == 0 && fin(F)
axiom ssumStore(F: int->int, S: int->real, x: int, r: int)
  ensures ssum(store(F, x, r), S) == ssum(F, S) - ite(F[x] != 0, S[F[x]], 0) + ite(r != 0, S[r], 0)
  auto ssum(store(F, x, r), S)
axiom ssumCong(F: int->int, S: int->real, T: int->real)
  requires all(x, int, imp(F[x] != 0, S[F[x]] == T[F[x]]), pat(F[x]))
  ensures ssum(F, S) == ssum(F, T)
axiom ssumNonneg(F: int->int, S: int->real)
  requires fin(F)
  requires all(x, int, imp(F[x] != 0, S[F[x]] >= 0), pat(F[x]))
  ensures ssum(F, S) >= 0
axiom finStore(F: int->int, x: int, r: int)
  requires fin(F)
  ensures fin(store(F, x, r))
  auto fin(store(F, x, r))
axiom finTrunc(F: int->int, P: int->int, k: int)
  requires fin(F)
  ensures fin(trunc(F, P, k))
  auto fin(trunc(F, P, k))
axiom finSub(F: int->int, G: int->int)
  requires fin(F)
  requires all(x, int, imp(G[x] != 0, F[x] != 0), pat(G[x]))
  ensures fin(G)

axiom isumEmpty(D: int->bool, V: int->int)
  requires all(x, int, !D[x], pat(D[x]))
  ensures isum(D, V) == 0
axiom isum0(V: int->int)
  ensures isum(constarr("int->bool", false), V) == 0
  auto isum(constarr("int->bool", false), V)
axiom isumStore(D: int->bool, V: int->int, x: int)
  ensures isum(store(D, x, true), V) == isum(D, V) + ite(D[x], 0, V[x])
  auto isum(store(D, x, true), V)
axiom isumVal(D: int->bool, V: int->int, x: int, v: int)
  ensures isum(D, store(V, x, v)) == isum(D, V) + ite(D[x], v - V[x], 0)
  auto isum(D, store(V, x, v))

axiom isumCong(D: int->bool, E: int->bool, V: int->int)
  requires all(x, int, D[x] == E[x], pat(D[x]), pat(E[x]))
  ensures isum(D, V) == isum(E, V)
axiom isumZero(D: int->bool, V: int->int)
  requires all(x, int, imp(D[x], V[x] == 0), pat(V[x]), pat(D[x]))
  ensures isum(D, V) == 0

// dsum(D, V, S): total of S over the records V[x], x in D
uf dsum(int->bool, int->int, int->real) real
axiom dsumEmpty(D: int->bool, V: int->int, S: int->real)
  requires all(x, int, !D[x], pat(D[x]))
  ensures dsum(D, V, S) == 0
axiom dsum0(V: int->int, S: int->real)
  ensures dsum(constarr("int->bool", false), V, S) == 0
  auto dsum(constarr("int->bool", false), V, S)
axiom dsumAdd(D: int->bool, V: int->int, S: int->real, x: int)
  ensures dsum(store(D, x, true), V, S) == dsum(D, V, S) + ite(D[x], 0, S[V[x]])
  auto dsum(store(D, x, true), V, S)
axiom dsumSame(D: int->bool, E: int->bool, V: int->int, S: int->real)
  requires all(x, int, D[x] == E[x], pat(D[x]), pat(E[x]))
  ensures dsum(D, V, S) == dsum(E, V, S)
axiom dsumDel(D: int->bool, V: int->int, S: int->real, x: int)
  ensures dsum(store(D, x, false), V, S) == dsum(D, V, S) - ite(D[x], S[V[x]], 0)
  auto dsum(store(D, x, false), V, S)
axiom dsumCong(D: int->bool, V: int->int, U: int->int, S: int->real, T: int->real)
  requires all(x, int, imp(D[x], S[V[x]] == T[U[x]]), pat(D[x]), pat(V[x]))
  ensures dsum(D, V, S) == dsum(D, U, T)

axiom rsum0(r: int->real, o: int)
  ensures rsum(r, o, 0) == 0
  auto rsum(r, o, 0)
axiom rsumS(r: int->real, o: int, n: int)
  requires n > 0
  ensures rsum(r, o, n) == rsum(r, o, n - 1) + r[o + (n - 1)]
lemma rsumCong(r: int->real, o: int, s: int->real, p: int, n: int)
  requires n >= 0
  requires forall(k, 0, n, r[o + k] == s[p + k])
  ensures rsum(r, o, n) == rsum(s, p, n)
  induct n
  hint rsumS(r, o, n)
  hint rsumS(s, p, n)

// trunc(F, P, k): F without the files at the first k positions
uf trunc(int->int, int->int, int) int->int
axiom truncDef(F: int->int, P: int->int, k: int, x: int)
  ensures trunc(F, P, k)[x] == ite(F[x] != 0 && 0 <= P[x] && P[x] < k, 0, F[x])
  auto trunc(F, P, k)[x]
