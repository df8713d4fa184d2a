area sim
// the first k files of an order weigh what the set loses
lemma evictSum(W: int->int, P: int->int, F: int->int, S: int->real, n: int, k: int)
  requires 0 <= k && k <= n
  requires forall(j, 0, n, F[W[j]] != 0 && P[W[j]] == j, pat(W[j]))
  requires all(x, int, imp(F[x] != 0 && 0 <= P[x] && P[x] < n, W[P[x]] == x), pat(P[x]))
  ensures ssum(trunc(F, P, k), S) == ssum(F, S) - psum(W, F, S, k)
  induct k
  hint trunc(F, P, 0) == F
  hint imp(k > 0, trunc(F, P, k) == store(trunc(F, P, k - 1), W[k - 1], 0))
