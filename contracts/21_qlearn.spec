area sim
// sfx(c, w, j, n) = c[j]*w[j] + ... + c[n-1]*w[n-1]
uf sfx(int->int, int->int, int, int) int
axiom sfx0(c: int->int, w: int->int, n: int)
  ensures sfx(c, w, n, n) == 0
  auto sfx(c, w, n, n)
axiom sfxS(c: int->int, w: int->int, j: int, n: int)
  requires j < n
  ensures sfx(c, w, j, n) == c[j] * w[j] + sfx(c, w, j + 1, n)

// W(w, L, n): w is the weight vector of the radices L; D(c, L, n): c is a digit vector
def WV(w, L, n) = imp(n > 0, w[n - 1] == 1) && all(i, int, imp(0 <= i && i < n - 1, w[i] == w[i + 1] * L[i + 1]), pat(w[i])) && all(i, int, imp(0 <= i && i < n, L[i] >= 1), pat(L[i]))
def DV(c, L, j, n) = all(i, int, imp(j <= i && i < n, 0 <= c[i] && c[i] < L[i]), pat(c[i]))
def NSt(w, L, n) = ite(n > 0, w[0] * L[0], 1)

lemma wpos(w: int->int, L: int->int, n: int, k: int)
  requires WV(w, L, n)
  requires 1 <= k && k <= n
  ensures w[n - k] >= 1
  induct k
  hint L[n - k + 1] == L[n - (k - 1)] && w[n - k + 1] == w[n - (k - 1)]

lemma sfxBound(c: int->int, w: int->int, L: int->int, n: int, k: int)
  requires WV(w, L, n) && DV(c, L, n - k, n)
  requires 1 <= k && k <= n
  ensures 0 <= sfx(c, w, n - k, n) && sfx(c, w, n - k, n) < w[n - k] * L[n - k]
  induct k
  hint wpos(w, L, n, k)
  hint sfxS(c, w, n - k, n)
  hint sfx0(c, w, n)
  hint 0 <= c[n - k] && c[n - k] <= L[n - k] - 1
  hint 0 <= c[n - k] * w[n - k] && c[n - k] * w[n - k] <= (L[n - k] - 1) * w[n - k]
  hint imp(k > 1, sfx(c, w, n - k + 1, n) == sfx(c, w, n - (k - 1), n))

lemma digitUniq(a: int, b: int, w: int, s: int, t: int)
  requires w >= 1 && 0 <= s && s < w && 0 <= t && t < w
  requires a * w + s == b * w + t
  ensures a == b
  hint imp(a > b, (a - b) * w >= w)
  hint imp(a < b, (b - a) * w >= w)

lemma sfxInj(c: int->int, d: int->int, w: int->int, L: int->int, n: int, k: int)
  requires WV(w, L, n) && DV(c, L, n - k, n) && DV(d, L, n - k, n)
  requires 0 <= k && k <= n
  requires sfx(c, w, n - k, n) == sfx(d, w, n - k, n)
  ensures all(i, int, imp(n - k <= i && i < n, c[i] == d[i]), pat(c[i]), pat(d[i]))
  induct k
  hint sfxS(c, w, n - k, n)
  hint sfxS(d, w, n - k, n)
  hint wpos(w, L, n, k)
  hint sfxBound(c, w, L, n, k - 1)
  hint sfxBound(d, w, L, n, k - 1)
  hint imp(k > 1, sfx(c, w, n - k + 1, n) == sfx(c, w, n - (k - 1), n) && sfx(d, w, n - k + 1, n) == sfx(d, w, n - (k - 1), n) && w[n - k] == w[n - (k - 1)] * L[n - (k - 1)])
  hint digitUniq(c[n - k], d[n - k], w[n - k], sfx(c, w, n - k + 1, n), sfx(d, w, n - k + 1, n))

// the largest number belongs to the largest digits only
lemma sfxMax(c: int->int, w: int->int, L: int->int, n: int, k: int)
  requires WV(w, L, n)
  requires 1 <= k && k <= n
  requires all(i, int, imp(0 <= i && i < n, c[i] == L[i] - 1), pat(c[i]))
  ensures sfx(c, w, n - k, n) == w[n - k] * L[n - k] - 1
  induct k
  hint sfxS(c, w, n - k, n)
  hint sfx0(c, w, n)
  hint imp(k > 1, sfx(c, w, n - k + 1, n) == sfx(c, w, n - (k - 1), n) && w[n - k] == w[n - (k - 1)] * L[n - (k - 1)])

lemma sfxUpdLow(c: int->int, w: int->int, n: int, i: int, v: int, k: int)
  requires 0 <= k && i < n - k
  ensures sfx(store(c, i, v), w, n - k, n) == sfx(c, w, n - k, n)
  induct k
  hint sfxS(c, w, n - k, n)
  hint sfxS(store(c, i, v), w, n - k, n)
  hint imp(k > 0, sfx(c, w, n - k + 1, n) == sfx(c, w, n - (k - 1), n) && sfx(store(c, i, v), w, n - k + 1, n) == sfx(store(c, i, v), w, n - (k - 1), n))

lemma sfxUpd(c: int->int, w: int->int, n: int, i: int, v: int, k: int)
  requires n - k <= i && i < n
  ensures sfx(store(c, i, v), w, n - k, n) == sfx(c, w, n - k, n) + (v - c[i]) * w[i]
  induct k
  hint sfxS(c, w, n - k, n)
  hint sfxS(store(c, i, v), w, n - k, n)
  hint sfxUpdLow(c, w, n, i, v, k - 1)
  hint imp(k > 0, sfx(c, w, n - k + 1, n) == sfx(c, w, n - (k - 1), n) && sfx(store(c, i, v), w, n - k + 1, n) == sfx(store(c, i, v), w, n - (k - 1), n))

// every combination has a number below NSt, and different combinations have different numbers:
// with row k of the table holding the combination numbered k, a combination's number is its row
lemma numberRange(c: int->int, w: int->int, L: int->int, n: int)
  requires n >= 0 && WV(w, L, n) && DV(c, L, 0, n)
  ensures 0 <= sfx(c, w, 0, n) && sfx(c, w, 0, n) < NSt(w, L, n)
  hint sfxBound(c, w, L, n, n)
lemma numberInj(c: int->int, d: int->int, w: int->int, L: int->int, n: int)
  requires n >= 0 && WV(w, L, n) && DV(c, L, 0, n) && DV(d, L, 0, n)
  requires sfx(c, w, 0, n) == sfx(d, w, 0, n)
  ensures all(i, int, imp(0 <= i && i < n, c[i] == d[i]), pat(c[i]), pat(d[i]))
  hint sfxInj(c, d, w, L, n, n)
lemma sfxCong(c: int->int, d: int->int, w: int->int, v: int->int, n: int, k: int)
  requires 0 <= k
  requires all(i, int, imp(n - k <= i && i < n, c[i] == d[i] && w[i] == v[i]), pat(c[i]), pat(d[i]))
  ensures sfx(c, w, n - k, n) == sfx(d, v, n - k, n)
  induct k
  hint sfxS(c, w, n - k, n)
  hint sfxS(d, v, n - k, n)
  hint imp(k > 0, sfx(c, w, n - k + 1, n) == sfx(c, w, n - (k - 1), n) && sfx(d, v, n - k + 1, n) == sfx(d, v, n - (k - 1), n))

lemma sfxZero(c: int->int, w: int->int, n: int, k: int)
  requires 0 <= k
  requires all(i, int, imp(n - k <= i && i < n, c[i] == 0), pat(c[i]))
  ensures sfx(c, w, n - k, n) == 0
  induct k
  hint sfxS(c, w, n - k, n)
  hint imp(k > 0, sfx(c, w, n - k + 1, n) == sfx(c, w, n - (k - 1), n))

func qlearn.QTable.FeatureIdxs2StateIdx(table, featureIdxs) -> (res)
  let C: lam(i, int, featureIdxs[i])
  let V: lam(i, int, table.IndexWeights[i])
  let n: len(featureIdxs)
  requires len(featureIdxs) <= len(table.IndexWeights) && imp(len(featureIdxs) > 0, table.IndexWeights[len(featureIdxs) - 1] == 1)
  ensures number: res == sfx(C, V, 0, n)
  pure
  loop 1
  inv index + sfx(C, V, K, n) == sfx(C, V, 0, n)
  hint sfxS(C, V, K, n)

// one row per combination, row k holds the combination number k; one value per action
def TableOK(t, w, L, n) = len(t.States) == NSt(w, L, n) && len(t.Actions) == NSt(w, L, n) && RowsOK(t, w, L, n, NSt(w, L, n))
def RowsOK(t, w, L, n, m) = alls(k, int, imp(0 <= k && k < m, len(t.States[k]) == n && off(t.States[k]) == 0 && arr(t.States[k]) > 0 && allocated(arr(t.States[k])) && sfx(row(t.States[k]), w, 0, n) == k), pat(t.States[k])) &&
    alls(k, int, i, int, imp(0 <= k && k < m && 0 <= i && i < n, 0 <= t.States[k][i] && t.States[k][i] < L[i]), pat(t.States[k][i])) &&
    alls(k, int, imp(0 <= k && k < m, len(t.Actions[k]) == len(t.ActionTypes) && off(t.Actions[k]) == 0 && arr(t.Actions[k]) > 0 && allocated(arr(t.Actions[k]))), pat(t.Actions[k])) &&
    alls(j, int, k, int, imp(0 <= j && j < k && k < m, arr(t.Actions[j]) != arr(t.Actions[k])), pat(t.Actions[j], t.Actions[k]))
def ActsOK(t) = alls(i, int, imp(0 <= i && i < len(t.ActionTypes), in(t.ActionTypes[i], t.ActionTypeIdxs) && t.ActionTypeIdxs[t.ActionTypes[i]] == i), pat(t.ActionTypes[i])) &&
    all(a, int, imp(in(a, t.ActionTypeIdxs), 0 <= t.ActionTypeIdxs[a] && t.ActionTypeIdxs[a] < len(t.ActionTypes) && t.ActionTypes[t.ActionTypeIdxs[a]] == a), pat(in(a, t.ActionTypeIdxs)), pat(t.ActionTypeIdxs[a]))

func qlearn.(*QTable).Init(table, featureManager, actions, randSeed)
  requires ref(table) > 0 && ref(featureManager) > 0
  requires WeightsOK(featureManager)
  requires forall(i, 0, len(featureManager.Features), FSize(featureManager, i) >= 1)
  requires len(actions) > 0 && all(i, int, j, int, imp(0 <= i && i < j && j < len(actions), actions[i] != actions[j]), pat(actions[i], actions[j]))
  let L: lam(i, int, FSize(featureManager, i))
  let V: lam(i, int, featureManager.FeatureIdxWeights[i])
  let M: lam(i, int, FSize(featureManager, i) - 1)
  let n: len(featureManager.Features)
  modifies obj(table)
  ensures kept: table.FeatureManager == featureManager && table.IndexWeights == featureManager.FeatureIdxWeights
  ensures some: len(table.Actions) > 0
  ensures rows: TableOK(table, V, L, n)
  ensures types: len(table.ActionTypes) == len(actions) && forall(i, 0, len(actions), table.ActionTypes[i] == actions[i]) && ActsOK(table)
  loop 1
  inv table.FeatureManager == featureManager && len(table.ActionTypes) == len(actions) && fresh(arr(table.ActionTypes)) && fresh(ref(table.ActionTypeIdxs))
  inv forall(i, 0, K, in(actions[i], table.ActionTypeIdxs) && table.ActionTypeIdxs[actions[i]] == i)
  inv all(a, int, imp(in(a, table.ActionTypeIdxs), 0 <= table.ActionTypeIdxs[a] && table.ActionTypeIdxs[a] < K && actions[table.ActionTypeIdxs[a]] == a), pat(in(a, table.ActionTypeIdxs)), pat(table.ActionTypeIdxs[a]))
  loop 2
  inv forall(i, 0, K, lengths[i] == L[i])
  hint WV(V, L, n)
  hint wpos(V, L, n, n)
  hint sfxZero(row(counters), V, n, n)
  loop 3
  decreases NSt(V, L, n) - K
  inv fresh(arr(table.States)) && fresh(arr(table.Actions))
  inv table.FeatureManager == featureManager && len(table.States) == K && len(table.Actions) == K
  inv DV(row(counters), L, 0, n) && sfx(row(counters), V, 0, n) == K && K < NSt(V, L, n)
  inv forall(i, 0, n, lengths[i] == L[i])
  inv RowsOK(table, V, L, n, K)
  inv alls(k, int, imp(0 <= k && k < K, arr(table.States[k]) != arr(counters) && arr(table.States[k]) != arr(lengths)), pat(table.States[k]))
  hint WV(V, L, n)
  hint sfxMax(M, V, L, n, n)
  hint sfxMax(row(counters), V, L, n, n)
  hint sfxInj(row(counters), M, V, L, n, n)
  hint sfxBound(row(counters), V, L, n, n)
  hint sfxUpd(row(counters), V, n, n - 1, counters[n - 1] + 1, n)
  loop 4
  inv forall(i, 0, K, counters[i] + 1 == lengths[i])
  hint sfxCong(row(curState), row(counters), V, V, n, n)
  loop 5
  inv 0 <= K && K <= n
  inv DV(row(counters), L, n - K, n) && all(i, int, imp(0 <= i && i < n - 1 - K, 0 <= counters[i] && counters[i] < L[i]), pat(counters[i]))
  inv imp(K < n, 0 <= counters[n - 1 - K] && counters[n - 1 - K] <= L[n - 1 - K])
  inv sfx(row(counters), V, 0, n) == Kout + 1 && Kout + 1 < NSt(V, L, n)
  hint WV(V, L, n)
  hint sfxS(row(counters), V, n - 1 - K, n)
  hint wpos(V, L, n, K)
  hint sfxBound(row(counters), V, L, n, K)
  hint imp(K == n - 1 && counters[0] == L[0], counters[0] * V[0] == V[0] * L[0])
  hint imp(K < n - 1, L[n - 1 - K] * V[n - 1 - K] == V[n - 2 - K])
  hint sfxUpd(row(counters), V, n, n - 1 - K, 0, n)
  hint sfxUpd(store(row(counters), n - 1 - K, 0), V, n, n - 2 - K, counters[n - 2 - K] + 1, n)
  // the actions copied one at a time
  alternative
  loop 1
  inv table.FeatureManager == featureManager && len(table.ActionTypes) == len(actions) && fresh(arr(table.ActionTypes)) && fresh(ref(table.ActionTypeIdxs))
  inv forall(i, 0, K, in(actions[i], table.ActionTypeIdxs) && table.ActionTypeIdxs[actions[i]] == i)
  inv all(a, int, imp(in(a, table.ActionTypeIdxs), 0 <= table.ActionTypeIdxs[a] && table.ActionTypeIdxs[a] < K && actions[table.ActionTypeIdxs[a]] == a), pat(in(a, table.ActionTypeIdxs)), pat(table.ActionTypeIdxs[a]))
  inv forall(i, 0, len(actions), actions[i] == old(actions[i]))
  inv all(i, int, j, int, imp(0 <= i && i < j && j < len(actions), actions[i] != actions[j]), pat(actions[i], actions[j]))
  inv forall(i, 0, K, table.ActionTypes[i] == actions[i])
  // the carry stops at the first digit that has room
  alternative
  loop 5
  inv 0 <= K && K <= n
  inv DV(row(counters), L, 0, n)
  inv sfx(row(counters), V, 0, n) + ite(K < n, V[n - 1 - K], NSt(V, L, n)) == Kout + 1 && Kout + 1 < NSt(V, L, n)
  hint WV(V, L, n)
  hint wpos(V, L, n, K)
  hint sfxBound(row(counters), V, L, n, n)
  hint imp(K < n - 1, L[n - 1 - K] * V[n - 1 - K] == V[n - 2 - K])
  hint sfxUpd(row(counters), V, n, n - 1 - K, counters[n - 1 - K] + 1, n)
  hint sfxUpd(row(counters), V, n, n - 1 - K, 0, n)

// the index of a value in a feature: the first entry that fits
def Fits(o, v, i) = imp(o.ReflectType == 6, imp(i >= 0, pi(v) <= o.Int64Values[i]) && forall(j, 0, ite(i >= 0, i, len(o.Int64Values)), pi(v) > o.Int64Values[j])) &&
   imp(o.ReflectType == 14, imp(i >= 0, pr(v) <= o.Float64Values[i]) && forall(j, 0, ite(i >= 0, i, len(o.Float64Values)), pr(v) > o.Float64Values[j]))
func qlearn.QTable.Features2Idxs(table, features) -> (res)
  requires ref(table.FeatureManager) > 0 && len(features) <= len(table.FeatureManager.Features)
  requires alls(i, int, imp(0 <= i && i < len(features), table.FeatureManager.Features[i].Buckets && ite(typeis(features[i], int64), table.FeatureManager.Features[i].ReflectType == 6, typeis(features[i], float64) && table.FeatureManager.Features[i].ReflectType == 14)), pat(features[i]))
  ensures each: len(res) == len(features) && alls(i, int, imp(0 <= i && i < len(features), 0 - 1 <= res[i] && (res[i] == 0 - 1 || res[i] < FSize(table.FeatureManager, i)) && Fits(table.FeatureManager.Features[i], features[i], res[i])), pat(res[i]))
  pure
  loop 1
  inv len(featureIdxs) == len(features) && fresh(arr(featureIdxs))
  inv alls(i, int, imp(0 <= i && i < K, 0 - 1 <= featureIdxs[i] && (featureIdxs[i] == 0 - 1 || featureIdxs[i] < FSize(table.FeatureManager, i)) && Fits(table.FeatureManager.Features[i], features[i], featureIdxs[i])), pat(featureIdxs[i]))
